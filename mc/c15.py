import itertools
import lib
PROPERTY, LEVEL, LIMIT = 'C15', 'exploration', 600


def groups(tier):
    q = tier == 'quick'
    dims = [(1, 1, 3, 3), (1, 2, 3, 3), (1, 3, 3, 2), (2, 1, 3, 3), (2, 2, 3, 3), (2, 3, 2, 2), (3, 2, 2, 2), (3, 1, 3, 3), (1, 4, 3, 2), (2, 4, 1, 1), (3, 3, 1, 1)]
    if not q: dims += [(2, 4, 2, 2), (3, 3, 2, 2), (4, 2, 3, 3), (3, 4, 1, 1), (4, 3, 1, 1), (2, 5, 1, 2)]
    g = []
    for R, C, B, U in dims:
        n = 2 ** (R * C) * (B + 1) ** R * (U + 1) ** C
        parts = max(1, min(64, n // 4000))
        g += [(n / parts * 1e-4, [dict(kind='bounds', R=R, C=C, B=B, U=U, part=i, parts=parts)]) for i in range(parts)]
    for R, C, B in [(1, 9, 9), (2, 5, 6), (2, 7, 6), (2, 9, 7), (3, 5, 3), (3, 6, 3)] + ([] if q else [(2, 12, 9), (3, 6, 5), (3, 8, 4), (4, 5, 3), (4, 6, 2)]):
        n = len(list(itertools.combinations_with_replacement(range(2 ** R - 1), C))) * (B + 1) ** R
        parts = max(1, min(64, n // 2500))
        g += [(n / parts * 1e-3, [dict(kind='types', R=R, C=C, B=B, part=i, parts=parts)]) for i in range(parts)]
    for R, C in [(1, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (1, 6), (6, 1), (4, 2), (2, 5)] + ([] if q else [(4, 4), (5, 3), (3, 5), (6, 3)]):
        n = 2 ** (R * C); parts = max(1, min(16, n // 2000))
        g += [(n / parts * 1e-4, [dict(kind='single', R=R, C=C, part=i, parts=parts)]) for i in range(parts)]
    g += [(1, [dict(kind='zero', n=n) for n in range(0, 7)]), (1, [dict(kind='wide', C=C) for C in (20, 63, 64, 65, 100, 126)])]
    return g


def tighten(A, b, u):
    import numpy as np
    f = lib.seam('srg.bounds', 'lower_upper_bound')
    An, bn, un = (np.array(x, dtype=np.int8) for x in (A, b, u))
    An = An.reshape(len(b), len(u))
    r = f(An, bn, un)
    if An.tolist() != A or bn.tolist() != b: raise lib.BadResult('tightening changed the system')
    return [int(x) for x in (un if r is None else r)]


def judge(A, b, u, st):
    got = tighten(A, b, u)
    st.add('evaluations')
    if len(got) != len(u): return dict(what='wrong number of bounds', A=A, b=b, bounds=u, got=got)
    if any(g > x for g, x in zip(got, u)): return dict(what='a bound was raised', A=A, b=b, bounds=u, got=got)
    if got != u:
        st.add('distinct_nontrivial')
        for x in itertools.product(*(range(t + 1) for t in u)):
            if any(t > g for t, g in zip(x, got)) and all(sum(a * t for a, t in zip(r, x)) == y for r, y in zip(A, b)):
                return dict(what='tightening excludes a solution', A=A, b=b, bounds=u, got=got, solution=x)


def tops(A, b, u):
    """largest value of each unknown over the solutions (None without solution): sums reachable with the first, and with the last, columns"""
    C, R = len(u), len(b)
    cols = [tuple(r[c] for r in A) for c in range(C)]
    add = lambda s, c, t: tuple(x + t * y for x, y in zip(s, cols[c]))
    fits = lambda s: all(x <= y for x, y in zip(s, b))
    front = [{(0,) * R}]
    for c in range(C): front.append({z for s in front[-1] for t in range(u[c] + 1) for z in [add(s, c, t)] if fits(z)})
    if tuple(b) not in front[-1]: return None
    back = {tuple(b)}          # sums from which the remaining columns reach b
    top = [0] * C
    for c in reversed(range(C)):
        prev = set()
        for s in front[c]:
            for t in range(u[c] + 1):
                if add(s, c, t) in back: prev.add(s); top[c] = max(top[c], t)
        back = prev
    return top


def singles(A, st):
    import numpy as np
    f = lib.seam('srg.bounds', 'one_element_row_locs')
    m = np.array(A, dtype=np.int8)
    got = [(int(r), int(c)) for r, c in f(m)]
    st.add('evaluations')
    rows = [(r, row.index(1)) for r, row in enumerate(A) if sum(row) == 1]
    if rows: st.add('distinct_nontrivial')
    if m.tolist() != A: return dict(what='the matrix was changed', A=A)
    if any(x not in rows for x in got): return dict(what='reports a row that has not this one entry', A=A, got=got)
    if sorted(c for r, c in got) != sorted({c for r, c in rows}): return dict(what='not every column with a row to itself is reported exactly once', A=A, got=got)


def zeros(u, st):
    import numpy as np
    f = lib.seam('srg.bounds', 'zero_bound_loc')
    m = np.array(u, dtype=np.int8)
    got = [int(x) for x in f(m)]
    st.add('evaluations'); st.add('distinct_nontrivial', 1 if 0 in u else 0)
    if m.tolist() != u or sorted(got) != [i for i, x in enumerate(u) if x == 0]: return dict(what='places reported as zero are not those with bound zero', bounds=u, got=got)


def evaluate(case, st):
    if case['kind'] == 'bounds':
        R, C = case['R'], case['C']
        for x in range(case['part'], 2 ** (R * C), case['parts']) if case['parts'] <= 2 ** (R * C) else ([case['part']] if case['part'] < 2 ** (R * C) else []):
            A = [[x >> (r * C + c) & 1 for c in range(C)] for r in range(R)]
            for b in itertools.product(range(case['B'] + 1), repeat=R):
                for u in itertools.product(range(case['U'] + 1), repeat=C):
                    v = judge(A, list(b), list(u), st)
                    if v: return v
        st.sample(dict(kind='bounds', R=R, C=C), 1)
    elif case['kind'] == 'types':
        R, C, B = case['R'], case['C'], case['B']
        for n, cols in enumerate(itertools.combinations_with_replacement(range(1, 2 ** R), C)):
            if n % case['parts'] != case['part']: continue
            if n % 3 == 1: cols = cols[::-1]
            if n % 3 == 2: cols = cols[::2] + cols[1::2]
            A = [[c >> r & 1 for c in cols] for r in range(R)]
            for b in itertools.product(range(B + 1), repeat=R):
                for u in ([1] * C, [B] * C, [1 + i % 3 for i in range(C)])[(sum(b) + n) % 3:][:1 if R > 2 else 3]:
                    got = tighten(A, list(b), u)
                    st.add('evaluations')
                    if len(got) != C or any(g > x for g, x in zip(got, u)): return dict(what='a bound was raised', A=A, b=b, bounds=u, got=got)
                    if got == u: continue
                    top = tops(A, b, u)
                    st.add('distinct_nontrivial')
                    if top and any(g < t for g, t in zip(got, top)): return dict(what='tightening excludes a solution', A=A, b=b, bounds=u, got=got, largest=top)
        st.sample(dict(kind='types', R=R, C=C), 1)
    elif case['kind'] == 'single':
        R, C = case['R'], case['C']
        for x in range(case['part'], 2 ** (R * C), case['parts']):
            v = singles([[x >> (r * C + c) & 1 for c in range(C)] for r in range(R)], st)
            if v: return v
    elif case['kind'] == 'zero':
        for u in itertools.product(range(3), repeat=case['n']):
            v = zeros(list(u), st)
            if v: return v
    else:
        C = case['C']
        pos = sorted({0, 1, C // 2, C - 2, C - 1})
        for i, j in itertools.product(pos, repeat=2):
            e = lambda i: [1 if c == i else 0 for c in range(C)]
            for A in ([e(i), e(j)], [e(i), [1] * C, e(j)], [[1] * C, e(i)], [e(i), e(i), e(j), [0] * C]):
                v = singles(A, st)
                if v: return v
                b = [1] * len(A); u = [2] * C
                got = tighten(A, b, u)
                st.add('evaluations')
                want = [min([2] + [y for r, y in zip(A, b) if r[c]]) for c in range(C)]
                # any bound between the solutions' maximum and the old one is allowed; here every unknown can reach these values or less
                if any(g > 2 for g in got): return dict(what='a bound was raised', A=A)
                if any(sum(r) == 0 for r in A): continue
                top = reach(A, b, u, C)
                if top is not None and any(g < t for g, t in zip(got, top)): return dict(what='tightening excludes a solution', A=A, b=b, got=got)
            for z in ([1 if c in (i, j) else 0 for c in range(C)], [0 if c in (i, j) else 5 for c in range(C)]):
                v = zeros(z, st)
                if v: return v


def reach(A, b, u, C):
    """largest value of each unknown over the solutions; None without solution (b is all ones)"""
    # an unknown is 0 or 1 in every row's solution, as every row sums to one and each unknown of interest is in a row
    top = [0] * C
    rows = [{c for c in range(C) if r[c]} for r in A]
    common = set.union(*rows)
    free = [c for c in range(C) if c not in common]
    found = False
    choices = sorted(set(c for r in rows if len(r) < C for c in r)) or list(range(C))
    import itertools as it
    cand = sorted(set(choices) | ({min(set(range(C)) - set(choices))} if len(choices) < C else set()))
    for n in range(0, len(cand) + 1):
        for s in it.combinations(cand, n):
            if all(len(r & set(s)) == 1 for r in rows):
                found = True
                for c in s: top[c] = 1
    if not found: return None
    for c in free: top[c] = u[c]
    return top


def meta(tier, st):
    return dict(rule='all 0/1 systems with right hand sides and bounds up to the stated sizes, systems of up to 3 (4) rows and 9 (12) columns with every multiset of column types, all 0/1 matrices for single-entry rows, all small bound vectors; wide systems with single-entry rows at the first, last and middle columns')
