import itertools
import lib
PROPERTY, LEVEL, LIMIT = 'C13', 'exploration', 600


def groups(tier):
    q = tier == 'quick'
    dims = [(1, c) for c in range(1, 9)] + [(2, c) for c in range(1, 7)] + [(3, c) for c in range(1, 5)] + [(4, 2), (4, 3), (5, 2), (6, 2)]
    if not q: dims += [(1, 12), (2, 8), (3, 6), (4, 4), (5, 3), (8, 2)]
    g = []
    for R, C in dims:
        n = 2 ** (R * C); parts = max(1, min(64, n // 2000))
        g += [(n / parts * 1e-3, [dict(kind='all', R=R, C=C, part=i, parts=parts)]) for i in range(parts)]
    for R in ((31, 32, 33, 62, 63, 64, 65, 66, 100) if q else range(20, 131)): g += [(1, [dict(kind='tall', R=R)])]
    for n in range(1, 11 if q else 15): g += [(1, [dict(kind='answers', n=n)])]
    for n in (40, 63, 64, 65, 100, 126): g += [(1, [dict(kind='long answers', n=n)])]
    return g


def judge(A, st):
    import numpy as np
    red, exp = lib.seam('srg.unique', 'reduce'), lib.seam('srg.unique', 'expand')
    m = np.array(A, dtype=np.int8); before = m.copy()
    r, mult, loc = red(m)
    back = exp(r, mult)
    st.add('evaluations')
    if not np.array_equal(m, before): return dict(what='merging changed its input', A=A)
    cols = [tuple(row[c] for row in A) for c in range(len(A[0]))]
    lead = [c for c in range(len(cols)) if c == 0 or cols[c] != cols[c - 1]]
    if len(lead) < len(cols): st.add('matrices_with_merged_columns')
    if list(map(int, loc)) != lead: return dict(what='recorded positions are not those of the group leaders', A=A, got=list(map(int, loc)), expected=lead)
    ends = lead[1:] + [len(cols)]
    if list(map(int, mult)) != [b - a for a, b in zip(lead, ends)]: return dict(what='recorded multiplicities are wrong', A=A, got=list(map(int, mult)))
    if not np.array_equal(r, m[:, lead]): return dict(what='merged columns are not the group leaders', A=A)
    if not np.array_equal(back, m): return dict(what='expanding does not restore the matrix', A=A, got=np.asarray(back).tolist())


def compositions(n):
    if n == 0: yield (); return
    for a in range(1, n + 1):
        for r in compositions(n - a): yield (a,) + r


def answer(sizes, values, n):
    import numpy as np
    from srg.srg import Answer
    loc = np.array([sum(sizes[:i]) for i in range(len(sizes))], dtype=int)
    a = Answer(value=np.array(values, dtype=np.int8), location=loc, len=n)
    got = a.binarize()
    want = [x for s, v in zip(sizes, values) for x in [1] * v + [0] * (s - v)]
    if list(map(int, got)) != want: return dict(what='expanded answer is wrong', sizes=sizes, values=values, got=list(map(int, got)))


def evaluate(case, st):
    if case['kind'] == 'all':
        R, C = case['R'], case['C']
        for x in range(case['part'], 2 ** (R * C), case['parts']):
            A = [[x >> (r * C + c) & 1 for c in range(C)] for r in range(R)]
            v = judge(A, st)
            st.add('distinct_nontrivial', 1 if len(set(zip(*A))) > 1 else 0)
            if v: return v
        st.sample(dict(A=A), 1)
    elif case['kind'] == 'tall':
        # columns that differ in exactly one row, at every row, next to columns that do not differ
        R = case['R']
        for base in (0, 1):
            for r in range(R):
                for pattern in itertools.product((0, 1), repeat=3):
                    A = [[base] * 3 for _ in range(R)]
                    for c in range(3): A[r][c] = pattern[c]
                    v = judge(A, st)
                    st.add('distinct_nontrivial', 1 if len(set(pattern)) > 1 else 0)
                    if v: return v
                for r2 in range(r + 1, R):
                    A = [[base] * 2 for _ in range(R)]
                    A[r][0] ^= 1; A[r2][1] ^= 1
                    v = judge(A, st)
                    st.add('distinct_nontrivial')
                    if v: return v
    elif case['kind'] == 'answers':
        n = case['n']
        for sizes in compositions(n):
            for values in itertools.product(*(range(s + 1) for s in sizes)):
                st.add('evaluations'); st.add('distinct_nontrivial', 1 if 0 < sum(values) < n else 0)
                v = answer(sizes, values, n)
                if v: return v
    else:
        n = case['n']
        for parts in (1, 2, 3):
            for cut in itertools.combinations(sorted({1, 2, n // 2, n - 2, n - 1}), parts - 1):
                e = (0,) + cut + (n,)
                sizes = [b - a for a, b in zip(e, e[1:])]
                for values in itertools.product(*(sorted({0, 1, s // 2, s - 1, s}) for s in sizes)):
                    st.add('evaluations'); st.add('distinct_nontrivial')
                    v = answer(sizes, values, n)
                    if v: return v


def meta(tier, st):
    return dict(rule='all 0/1 matrices of the listed sizes; matrices of up to 100 (130) rows whose columns differ in one row or two, at every row; all answers over all groupings of up to 10 (14) places; non-trivial: the columns are not all equal / some but not all ones')
