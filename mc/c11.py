"""Bounded-exhaustive: all small 0/1 systems, and systems around the 64 column limit, against the complete solution set."""
import itertools
import lib
PROPERTY, LEVEL, LIMIT = 'C11', 'model_checking', 600


def groups(tier):
    q = tier == 'quick'
    dims = [(1, 1, 5), (1, 2, 5), (1, 3, 4), (1, 4, 3), (2, 1, 4), (2, 2, 4), (2, 3, 3), (2, 4, 3), (3, 1, 4), (3, 2, 4), (3, 3, 3), (4, 1, 3), (4, 2, 2), (3, 4, 1), (4, 3, 1), (5, 2, 1)]
    if not q: dims += [(3, 4, 3), (4, 3, 3), (4, 4, 2), (3, 5, 2), (5, 3, 2), (2, 6, 3), (5, 2, 3), (6, 2, 2), (3, 3, 6)]
    g = []
    for R, C, B in dims:
        n = (2 ** R - 1) ** C * (B + 1) ** R
        parts = max(1, min(64, n // 3000))
        g += [(n / parts * 1e-4, [dict(kind='small', R=R, C=C, B=B, part=i, parts=parts)]) for i in range(parts)]
    for C in ((62, 63, 64, 65, 66, 70) if q else range(31, 127)):
        for R in (1, 2, 3):
            parts = 1 if R < 3 else (4 if q else 8)
            g += [(2, [dict(kind='wide', R=R, C=C, part=i, parts=parts, b=1 if R == 3 else 2)]) for i in range(parts)]
    g += [(6, [dict(kind='big', R=2, C=C, part=i, parts=4)]) for C in (1, 2, 3) for i in range(4)]
    g += [(3, [dict(kind='sort', R=R, C=C, part=i, parts=2)]) for R, C in ((1, 3), (2, 2), (3, 2), (4, 1), (5, 1)) for i in range(2)] + [(3, [dict(kind='sort', R=R, C=3, part=i, parts=2)]) for R in (17, 40) for i in range(2)]
    g += [(15, [dict(kind='deep', n=n)]) for n in ((1100,) if q else (1100, 1300))]
    reach = []
    for v, k, l, u, cost, states, sols in lib.param_table():
        if cost <= (0.3 if q else 3) and v <= (26 if q else 60): reach.append((max(cost, 0.01), dict(kind='reach', p=[v, k, l, u])))
    return g + lib.balance(reach, 24)


def solutions(A, b, box):
    """all x in 0..box with A x = b, by backtracking"""
    R, C = len(A), len(A[0]) if A else 0
    out = []
    x = [0] * C
    last = [max([c for c in range(C) if A[r][c]], default=-1) for r in range(R)]
    def go(c, rest):
        if c == C:
            if not any(rest): out.append(tuple(x))
            return
        for t in range(box + 1):
            new = [rest[r] - A[r][c] * t for r in range(R)]
            if any(y < 0 for y in new): break
            if any(last[r] == c and new[r] for r in range(R)): continue
            x[c] = t
            go(c + 1, new)
        x[c] = 0
    if any(last[r] == -1 and b[r] for r in range(R)): return []
    go(0, list(b))
    return out


BIG = (0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300)


def judge(A, b, st, elim, NoSolution, dtype='int8'):
    """A: list of rows, b: list"""
    import numpy as np
    R, C = len(A), len(A[0])
    An = np.array(A, dtype=dtype); bn = np.array(b, dtype=dtype)
    try: Ae, be = elim(An, bn)
    except NoSolution: Ae = None
    st.add('traces_validated_against_impl')
    if An.tolist() != [list(r) for r in A] or bn.tolist() != list(b): return dict(what='elimination changed its input', A=A, b=b)
    if Ae is None: A2, b2 = None, None
    else:
        A2, b2 = [[int(y) for y in r] for r in Ae], [int(y) for y in be]
        if len(A2) != len(b2): return dict(what='shapes do not fit', A=A, b=b, got=[A2, b2])
        if any(len(r) != C for r in A2): return dict(what='result has %s unknowns instead of %d' % (len(A2[0]) if A2 else 0, C), A=A, b=b, got=[A2, b2])
        if any(y < 0 for r in A2 for y in r): return dict(what='result has negative coefficients', A=A, b=b, got=[A2, b2])
    # columns that agree in both systems are interchangeable: one unknown for each class decides
    cls = {}
    for c in range(C): cls.setdefault((tuple(r[c] for r in A), tuple(r[c] for r in A2) if A2 is not None else ()), c)
    keep = sorted(cls.values())
    small = [[r[c] for c in keep] for r in A]
    box = max(list(b) + (b2 or []) + [0])
    S = solutions(small, b, box)
    st.add('states')
    if S: st.add('solvable_systems')
    if A2 is None:
        st.add('reported_unsolvable')
        if S: return dict(what='reports that there is no solution although there is one', A=A, b=b, solution=S[0])
        return
    small2 = [[r[c] for c in keep] for r in A2]
    S2 = solutions(small2, b2, box)
    free = any(all(r[c] == 0 for r in small2) for c in range(len(keep)))
    if S != S2: return dict(what='other solutions after elimination', A=A, b=b, got=[A2, b2], lost=sorted(set(S) - set(S2))[:2], new=sorted(set(S2) - set(S))[:2], unknowns=keep)
    if free and S2: return dict(what='an unknown is no longer constrained', A=A, b=b, got=[A2, b2])
    st.add('transitions', len(A2)); 
    if A2 != [list(r) for r in A]: st.add('changed_systems')


def sorting(case, st):
    """gauss_elim.sort: the same equations, ascending by right hand side"""
    import numpy as np
    f = lib.seam('srg.gauss_elim', 'sort')
    R, C = case['R'], case['C']
    if R < 10: todo = itertools.product(itertools.product(itertools.product((0, 1), repeat=C), repeat=R), itertools.product((0, 1, 2, 5), repeat=R))
    else: todo = (([[(i >> c) & 1 for c in range(C)] for i in range(R)], [(a * i + s) % m for i in range(R)]) for a in range(1, 8) for m in (2, 3, 7, R, 130) for s in range(3))
    for n, (A, b) in enumerate(todo):
        if n % case['parts'] != case['part']: continue
        An, bn = np.array(A, dtype='int16').reshape(R, C), np.array(b, dtype='int16')
        f(An, bn)
        st.add('states'); st.add('traces_validated_against_impl'); st.add('sorted_systems')
        if bn.tolist() != sorted(b): return dict(what='right hand sides are not ascending', A=A, b=b, got=bn.tolist())
        if sorted(zip(An.tolist(), bn.tolist())) != sorted((list(r), y) for r, y in zip(A, b)): return dict(what='sorting changes the equations', A=A, b=b, got=[An.tolist(), bn.tolist()])


def deep(case, st):
    """more reductions than the interpreter nests calls: x0 + ... + xi = i + 1 for all i has the one solution x = 1"""
    import numpy as np
    elim = lib.seam('srg.gauss_elim', 'elim')
    n = case['n']
    A, b = np.tril(np.ones((n, n), dtype='int64')), np.arange(1, n + 1, dtype='int64')
    Ae, be = elim(A.copy(), b.copy())
    Ae, be = np.asarray(Ae).astype('int64'), np.asarray(be).astype('int64')
    st.add('states'); st.add('traces_validated_against_impl'); st.add('systems_of_1000_and_more_equations')
    if Ae.ndim != 2 or Ae.shape[1] != n or len(be) != len(Ae): return dict(what='shapes do not fit', n=n, got=[list(Ae.shape), len(be)])
    if (Ae < 0).any(): return dict(what='result has negative coefficients', n=n)
    if (Ae.sum(axis=1) != be).any(): return dict(what='other solutions after elimination', n=n, lost='all ones')
    if np.linalg.matrix_rank(Ae.astype(float)) < n: return dict(what='other solutions after elimination', n=n, new='the result leaves unknowns free')


def evaluate(case, st):
    if case['kind'] == 'deep': return deep(case, st)
    if case['kind'] == 'sort': return sorting(case, st)
    elim = lib.seam('srg.gauss_elim', 'elim')
    from srg.srg import NoSolution, Question
    if case['kind'] == 'small':
        R, C, B = case['R'], case['C'], case['B']
        cols = list(itertools.product((0, 1), repeat=R))[1:]
        n = 0
        for cc in itertools.product(cols, repeat=C):
            n += 1
            if n % case['parts'] != case['part']: continue
            A = [[c[r] for c in cc] for r in range(R)]
            for b in itertools.product(range(B + 1), repeat=R):
                v = judge(A, list(b), st, elim, NoSolution)
                if v: return v
        st.sample(dict(A=A, b=list(b)), 1)
    elif case['kind'] == 'big':
        R, C = case['R'], case['C']
        cols = list(itertools.product((0, 1), repeat=R))[1:]
        n = 0
        for cc in itertools.product(cols, repeat=C):
            for b in itertools.product(BIG, repeat=R):
                n += 1
                if n % case['parts'] != case['part'] or (C > 2 and max(b) > 129): continue
                v = judge([[c[r] for c in cc] for r in range(R)], list(b), st, elim, NoSolution, ('int16', 'int64')[n // case['parts'] % 2])
                if v: return v
                st.add('systems_beyond_7_bits')
    elif case['kind'] == 'wide':
        R, C = case['R'], case['C']
        cols = list(itertools.product((0, 1), repeat=R))[1:]
        pos = [0, 1, C - 2, C - 1]
        n = 0
        for base in cols:
            for sp in itertools.product(cols, repeat=4):
                n += 1
                if n % case['parts'] != case['part']: continue
                if R == 3 and n // case['parts'] % 5: continue        # every fifth arrangement of three rows
                cc = [base] * C
                for q, s in zip(pos, sp): cc[q] = s
                A = [[c[r] for c in cc] for r in range(R)]
                for b in itertools.product(range(case['b'] + 1), repeat=R):
                    st.add('systems_of_%s_columns' % ('64_and_more' if C >= 64 else 'less_than_64'))
                    v = judge(A, list(b), st, elim, NoSolution)
                    if v: return v
    else:
        import numpy as np
        p = tuple(case['p'])
        for bits, _ in lib.ref_levels(p)[0]:
            try: q = Question.from_matrix(lib.to_mat(bits, p[0]))
            except NoSolution: continue
            A, b = np.array(q.A).tolist(), np.array(q.b).tolist()
            if not A or not A[0]: continue
            v = judge(A, b, st, elim, NoSolution)
            if v: return dict(v, partial=bits)
            st.add('systems_of_reachable_questions')


def meta(tier, st):
    return dict(rule='all 0/1 systems without zero column up to the stated sizes with all right hand sides up to a bound; systems of up to 70 (126) unknowns whose columns are one base column but for the first and last two; '
                     'systems of two rows with right hand sides up to 300; sorting of systems up to 40 rows; a triangular system of 1100 equations (more reductions than calls nest); the systems of all reachable questions within the cost bound. Complete non-negative integer solution sets before and after are compared (interchangeable columns merged).')
