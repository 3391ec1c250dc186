"""Search, maximizing and complement together: explicit-state search over relabellings of results, closed under the search's own result set."""
import lib, graphs, search
PROPERTY, LEVEL, LIMIT = 'C29', 'model_checking', 700
MODEL = [(28, 12, 6, 4), (21, 10, 5, 4), (27, 10, 1, 5), (25, 16, 9, 12), (36, 21, 10, 15), (49, 12, 5, 2)]    # results taken from the reference model


def groups(tier):
    q = tier == 'quick'
    lim = 0.5 if q else 6
    T = {tuple(x[:4]): x for x in lib.param_table()}
    g = []
    for p, x in sorted(T.items()):
        if not x[6] or x[4] > lim: continue
        v, k, l, u = p
        cp = (v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l)
        g.append((x[4] + 0.1 * x[6] + (v / 30) ** 3, dict(kind='start', p=list(p))))
        if 1 <= cp[1] <= v - 2 and (cp in T and T[cp][4] <= lim): g.append((x[4] + T[cp][4] + 0.05 * x[6], dict(kind='complement', p=list(p))))
    g = lib.balance(g, 64)
    for p, x in sorted(T.items()):
        if not x[6] or p[0] > (10 if q else 11): continue
        n = 1 if p[0] < 9 else 4 if q else 16
        for i in range(n): g.append((2 if p[0] < 9 else 8, [dict(kind='orbit', p=list(p), cap=8000 if q else 60000, part=i, parts=n)]))
    for p in MODEL:
        n = 8
        for i in range(n): g.append((5, [dict(kind='model', p=list(p), part=i, parts=n, step=12 if q else 1)]))
    return g


def maximize(A):
    import numpy as np
    from srg import sorter
    return lib.bits_of(np.asarray(sorter.maximize(A)))


def results(p):
    got, err = search.solve(p)
    if err is not None: raise err
    return got, {lib.bits_of(m) for m in got}


def member(A, have, p, st, what, **more):
    b = lib.bits_of(A)
    m = maximize(A)
    st.add('states'); st.add('transitions'); st.add('traces_validated_against_impl')
    st.distinct('distinct_relabellings', b)
    if m not in have: return dict(what='%s, maximized, is not among the %d results for %s' % (what, len(have), p), matrix=b, maximized=m, **more)


def from_edge(A, x, y, back):
    import numpy as np
    n = len(A)
    q = [x, y] + [z for z in (range(n)[::-1] if back else range(n)) if z not in (x, y)]
    return np.ascontiguousarray(A[np.ix_(q, q)])


def evaluate(case, st):
    import numpy as np
    p = tuple(case['p']); v = p[0]
    if case['kind'] == 'model':
        R = [lib.to_mat(b, v) for b in lib.ref_solve(p)[0]]
        have = {lib.bits_of(m) for m in R}
    else: R, have = results(p)
    st.add('results', len(R))
    if case['kind'] == 'orbit':
        seen = set()
        for A in R:
            if graphs.mask(A) in seen: continue
            orb, t, capped = graphs.orbit(np.asarray(A).tolist(), False, case['cap'])
            if capped: st.add('orbits_beyond_cap')
            seen |= set(orb)
            st.add('transitions', t)
            for m in orb[case['part']::case['parts']]:
                e = member(graphs.matrix(m, v, lib.repo_dtype()), have, p, st, 'a relabelling of a result')
                if e: return e
        st.sample(dict(p=p, labellings=len(seen)), 1)
    elif case['kind'] in ('start', 'model'):
        edges = lambda A: [(x, y) for x in range(v) for y in range(v) if A[x][y]]
        n = 0
        for A in R[:40] if case['kind'] == 'start' else R:
            A = np.asarray(A)
            E = edges(A)
            step = max(1, len(E) // (60 if v <= 30 else 12)) if case['kind'] == 'start' else case['step'] * max(1, len(E) // 330)
            for x, y in E[::step]:
                n += 1
                if n % case.get('parts', 1) != case.get('part', 0): continue
                e = member(from_edge(A, x, y, n & 2), have, p, st, 'a relabelling of a result')
                if e: return e
        st.sample(dict(p=p, results=len(R), relabellings=n), 1)
    else:
        from srg import utils
        cp = tuple(int(x) for x in utils.complement_vklu(*p))
        _, other = results(cp)
        st.add('complementary_pairs')
        if bool(have) != bool(other): return dict(what='%d results for %s but %d for the complementary parameters %s' % (len(have), p, len(other), cp))
        for A in R[:40]:
            B = np.asarray(utils.complement(np.array(A)))
            for first in range(0, v, max(1, v // 6)):
                q = [first] + [z for z in range(v) if z != first]
                e = member(np.ascontiguousarray(B[np.ix_(q, q)]), other, cp, st, 'the complement of a result for %s' % (p,))
                if e: return e


def meta(tier, st):
    return dict(rule='all relabellings (orbit search over transpositions, capped) of the results for parameter sets with at most 10 vertices, relabellings from every edge or a thinned set of edges of all results within the cost bound, complements of results; '
                     'each is maximized and looked up among the results of the search')
