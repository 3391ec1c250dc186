import os
import lib, graphs
PROPERTY, LEVEL, LIMIT = 'C18', 'exploration', 600


def groups(tier):
    q = tier == 'quick'
    g = [(0.1, [dict(kind='all', n=n, part=0, parts=1)]) for n in (1, 2, 3, 4)]
    g += [(2, [dict(kind='all', n=5, part=i, parts=4)]) for i in range(4)]
    g += [(8, [dict(kind='all', n=6, part=i, parts=16, step=8 if q else 1)]) for i in range(16)]
    if not q: g += [(60, [dict(kind='all', n=7, part=i, parts=64, step=4)]) for i in range(64)]
    for name in ('Petersen', 'L2(4)', 'Paley(13)', 'T(8)', 'Paley(29)', 'HoffmanSingleton', 'L2(8)', 'T(12)'): g += [(2, [dict(kind='named', name=name)])]
    for a in (('triangular', 17), ('cliques', 2, 129), ('multipartite', 130, 2)): g += [(6, [dict(kind='large', graph=a)])]
    return g


def judge(A, i, j, st):
    import numpy as np
    from srg import sorter
    n = len(A)
    t = i * 7 + j * 3 + int(A.sum()) // 2
    if t % 3 == 0: A = graphs.typed(A, t // 3)
    q = list(range(n)); q[i], q[j] = q[j], q[i]
    want = A[np.ix_(q, q)]
    for name in ('swap', 'swap_and_verify'):
        f = lib.seam('srg.sorter', name)
        m = A.copy()
        got = f(m, i, j)
        st.add('evaluations')
        if not np.array_equal(m, A): return dict(what='%s changed its input' % name, matrix=A.tolist(), i=i, j=j)
        if np.asarray(got).shape != A.shape or not np.array_equal(got, want): return dict(what='%s is not the exchange of two names' % name, matrix=A.tolist(), i=i, j=j, got=np.asarray(got).tolist())
        if not np.array_equal(f(got, i, j), A): return dict(what='%s twice does not restore the graph' % name, matrix=A.tolist(), i=i, j=j)
    st.add('distinct_nontrivial', int(not np.array_equal(want, A)))


def evaluate(case, st):
    if case['kind'] == 'all':
        n = case['n']
        for m in range(case['part'], 1 << (n * (n - 1) // 2), case['parts'] * case.get('step', 1)):
            A = graphs.matrix(m, n)
            for i in range(n):
                for j in range(n):
                    v = judge(A, i, j, st)
                    if v: return v
        st.sample(dict(n=n, matrix=m), 1)
    elif case['kind'] == 'large':          # more vertices than 7, 8 bits count: pairs around those limits, and a thinned rest
        import families
        name, *a = case['graph']
        A = getattr(families, name)(*a); n = len(A)
        special = [x for x in (0, 1, 2, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1) if x < n]
        for i, j in sorted({(i, j) for i in special for j in special} | {(i, (i * 37 + 11) % n) for i in range(n)}):
            v = judge(A, i, j, st)
            if v: return v
    else:
        import families
        A = families.catalogue()[case['name']]
        for i in range(len(A)):
            for j in range(len(A)):
                v = judge(A, i, j, st)
                if v: return v


def meta(tier, st):
    return dict(rule='all graphs of at most 5 vertices (6: every eighth / all; 7: thorough only, every fourth) and 8 strongly regular graphs, all ordered pairs of vertices; three graphs of 136 to 260 vertices, some hundred pairs; every third matrix in one of eight element types, in turn; non-trivial: the swap changes the matrix')
