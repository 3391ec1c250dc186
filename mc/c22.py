"""All small labelled graphs, all strongly regular graphs at hand, all parameter quadruples of a box."""
import itertools
import lib, graphs, stored
PROPERTY, LEVEL, LIMIT = 'C22', 'exploration', 700


def groups(tier):
    q = tier == 'quick'
    g = [(0.1, [dict(kind='all', n=n, part=0, parts=1) for n in (1, 2, 3, 4)]), (1, [dict(kind='all', n=5, part=0, parts=1)])]
    g += [(4, [dict(kind='all', n=6, part=i, parts=8)]) for i in range(8)]
    if not q: g += [(60, [dict(kind='all', n=7, part=i, parts=64)]) for i in range(64)]
    g += [(3, [dict(kind='stored', problem=n)]) for n in stored.names()]
    g += [(6, [dict(kind='catalogue', part=i, parts=8)]) for i in range(8)]
    g += [(4, [dict(kind='large', graph=x)]) for x in LARGE]
    lim = 0.3 if q else 5
    P = [(c, x) for *x, c, states, sols in lib.param_table() if c <= lim and sols]
    g += lib.balance([(c + 0.1, dict(kind='reference', p=x)) for c, x in P], 24)
    g += [(4, [dict(kind='parameters', part=i, parts=4, hi=24 if q else 60)]) for i in range(4)]
    return g


# more vertices than 7, 8 bits count; (family, arguments)
LARGE = [('cliques', 1, 130), ('cliques', 65, 2), ('multipartite', 2, 64), ('multipartite', 3, 43), ('multipartite', 128, 2), ('cliques', 2, 129), ('triangular', 17), ('triangular', 24), ('lattice', 12), ('lattice', 17), ('cliques', 20, 26), ('multipartite', 5, 103)]


def judge(A, st, p=None):
    import numpy as np
    from srg import utils
    n = len(A)
    keep = A.copy()
    got = np.asarray(utils.complement(A))
    st.add('evaluations')
    if not np.array_equal(A, keep): return dict(what='the input was changed', matrix=keep.tolist())
    want = 1 - keep.astype(int); np.fill_diagonal(want, 0)
    if got.shape != (n, n) or not np.array_equal(got, want): return dict(what='complement is wrong', matrix=keep.tolist(), got=got.tolist())
    back = np.asarray(utils.complement(got))
    if not np.array_equal(back, keep): return dict(what='complementing twice does not restore the graph', matrix=keep.tolist(), got=back.tolist())
    if p:
        cp = tuple(int(x) for x in utils.complement_vklu(*p))
        e = lib.is_srg(got, cp) if 0 < cp[1] < cp[0] - 1 else None
        if e: return dict(what='complement of a graph with parameters %s does not have the computed parameters %s: %s' % (p, cp, e))
        st.add('distinct_nontrivial')


def evaluate(case, st):
    import numpy as np
    kind = case['kind']
    if kind == 'all':
        n = case['n']
        for m in range(case['part'], 1 << (n * (n - 1) // 2), case['parts']):
            v = judge(graphs.typed(graphs.matrix(m, n), m // case['parts']), st)
            if v: return v
        st.add('distinct_nontrivial', (1 << (n * (n - 1) // 2)) // case['parts'])
        st.sample(dict(n=n, matrix=m), 1)
    elif kind == 'stored':
        for A in stored.solutions(case['problem']):
            v = judge(np.array(A), st, stored.numbers(case['problem']))
            if v: return v
    elif kind == 'large':
        import families
        name, *a = case['graph']
        A = getattr(families, name)(*a)
        p = (len(A), len(A) - 1, len(A) - 2, 0) if A.sum() == len(A) * (len(A) - 1) else tuple(int(x) for x in families.params_of(A))
        for B in (A.astype(lib.repo_dtype()), np.asfortranarray(A.astype('int64')), np.repeat(A, 2, axis=1)[:, ::2]):
            v = judge(B, st, p)
            if v: return v
    elif kind == 'catalogue':
        import families
        for i, (name, A) in enumerate(families.catalogue().items()):
            if i % case['parts'] != case['part']: continue
            v = judge(A.astype(lib.repo_dtype()), st, tuple(int(x) for x in families.params_of(A)))
            if v: return v
    elif kind == 'reference':
        p = tuple(case['p'])
        for b in lib.ref_solve(p)[0]:
            v = judge(lib.to_mat(b, p[0]), st, p)
            if v: return v
    else:
        from srg import utils
        for v in range(case['part'], case['hi'], case['parts']):
            for k, l, u in itertools.product(range(0, v + 1), range(-1, v + 1, 1 if v < 24 else 3), range(-1, v + 1, 1 if v < 24 else 5)):
                p = (v, k, l, u)
                c = utils.complement_vklu(*p)
                st.add('parameter_sets')
                if tuple(utils.complement_vklu(*c)) != p: return dict(what='complementing parameters %s twice gives %s' % (p, tuple(utils.complement_vklu(*c))))
                if ((v - k - 1) * u == k * (k - l - 1)) != ((c[0] - c[1] - 1) * c[3] == c[1] * (c[1] - c[2] - 1)): return dict(what='of parameters %s and their complement %s only one set is accepted' % (p, tuple(c)))
        import c23
        for i, p in enumerate(itertools.chain(lib.accepted(24, 128), (x for x, _ in c23.huge_families()))):
            if i % case['parts'] == case['part']:
                st.add('parameter_sets')
                c = utils.complement_vklu(*p)
                if tuple(utils.complement_vklu(*c)) != p: return dict(what='complementing parameters %s twice gives %s' % (p, tuple(utils.complement_vklu(*c))))


def meta(tier, st):
    return dict(rule='all graphs of at most 6 (7) vertices in eight element types in turn, every stored solution, %d textbook graphs, every solution of the cheap parameter sets; all parameter quadruples with v<24 (60, thinned) all accepted ones with v<128 and members of infinite families with counts of 16 to 70 bits; non-trivial: distinct graphs' % 150)
