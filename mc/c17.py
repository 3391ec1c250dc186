import itertools, os
import lib, graphs
PROPERTY, LEVEL, LIMIT = 'C17', 'exploration', 600


def groups(tier):
    q = tier == 'quick'
    g = []
    for n, L in [(1, 3), (2, 5), (3, 4), (4, 2)]:
        for k in range(0, L + 1): g += [(8 ** k / 4096 if n == 3 else 1, [dict(kind='lists', n=n, length=k, part=0, parts=1)])]
    g += [(10, [dict(kind='lists', n=4, length=3, part=i, parts=8, step=4 if q else 1)]) for i in range(8)]
    if not q: g += [(60, [dict(kind='lists', n=3, length=5, part=i, parts=8)]) for i in range(8)]
    if not q: g += [(60, [dict(kind='lists', n=3, length=6, part=i, parts=16)]) for i in range(16)] + [(60, [dict(kind='lists', n=4, length=4, part=i, parts=64, step=16)]) for i in range(64)]
    g += [(3, [dict(kind='pairs', n=5, part=i, parts=8, step=3 if q else 1)]) for i in range(8)]
    g += [(2, [dict(kind='permutations', name=x)]) for x in ('C5', 'mixed4', 'mixed6', 'L2(3)', 'T(5)', 'K66', 'Paley(13)', 'edge40', 'edge130', 'edge260')]
    g += [(8, [dict(kind='many', n=n, times=t, order=o)]) for n, t in ((5, 3), (3, 260)) for o in ('ascending', 'descending', 'equal', 'mixed')]
    for prob in sorted(os.listdir(os.path.join(lib.REPO, 'srg', 'database'))):
        if prob.startswith('problem_') and prob.endswith('.py'): g += [(3, [dict(kind='stored', name=prob[:-3])])]
    return g


FORMS = {'list': list, 'tuple': tuple, 'iterator': iter, 'generator': lambda l: (x for x in l)}


def judge(mats, st, form='list'):
    import numpy as np
    from srg import sorter
    t = len(mats) + int(sum(m.sum() for m in mats)) // 2
    if t % 3 == 0: mats = [graphs.typed(m, t // 3) for m in mats]; st.distinct('element_types', str(t // 3 % 8))
    keep = [m.copy() for m in mats]
    arg = FORMS[form](mats)
    before = list(map(id, mats))
    got = sorter.sort(arg)
    st.add('evaluations')
    if not isinstance(got, list): return dict(what='the result is a %s' % type(got).__name__)
    codes = [lib.upper(m.tolist()) for m in got]
    want = sorted(lib.upper(m.tolist()) for m in keep)
    if codes != want:
        return dict(what='not ascending' if sorted(codes) == want else 'other matrices than given', given=[lib.bits_of(m) for m in keep][:6], got=codes[:6], form=form)
    if any(not np.array_equal(a, b) for a, b in zip(mats, keep)) or list(map(id, mats)) != before: return dict(what='the input was changed', given=[lib.bits_of(m) for m in keep][:6])
    for m, c in zip(got, codes):
        if graphs.is_graph(m, len(mats[0])): return dict(what='a result is no adjacency matrix')


def evaluate(case, st):
    import numpy as np
    if case['kind'] == 'lists':
        n, L = case['n'], case['length']
        G = [graphs.matrix(m, n) for m in range(1 << (n * (n - 1) // 2))]
        names = list(FORMS)
        for i, idx in enumerate(itertools.product(range(len(G)), repeat=L)):
            if i % case['parts'] != case['part'] or (i // case['parts']) % case.get('step', 1): continue
            for form in (names if L <= 2 else names[(i // case['parts']) % 4:][:1]):
                v = judge([G[x] for x in idx], st, form)
                if v: return v
            if len(set(idx)) > 1: st.add('distinct_nontrivial')
        st.sample(dict(n=n, length=L), 1)
    elif case['kind'] == 'pairs':
        n = case['n']
        N = 1 << (n * (n - 1) // 2)
        G = [graphs.matrix(m, n, 'int64') for m in range(N)]
        for a in range(case['part'], N, case['parts'] * case['step']):
            for b in range(0, N, 7):
                v = judge([G[a], G[b]], st)
                if v: return v
                st.add('distinct_nontrivial', a != b)
    elif case['kind'] == 'many':           # more matrices than the interpreter nests calls
        n = case['n']; N = 1 << (n * (n - 1) // 2); L = N * case['times']
        ix = {'ascending': lambda i: i // case['times'], 'descending': lambda i: N - 1 - i // case['times'], 'equal': lambda i: N // 3, 'mixed': lambda i: i * 389 % N}[case['order']]
        l = sorted((graphs.matrix(ix(i), n) for i in range(L)), key=lambda m: lib.upper(m.tolist()), reverse=case['order'] == 'descending') if case['order'] in ('ascending', 'descending') else [graphs.matrix(ix(i), n) for i in range(L)]
        st.add('lists_of_1000_and_more'); st.add('distinct_nontrivial')
        return judge(l, st)
    elif case['kind'] == 'permutations':
        import families
        name = case['name']
        if name.startswith('mixed'): n = int(name[5:]); base = [graphs.matrix(m, n) for m in (0, 1, 2, 5, (1 << n) - 1, 1 << (n * (n - 1) // 2 - 1))]
        elif name == 'K66': base = [graphs.matrix((1 << 66) - 1 ^ (1 << b), 12) for b in (0, 10, 33, 62, 63, 65)]     # differ in one late bit
        elif name.startswith('edge'):      # large graphs that differ in one edge, at places where numbers of 7 or 8 bits end
            n = int(name[4:]); A = families.multipartite(n // 2, 2) if n > 100 else families.cliques(n // 5, 5); base = []
            for i, j in ((0, n - 1), (n // 2, n - 2), (n - 2, n - 1), (min(126, n - 4), min(128, n - 3)))[:4 if n < 200 else 3] + ((0, 2),):
                B = A.copy(); B[i, j] = B[j, i] = 1 - B[i, j]; base.append(B)
        else:
            A = families.from_pred(list(range(5)), lambda a, b: (a - b) % 5 in (1, 4)) if name == 'C5' else families.catalogue()[name]
            n = len(A); base = []
            for i in range(6):
                q = list(range(n)); j = 1 + i % (n - 1); q[0], q[j] = q[j], q[0]; base.append(np.ascontiguousarray(A[np.ix_(q, q)]))
        for q in itertools.permutations(range(len(base))):
            v = judge([base[x] for x in q], st, list(FORMS)[sum(q[:2]) % 4])
            if v: return v
            st.add('distinct_nontrivial')
    else:
        from srg import database
        S = [np.array(m) for m in database.get_solutions(*database.extract_vklu(case['name']))]
        if not S: return
        for form in FORMS:
            for l in (S, S[::-1], S[len(S) // 2:] + S[:len(S) // 2], S[::2] + S[1::2], S + S[:2]):
                v = judge(l, st, form)
                if v: return v
                st.add('distinct_nontrivial', len(l) > 1)


def meta(tier, st):
    return dict(rule='all lists up to length 5 / 4 / 3 (thorough: 6 for 3 vertices, every 16th of length 4 for 4 vertices) of all graphs on 2 / 3 / 4 vertices in four kinds of iterables, pairs of graphs on 5 vertices, all orders of six larger graphs and of four or five with 40, 130 and 260 vertices that differ in one edge, stored lists reordered, lists of 2080 and 3072 matrices; '
                     'every third list in one of eight element types, in turn; non-trivial: at least two different matrices')
