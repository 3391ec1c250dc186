import lib, search, steps
PROPERTY, LEVEL, LIMIT = 'C05', 'model_checking', 300


def groups(tier):
    small = []
    lim = 4.0 if tier == 'quick' else 400
    for v, k, l, u, cost, states, sols in lib.param_table():
        c = max(cost, 0.001) * v / 2
        if c <= lim and (v <= 32 or tier != 'quick'): small.append((c, dict(kind='all', p=[v, k, l, u])))
    g = lib.balance(small, 64)
    fam = [(c, dict(kind='family', name=n, rows=r)) for c, n, r in search.family_rows(tier)]
    g += lib.balance(fam, 48)
    n = 16 if tier == 'quick' else 64
    g += [(3, [dict(kind='deep', p=[28, 12, 6, 4], part=i, parts=n, rows=[20, 24, 27] if tier == 'quick' else [8, 10, 12, 14, 16, 18, 20, 22, 24, 25, 26, 27])]) for i in range(n)]
    return g


def resume(m):
    from srg import solver
    from srg.srg import SRG
    return [lib.bits_of(x) for x in solver.solve(SRG(m))]


def frozen(m):
    m = m.copy(); m.flags.writeable = False
    return m


# how a caller may hold the partial matrix; the stored solutions, for one, are of another element type than the search's own matrices
FORMS = [('as the search makes it', lambda m, np: m), ('int64', lambda m, np: m.astype('int64')), ('read-only', lambda m, np: frozen(m)), ('column by column', lambda m, np: np.asfortranarray(m)),
         ('part of a larger array', lambda m, np: np.repeat(np.repeat(m, 2, axis=0), 3, axis=1)[::2, 1::3]), ('int32', lambda m, np: m.astype('int32')), ('reversed view', lambda m, np: m[::-1, ::-1].copy()[::-1, ::-1])]


def judge(p, bits, want, st):
    import numpy as np
    name, form = FORMS[bits.count('1', 0, len(bits)) % 3 + (len(bits) // p[0]) % 5]
    m = form(lib.to_mat(bits, p[0]), np)
    keep = np.array(m)
    got = resume(m)
    st.distinct('input_forms', name)
    if not np.array_equal(m, keep): return dict(what='the partial matrix was changed', partial=bits, params=p, form=name)
    st.add('traces_validated_against_impl'); st.add('resumed_searches')
    if sorted(got) != sorted(want):
        return dict(what='resumed search yields %d results, the full search has %d with these rows' % (len(got), len(want)), partial=bits, params=p, form=name,
                    missing=sorted(set(want) - set(got))[:2], extra=sorted(set(got) - set(want))[:2])
    if want: st.add('resumed_with_results')


def completions(p, bits):
    todo, out, n = [bits], [], 0
    while todo:
        rows = lib.ref_rows(p, todo)
        n += len(todo)
        nxt = [b + r for b, rr in zip(todo, rows) for r in rr]
        out += [b for b in nxt if len(b) == p[0] ** 2]
        todo = [b for b in nxt if len(b) < p[0] ** 2]
    return out, n


def evaluate(case, st):
    if case['kind'] == 'family':
        import families
        A = families.canonical(families.catalogue()[case['name']]); p = families.params_of(A)
        for r in case['rows']:
            b = lib.bits_of(A[:r])
            want, n = completions(p, b)
            assert lib.bits_of(A) in want
            st.add('states', n); st.add('transitions', n - 1 + len(want)); st.distinct('distinct_partial_matrices', '%s %s' % (p, b))
            v = judge(p, b, want, st)
            if v: return v
        st.sample(dict(graph=case['name'], rows=case['rows']), 1)
        return
    p = tuple(case['p']); v = p[0]
    sols, states, trans = lib.ref_solve(p)
    if case['kind'] == 'deep':
        todo = sorted({s[:r * v] for s in sols for r in case['rows']})[case['part']::case['parts']]
    else:
        todo = [b for b, _ in lib.ref_levels(p)[0]]
    st.add('states', states if case['kind'] == 'all' else len(todo)); st.add('transitions', trans if case['kind'] == 'all' else len(todo))
    for b in todo:
        st.distinct('distinct_partial_matrices', '%s %s' % (p, b))
        x = judge(p, b, [s for s in sols if s.startswith(b)], st)
        if x: return x
    if sols: st.sample(dict(p=p, resumed_from=len(todo), solutions=len(sols)), 1)


def meta(tier, st):
    return dict(rule='for every parameter set within the cost bound the search is restarted from every reachable partial matrix; '
                     'prefixes of known graphs with up to 121 vertices and of all 161 solutions of (28,12,6,4) in addition; the partial matrices are given in seven element types (signed) and memory layouts in turn')
