import lib, search
PROPERTY, LEVEL, LIMIT = 'C01', 'model_checking', 400


def groups(tier):
    g = search.groups(tier)
    d = search.degenerate_params(tier)
    g += lib.balance([(0.01, dict(kind='search', p=list(p))) for p in d], 8)
    return g + search.resume_groups(tier)


def evaluate(case, st):
    if case['kind'] != 'search':
        for p, b, s in search.resumes(case):
            got, err = search.resume(p, b)
            if err is not None: st.note('%s resumed ended with %s (judged by C06)' % (p, lib.exc_text(err)))
            st.add('resumed_searches'); st.add('states'); st.add('transitions', len(got)); st.add('traces_validated_against_impl', len(got)); st.add('matrices_judged', len(got))
            for m in got:
                e = lib.is_srg(m, p)
                if e: return dict(what='matrix yielded by a resumed search is not strongly regular: ' + e, params=p, partial=b, matrix=m.tolist())
                st.distinct('distinct_matrices', m.tobytes())
        return
    p = tuple(case['p'])
    got, err = search.solve(p)
    if err is not None: st.note('%s ended with %s (judged by C06)' % (p, lib.exc_text(err)))
    st.add('searches'); st.add('traces_validated_against_impl', len(got)); st.add('matrices_judged', len(got))
    if p[3] <= p[1]:
        sols, states, trans = search.reference(p)
        st.add('states', states); st.add('transitions', trans)
        if not sols: st.add('parameter_sets_without_graph')
    else:
        st.add('parameter_sets_without_graph'); st.add('states', 1)
    for i, m in enumerate(got):
        e = lib.is_srg(m, p)
        if e: return dict(what='yielded matrix is not strongly regular: ' + e, index=i, matrix=m.tolist())
        st.distinct('distinct_matrices', m.tobytes())
    if got: st.sample(dict(p=p, first=lib.bits_of(got[0])), 2)


def meta(tier, st):
    return dict(rule='the search is run to its end on every accepted parameter set of the tier (v<=65 up to a fixed cost bound, cliques/multipartite beyond 64 vertices, sets with u>k); '
                'searches resumed near the end of known graphs with up to 121 vertices and of all solutions of (28,12,6,4); every yielded matrix is judged by the definition', assumptions=['cost bound of the tier: mc/params.json', 'numpy integer products are correct'])
