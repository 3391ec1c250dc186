import lib, search
PROPERTY, LEVEL, LIMIT = 'C02', 'model_checking', 400


def groups(tier):
    import c04
    return search.groups(tier) + search.resume_groups(tier) + [(s + 0.1, [dict(kind='path', name=n, rows=r)]) for n, r, s in c04.prefixes(tier)]


def known(case, st):
    """graphs too large for a complete search: the search must keep to the path of a known graph"""
    if case['kind'] == 'path':
        import families, steps
        A = families.canonical(families.catalogue()[case['name']]); p = tuple(int(x) for x in families.params_of(A))
        for r in case['rows']:
            st.add('states'); st.add('transitions'); st.add('traces_validated_against_impl'); st.add('path_steps')
            if lib.bits_of(A[r]) not in steps.rows(lib.to_mat(lib.bits_of(A[:r]), p[0])):
                return dict(what='the row of a known graph is not among the rows offered', graph=case['name'], params=p, partial=lib.bits_of(A[:r]), missing=lib.bits_of(A[r]))
        st.distinct('canonical_graphs', lib.bits_of(A))
        return
    for p, b, s in search.resumes(case):
        got, err = search.resume(p, b)
        st.add('resumed_searches'); st.add('states'); st.add('transitions', len(got)); st.add('traces_validated_against_impl')
        st.distinct('canonical_graphs', s)
        have = set()
        for m in got:
            try: have.add(lib.bits_of(m))
            except lib.BadResult: pass
        if s not in have: return dict(what='a known strongly regular graph is not yielded by the search resumed from its first rows', params=p, partial=b, missing=s, ended_with=lib.exc_text(err) if err else None)


def evaluate(case, st):
    if case['kind'] != 'search': return known(case, st)
    p = tuple(case['p'])
    sols, states, trans = search.reference(p)
    got, err = search.solve(p)
    st.add('searches'); st.add('states', states); st.add('transitions', trans); st.add('traces_validated_against_impl', len(sols))
    have = set()
    for m in got:
        try: have.add(lib.bits_of(m))
        except lib.BadResult: pass
    for s in sols:
        st.distinct('canonical_graphs', s)
        if s not in have:
            return dict(what='a strongly regular graph in canonical labelling is not yielded', missing=s, yielded=len(got), expected=len(sols), ended_with=lib.exc_text(err) if err else None)
    if sols: st.sample(dict(p=p, graphs=len(sols), first=sols[0]), 2)


def meta(tier, st):
    return dict(rule='the reference model enumerates every canonical matrix of the parameter set by explicit-state search; each must be yielded by the implementation; '
                'for known graphs with up to 121 vertices every step along their path, and the searches resumed near its end')
