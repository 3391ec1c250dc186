import lib, search
PROPERTY, LEVEL, LIMIT = 'C06', 'model_checking', 400


def groups(tier):
    g = search.groups(tier)
    g += lib.balance([(0.01, dict(kind='search', p=list(p))) for p in search.degenerate_params(tier)], 8)
    # beyond the 16 bits that counts are stored in: a known finding, in a group of its own
    g += [(0.1, [dict(kind='search', p=[184, 182, 0, 32942])])]
    return g + search.resume_groups(tier)


def evaluate(case, st):
    if case['kind'] != 'search':
        for p, b, s in search.resumes(case):
            got, err = search.resume(p, b)
            st.add('resumed_searches'); st.add('states'); st.add('transitions', len(got))
            if err is not None: return dict(what='a resumed search ends with an error: ' + lib.exc_text(err), params=p, partial=b)
            st.add('traces_validated_against_impl')
        return
    p = tuple(case['p'])
    got, err = search.solve(p)
    st.add('searches')
    if err is not None: return dict(what='the search ends with an error: ' + lib.exc_text(err), yielded=len(got))
    st.add('traces_validated_against_impl')
    v, k, l, u = p
    if u <= k:
        sols, states, trans = search.reference(p)
    else: sols, states, trans = [], 1, 0
    st.add('states', states); st.add('transitions', trans)
    if not sols:
        st.add('searches_without_graph')
        if got: return dict(what='yields %d results although no graph exists' % len(got), matrix=got[0].tolist())
    st.sample(dict(p=p, ended='normally', results=len(got)), 1)


def meta(tier, st):
    return dict(rule='every search of the tier must end by itself, without an error, within %d s (each takes a few seconds at most); yields nothing where the reference finds no graph' % LIMIT)
