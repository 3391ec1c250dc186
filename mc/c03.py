import lib, search
PROPERTY, LEVEL, LIMIT = 'C03', 'model_checking', 400


def groups(tier):
    # a parameter set without any graph says nothing here
    g = []
    cost = {tuple(x[:4]): (x[4], x[6]) for x in lib.param_table()}
    for c, p in search.search_params(tier):
        if c > 50 or p in cost and cost[p][1] == 0 and c > 0.05: continue
        g.append((c, dict(kind='search', p=list(p))))
    return lib.balance(g, 96) + search.resume_groups(tier)


def judge(p, got, st, head):
    """head: the rows the search was started from, as lists"""
    seen = {}
    v, k, l, u = p
    for i, m in enumerate(got):
        b = m.astype(int).tobytes() if m.dtype != object else repr(m.tolist())
        if b in seen: return dict(what='the same matrix is yielded twice', first=seen[b], second=i, params=p, matrix=m.tolist())
        seen[b] = i
        if m.shape != (v, v): return dict(what='wrong shape %s' % (m.shape,), params=p)
        e = lib.canonical_form_error(m)
        if e: return dict(what='not in canonical labelling: ' + e, params=p, matrix=m.tolist())
        if m[:len(head)].tolist() != head: return dict(what='does not begin with the start rows', params=p, matrix=m.tolist())
        st.distinct('distinct_matrices', str(p) + lib.bits_of(m))


def evaluate(case, st):
    if case['kind'] != 'search':
        for p, b, s in search.resumes(case):
            got, err = search.resume(p, b)
            st.add('resumed_searches'); st.add('states'); st.add('transitions', len(got)); st.add('traces_validated_against_impl', len(got))
            e = judge(p, got, st, lib.to_mat(b, p[0]).tolist())
            if e: return e
        return
    p = tuple(case['p'])
    got, err = search.solve(p)
    _, states, trans = search.reference(p)
    st.add('searches'); st.add('states', states); st.add('transitions', trans); st.add('traces_validated_against_impl', len(got))
    v, k, l, u = p
    r0 = [0] + [1] * k + [0] * (v - k - 1)
    r1 = [1, 0] + [1] * l + [0] * (k - 1 - l) + [1] * (k - l - 1)
    r1 += [0] * (v - len(r1))
    e = judge(p, got, st, [r0, r1])
    if e: return e
    if len(got) > 1: st.sample(dict(p=p, results=len(got)), 3); st.add('searches_with_several_results')


def meta(tier, st):
    return dict(rule='the complete result sequence of every search is compared pairwise and each result is checked against the definition of the canonical labelling; searches resumed near the end of known graphs as well')
