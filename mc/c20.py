"""Stored lists against the reference transition system explored to its end (all reachable complete matrices)."""
import lib, stored, search
PROPERTY, LEVEL, LIMIT = 'C20', 'model_checking', 800
# too many states for a quick run / at all (their files say that only the first solution is stored, or store none)
SLOW = {'problem_25_12_5_6': 96, 'problem_26_10_3_4': 23}
SECONDS = 500


def groups(tier):
    q = tier == 'quick'
    g = []
    for n in stored.names():
        if len(stored.numbers(n)) != 4: continue
        S = stored.solutions(n)
        if not S: g.append((30, [dict(problem=n, kind='empty')])); continue
        if stored.says_first_only(n):
            g.append((1, [dict(problem=n, kind='first')]))
            if not q: g.append((SLOW.get(n, 30), [dict(problem=n, kind='first', full=True)]))
        else:
            g.append((30, [dict(problem=n, kind='all')]))
            cost = {tuple(x[:4]): x[4] for x in lib.param_table()}.get(stored.numbers(n), 1e9)
            if cost <= (6 if q else 1e9): g.append((max(cost, 0.5) + 1, [dict(problem=n, kind='search')]))
    return g


def evaluate(case, st):
    name = case['problem']
    p = stored.numbers(name)
    S = [lib.bits_of(m) for m in stored.solutions(name)]
    kind = case['kind']
    st.add('problems')
    if kind == 'empty':
        # a graph from a textbook construction refutes an empty list at once
        import families
        for g, A in families.catalogue().items():
            if tuple(int(x) for x in families.params_of(A)) == p:
                C = families.canonical(A)
                if lib.is_srg(C, p) is None and lib.canonical_form_error(C) is None:
                    return dict(what='stored list is empty, but %s has these parameters' % g, problem=name, matrix=lib.bits_of(C))
    if kind == 'first' and not case.get('full'):
        # the stored matrices must be paths of the reference (C19 judges the matrices); at least one must be stored
        for b in S:
            v = p[0]
            for r, out in zip(range(2, v), lib.ref_rows(p, [b[:r * v] for r in range(2, v)], 400000)):
                st.add('transitions')
                if out is None: st.add('rows_beyond_cap')
                elif b[r * v:(r + 1) * v] not in out: return dict(what='a listed matrix is not found by a complete search', problem=name)
            st.add('states', v - 1); st.add('traces_validated_against_impl')
        return
    if kind == 'search':
        got, err = search.solve(p)
        if err is not None: raise err
        got = [lib.bits_of(m) for m in got]
        want, states, trans = set(got), len(got), 0
        st.add('lists_compared_with_the_real_search')
    else:
        try: sols, states, trans = lib.ref_solve(p, seconds=SECONDS)
        except lib.RefCapped: st.add('problems_beyond_cap'); return
        want = set(sols)
    st.add('states', states); st.add('transitions', trans); st.add('traces_validated_against_impl', len(S))
    miss = sorted(want - set(S)); more = sorted(set(S) - want)
    if kind == 'first':
        if not S and want: return dict(what='nothing is listed', problem=name)
    elif miss: return dict(what='stored list is %s: %d of %d solutions are missing' % ('empty' if not S else 'incomplete', len(miss), len(want)), problem=name, missing=miss[0])
    if more: return dict(what='%d stored matrices are not found by a complete search' % len(more), problem=name, first=more[0])
    st.sample(dict(problem=name, stored=len(S), reference=len(want)), 1)


def meta(tier, st):
    return dict(rule='for every stored problem the complete search space of the reference model (25_12_5_6 and 26_10_3_4, whose files say that only the first solution is listed: thorough tier only), and for cheap ones the real search',
                assumptions=['the reference model enumerates exactly the canonical labellings (bound to the code by C02, C04, C05)'])
