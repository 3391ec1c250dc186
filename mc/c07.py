"""Exhaustive fault injection on results: at every point where a caller holds a result it overwrites it, in every subset of positions."""
import itertools
import lib, search, steps
PROPERTY, LEVEL, LIMIT = 'C07', 'model_checking', 300


def groups(tier):
    q = tier == 'quick'
    a, b = [], []
    for v, k, l, u, cost, states, sols in lib.param_table():
        if cost <= (1.0 if q else 6) and sols >= 1:
            n = len(plans(sols))
            a.append((max(cost, 0.005) * (n + 1), dict(kind='search', p=[v, k, l, u])))
        if cost <= (0.25 if q else 3) and v <= (22 if q else 40):
            b.append((max(cost, 0.005) * 3, dict(kind='step', p=[v, k, l, u])))
    return lib.balance(a, 48) + lib.balance(b, 32)


def plans(n):
    """which results the caller overwrites as soon as it gets them"""
    if n <= 3: return [c for r in range(n + 1) for c in itertools.combinations(range(n), r)]
    return [()] + [(i,) for i in range(min(n, 6))] + [tuple(range(n)), tuple(range(0, n, 2))]


def scribble(x):
    """overwrite every entry; a read-only result cannot be written by a caller at all"""
    try: x[...] = 1 - x
    except (ValueError, TypeError): return False
    return True


def evaluate(case, st):
    import numpy as np
    from srg import solver
    from srg.srg import SRG
    p = tuple(case['p'])
    if case['kind'] == 'search':
        sols, states, trans = lib.ref_solve(p)
        st.add('states', states); st.add('transitions', trans)
        for plan in plans(len(sols)):
            m = solver._seed(*p); before = m.copy()
            seen, held = [], []
            for i, r in enumerate(solver.solve(SRG(m))):
                seen.append(lib.bits_of(r)); held.append((r, i in plan))
                if i in plan: scribble(r)
                if len(seen) > len(sols): break
            st.add('traces_validated_against_impl'); st.add('results_overwritten', len(plan))
            if not np.array_equal(m, before): return dict(what='the start matrix was changed', plan=plan)
            if sorted(seen) != sorted(sols): return dict(what='results that follow depend on what the caller wrote into earlier ones', plan=plan, got=seen[:3], expected=sols[:3])
            for (r, over), b in zip(held, seen):
                if not over and lib.bits_of(r) != b: return dict(what='a result already yielded was changed later', plan=plan, was=b)
        s = SRG(solver._seed(*p)); first = []      # the same search object again: once with the first results overwritten, once not
        for over in (True, False):
            first = [r for r, _ in zip(solver.solve(s), range(len(sols) + 1))]
            if over: first = [r for r in first if scribble(r)]
            was = [r.copy() for r in first]
            again = [r for r, _ in zip(solver.solve(s), range(len(sols) + 1))]
            if sorted(map(lib.bits_of, again)) != sorted(sols): return dict(what='searching again from the same object gives other results', overwritten=over)
            for r in again: scribble(r)
            if any(not np.array_equal(x, y) for x, y in zip(first, was)): return dict(what='searching again from the same object, or writing into its results, changes a result of the first search', overwritten=over)
            st.add('traces_validated_against_impl')
        st.sample(dict(p=p, results=len(sols), plans=len(plans(len(sols)))), 1)
        return
    todo, _ = lib.ref_levels(p)
    try: advance = lib.seam('srg.solver', 'advance')
    except lib.SeamMissing as e: advance = None; st.note('skipped: %s' % e)
    for b, want in todo:
        st.add('states'); st.add('transitions', len(want))
        head = lib.to_mat(b, p[0]); R = len(head)
        if advance:
            m = head.copy(); s = SRG(m)
            kids = list(advance(s))
            mats = [x.current_matrix for x in kids]
            st.add('traces_validated_against_impl')
            if not np.array_equal(m, head) or not np.array_equal(s.current_matrix, head): return dict(what='stepping changed the matrix it was given', partial=b)
            expect = [lib.bits_of(x) for x in mats]
            if sorted(expect) != sorted(b + w for w in want): return dict(what='stepping offers other rows than the admissible ones', partial=b)
            for i in range(len(mats)):
                keep = mats[i].copy()
                if scribble(mats[i]):
                    st.add('results_overwritten')
                    if not np.array_equal(m, head): return dict(what='writing into a stepped matrix changes the one it came from', partial=b)
                    for j in range(len(mats)):
                        if j != i and lib.bits_of(mats[j]) != expect[j]: return dict(what='writing into a stepped matrix changes another one', partial=b)
                    mats[i][...] = keep
            if kids:      # stepping the same object again, with all (none) of the earlier matrices overwritten
                for over in (True, False):
                    first = [x.current_matrix for x in advance(s)]
                    if over: first = [x for x in first if scribble(x)]
                    was = [x.copy() for x in first]
                    again = [x.current_matrix for x in advance(s)]
                    if sorted(map(lib.bits_of, again)) != sorted(expect): return dict(what='stepping a second time gives other rows', partial=b, overwritten=over)
                    for x in again: scribble(x)
                    if any(not np.array_equal(x, y) for x, y in zip(first, was)): return dict(what='stepping a second time, or writing into what it gives, changes a matrix that was stepped to before', partial=b, overwritten=over)
                    if not np.array_equal(s.current_matrix, head): return dict(what='stepping a second time changed the matrix it was given', partial=b)
        # rows of a suspended row search
        from srg.srg import Question, NoSolution
        for plan in plans(len(want)):
            m = head.copy()
            try: q = Question.from_matrix(m)
            except NoSolution: break
            if not np.array_equal(m, head): return dict(what='building the question changed the matrix', partial=b)
            seen, held = [], []
            for i, r in enumerate(solver.solve_question(q)):
                seen.append(lib.bits_of(r)); held.append((r, i in plan))
                if i in plan: scribble(r); st.add('results_overwritten')
                if len(seen) > len(want): break
            st.add('traces_validated_against_impl')
            if not np.array_equal(m, head): return dict(what='solving the question (or writing into its rows) changed the matrix', partial=b, plan=plan)
            if sorted(seen) != sorted(w[R + 1:] for w in want): return dict(what='rows that follow depend on what the caller wrote into earlier ones', partial=b, plan=plan)
            for (r, over), x in zip(held, seen):
                if not over and lib.bits_of(r) != x: return dict(what='a row already yielded was changed later', partial=b, plan=plan)


def meta(tier, st):
    return dict(rule='for every search with results and every reachable partial matrix within the cost bound: all subsets of the (first) results are overwritten by the caller as they are yielded; '
                     'results, inputs and held results are compared with the reference')
