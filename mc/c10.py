"""Bounded-exhaustive: every small question against every other one, and every single write to a copy."""
import itertools
import lib, steps
PROPERTY, LEVEL, LIMIT = 'C10', 'model_checking', 300


def groups(tier):
    q = tier == 'quick'
    g = [(5, [dict(kind='pairs', part=i, parts=16, big=True)]) for i in range(16)]
    reach = []
    for v, k, l, u, cost, states, sols in lib.param_table():
        if cost <= (0.15 if q else 2) and v <= (17 if q else 30): reach.append((max(cost, 0.01) * 4, dict(kind='reach', p=[v, k, l, u])))
    return g + lib.balance(reach, 24)


def small(big):
    """(A, b, quota, bounds, answer value, answer location, answer length)"""
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (1, 0)] + ([(2, 2)] if big else [])
    for R, C in shapes:
        answers = [([-1] * C, list(range(C)), C), ([-1] * C + [1], list(range(C + 1)), C + 1), ([-1] * C + [0], list(range(C + 1)), C + 1),
                   ([-1] * C + [1], list(range(C + 1)), C + 2), ([0] + [-1] * C, [0] + list(range(2, C + 2)), C + 2)]
        for A in itertools.product((0, 1), repeat=R * C):
            for b in itertools.product((0, 1), repeat=R):
                for quota in (0, 1):
                    for bd in itertools.product((0, 1), repeat=C) if not (R, C) == (2, 2) else [(0,) * C, (1,) * C]:
                        for a in answers[:2] if (R, C) == (2, 2) else answers: out.append(((R, C), A, b, quota, bd, a))
    return out


def build(x):
    import numpy as np
    from srg.srg import Question, Answer
    (R, C), A, b, quota, bd, (av, al, n) = x
    i8 = lambda y: np.array(y, dtype=np.int8)
    return Question(i8(A).reshape(R, C), i8(b), quota, i8(bd), ans=Answer(value=i8(av), location=np.array(al, dtype=int), len=n))


def arrays(q):
    """the arrays a question is made of: name -> array"""
    a = q.answer
    d = dict(A=q.A, b=q.b, bounds=q.bounds)
    for n in ('_v', '_loc'):
        if hasattr(a, n): d['answer.' + n] = getattr(a, n)
    return d


def parts(q):
    """values of all visible parts"""
    a = q.answer
    d = {n: (x.shape, tuple(x.ravel().tolist())) for n, x in arrays(q).items()}
    d['quota'] = int(q.quota)
    d['answer'] = (len(a), tuple(a.quota.tolist()), tuple(a.unknown_loc.tolist()))
    return d


def isolated(make, st):
    """a copy equals its original; no write to one is seen in the other"""
    q = make(); c = q.copy()
    if not (q == c) or not (c == q) or q != c: return dict(what='a copy differs from its original', question=str(parts(q)))
    if parts(c) != parts(q): return dict(what='a copy has other values than its original', question=str(parts(q)))
    if not (q.answer.copy() == q.answer): return dict(what='a copy of an answer differs from it')
    for name in arrays(q):
        n = arrays(q)[name].size
        for i in range(n):
            for which in (0, 1):
                q = make(); c = q.copy(); x, y = (q, c) if which else (c, q)
                before = parts(y)
                arrays(x)[name].ravel()[...] if False else None
                a = arrays(x)[name]
                if not a.flags.writeable: continue
                a.flat[i] += 1
                st.add('writes')
                if parts(y) != before: return dict(what='writing to %s of a question changes %s' % (name, 'its copy' if which else 'its original'), part=name, index=i, question=str(before))
                if name in ('A', 'b', 'bounds', 'answer._v') and x == y: return dict(what='questions that differ in %s compare equal' % name, question=str(before))
    for which in (0, 1):
        q = make(); c = q.copy(); x, y = (q, c) if which else (c, q)
        before = parts(y)
        x.quota = x.quota + 1
        if parts(y) != before or x == y: return dict(what='changing the total of a question changes its copy, or compares equal')
        q = make(); c = q.copy(); x, y = (q, c) if which else (c, q)
        x.b = x.b + 1; x.bounds = x.bounds + 1
        if parts(y) != before: return dict(what='assigning to a question changes its copy')
    # answers on their own
    q = make(); a = q.answer; b = a.copy()
    for n in ('_v', '_loc'):
        if hasattr(a, n) and getattr(a, n).size:
            before = getattr(a, n).tolist()
            getattr(b, n)[...] = 7
            if getattr(a, n).tolist() != before: return dict(what='writing to a copy of an answer changes the answer', part=n)
            if a == b and before != [7] * len(before): return dict(what='answers that differ compare equal', part=n)
            b = a.copy()


def evaluate(case, st):
    if case['kind'] == 'pairs':
        fam = small(case['big'])
        qs = [build(x) for x in fam]
        for i in range(case['part'], len(fam), case['parts']):
            v = isolated(lambda: build(fam[i]), st)
            st.add('states'); st.add('traces_validated_against_impl')
            if v: return v
            for j in range(len(fam)):
                same = fam[i] == fam[j]
                if (qs[i] == qs[j]) != same: return dict(what='two questions with %s parts compare %s' % ('equal' if same else 'different', 'different' if same else 'equal'), first=fam[i], second=fam[j])
                if (qs[i].answer == qs[j].answer) != (fam[i][5] == fam[j][5]): return dict(what='comparison of answers is wrong', first=fam[i][5], second=fam[j][5])
                st.add('transitions')
        st.sample(dict(first=fam[case['part']], compared_with=len(fam)), 1)
        return
    from srg.srg import Question, NoSolution
    p = tuple(case['p'])
    todo, _ = lib.ref_levels(p)
    for b, rows in todo:
        m = lib.to_mat(b, p[0])
        try: Question.from_matrix(m)
        except NoSolution: continue
        def make(): return Question.from_matrix(m)
        q = make(); c = q.copy()
        if not (q == c) or parts(q) != parts(c): return dict(what='a copy differs from its original', partial=b)
        # solving one must leave the other alone
        from srg import solver
        before = parts(q)
        got = [lib.bits_of(x) for x in solver.solve_question(c)]
        if parts(q) != before: return dict(what='solving a copy changes the original', partial=b)
        again = q.copy()
        if sorted(lib.bits_of(x) for x in solver.solve_question(q)) != sorted(got): return dict(what='a question and its copy have different solutions', partial=b)
        if parts(again) != before: return dict(what='solving the original changes a copy', partial=b)
        st.add('states'); st.add('transitions', 2); st.add('traces_validated_against_impl')
        if len(m) <= 4 and p[0] <= 10:
            v = isolated(make, st)
            if v: return dict(v, partial=b)


def meta(tier, st):
    return dict(rule='all questions with at most 2 equations and 2 unknowns over 0/1 values and 5 kinds of answers: each against each other, each single element written in the copy and in the original; '
                     'questions of all reachable partial matrices within the cost bound: solving one of two copies')
