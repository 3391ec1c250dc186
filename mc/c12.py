"""Explicit-state search over the simplification steps: from every reachable question all orders of steps are explored on the real
functions; a state is the question's value; the invariant is the set of complete rows it stands for."""
import itertools, json, os
from collections import deque
import lib
PROPERTY, LEVEL, LIMIT = 'C12', 'model_checking', 600
STEPS = ('reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row')


def groups(tier):
    q = tier == 'quick'
    g = []
    for v, k, l, u, cost, states, sols in lib.param_table():
        if v <= 3: continue
        if cost <= (0.2 if q else 3) and v <= (20 if q else 36): g.append((max(cost, 0.01) * 12, dict(kind='reach', p=[v, k, l, u], cap=60 if q else 400)))
    r = lib.balance(g, 64)
    # larger parameter sets: many admissible rows per state
    for p, d, w in [((15, 8, 4, 4), 6, 4), ((16, 9, 4, 6), 6, 4), ((16, 10, 6, 6), 6, 4), ((21, 10, 5, 4), 5, 3), ((17, 8, 3, 4), 5, 4), ((28, 12, 6, 4), 4, 2), ((25, 8, 3, 2), 9, 3)]:
        r.append((20, [dict(kind='reach', p=list(p), depth=d, keep=w if q else w * 8, cap=60 if q else 400)]))
    # late states of large textbook graphs: many equations
    for n, rows in wide_prefixes(tier): r.append((3 + len(rows) * .4, [dict(kind='prefix', name=n, rows=rows, cap=20 if q else 200)]))
    # all small systems, and tall or wide ones with few entries, as questions of their own
    r += lib.balance([(1 + len(list(itertools.product((0, 1), repeat=R * C))) / 40 * (C + 1) ** R / 16, dict(kind='small', R=R, C=C, part=i, parts=n, cap=40))
                      for R, C, n in ([(0, 3, 1), (1, 1, 1), (1, 2, 1), (1, 3, 1), (1, 4, 1), (2, 1, 1), (2, 2, 1), (2, 3, 8)] + ([] if q else [(2, 4, 64), (3, 2, 4), (3, 3, 96)])) for i in range(n)], 16 if q else 96)
    r += lib.balance([(R / 10, dict(kind='tall', R=R, cap=20)) for R in ((9, 17, 33, 34, 66) if q else (9, 17, 18, 33, 34, 65, 66, 68, 100, 130))], 16)
    r += lib.balance([(C / 10, dict(kind='wide', C=C, cap=20)) for C in ((9, 17, 33, 34, 66) if q else (9, 17, 18, 33, 34, 65, 66, 68, 100, 130))], 16)
    return r


def systems(case):
    """(A, b, total): 0/1 equations, equal columns adjacent; the row total is one more equation"""
    if case['kind'] == 'small':
        R, C = case['R'], case['C']
        n = 0
        for cols in itertools.product(range(1 << R), repeat=C):
            if any(cols[i] == cols[j] != cols[i + 1] for j in range(C) for i in range(j)): continue     # equal columns are adjacent
            A = [[c >> r & 1 for c in cols] for r in range(R)]
            for b in itertools.product(range(C + 1), repeat=R):
                if any(b[r] > sum(A[r]) for r in range(R)): continue
                for total in range(C + 1):
                    n += 1
                    if n % case['parts'] == case['part']: yield A, list(b), total
    elif case['kind'] == 'tall':
        R = case['R']
        for i, j in itertools.combinations(range(R), 2):
            A = [[0, 0] for _ in range(R)]; A[i][0] = 1; A[j][1] = 1
            for bi, bj in ((1, 0), (0, 1)):
                b = [0] * R; b[i] = bi; b[j] = bj
                yield A, b, 1
    else:
        C = case['C']
        for i, j in itertools.combinations(range(C), 2):        # leaders of the groups of equal columns
            A = [[int(c < i) for c in range(C)], [int(i <= c < j) for c in range(C)]]
            for b in ([0, 1], [1, 0]):
                if all(x <= sum(a) for x, a in zip(b, A)): yield A, b, 1


def merged_rows(A, b, total, C):
    """all 0/1 rows x with A x = b and this total that put their ones first within each group of equal columns"""
    cols = [tuple(a[c] for a in A) for c in range(C)]
    groups = [(k, len(list(x))) for k, x in itertools.groupby(cols)]
    out = set()
    def go(i, left, rest, row):
        if i == len(groups):
            if left == 0 and not any(rest): out.add(bytes(row))
            return
        col, n = groups[i]
        for t in range(min(n, left) + 1):
            new = [x - y * t for x, y in zip(rest, col)]
            if any(x < 0 for x in new): break
            go(i + 1, left - t, new, row + [1] * t + [0] * (n - t))
    go(0, total, b, [])
    return frozenset(out)


def single_questions(case, st):
    from srg.srg import Question, NoSolution, array, ones
    reduce_col = lib.seam('srg.solver', 'reduce_col')
    for A, b, total in systems(case):
        C = len(A[0]) if A else case['C']
        want = merged_rows(A, b, total, C)
        q = Question(array(A + [[1] * C]), array(b + [total]), quota=total, bounds=ones(C))
        where = dict(A=A, b=b, total=total, columns=C)
        st.add('questions'); st.add('questions_of_their_own')
        try: reduce_col(q)
        except NoSolution:
            if want: return dict(what='merging columns reports a contradiction although rows exist', **where)
            continue
        got = expand(q)
        if got != want: return dict(what='merging columns changes the rows the question stands for: %d lost, %d new' % (len(want - got), len(got - want)), **where)
        v, kids = explore(q, st, case['cap'], where)
        if v: return v


def wide_prefixes(tier):
    t = json.load(open(os.path.join(lib.VERIF, 'mc', 'prefixes.json')))
    for n in sorted(t):
        v = max(r for r, _, _ in t[n]) + 1
        if v < 36: continue
        rows = sorted(r for r, _, x in t[n] if r >= max(30, v // 2) and x <= (0.004 if tier == 'quick' else 0.05))
        if tier == 'quick' and len(rows) > 7: rows = [rows[i * len(rows) // 7] for i in range(7)]
        if rows: yield n, rows


def key(q):
    a = q.answer
    return (q.A.shape, q.A.tobytes(), tuple(int(x) for x in q.b), int(q.quota), tuple(int(x) for x in q.bounds), tuple(a._v.tolist()), tuple(a._loc.tolist()), len(a))


def expand(q):
    """the set of complete rows the question stands for"""
    import numpy as np
    a = q.answer
    if not hasattr(a, '_v'): raise lib.SeamMissing('Answer._v does not exist')
    A = [[int(y) for y in r] for r in q.A]; b = [int(y) for y in q.b]; bd = [int(y) for y in q.bounds]; quota = int(q.quota)
    R, C = len(A), len(bd)
    cap = list(a.quota)
    loc = [int(i) for i in a.unknown_loc]
    if len(loc) != C: raise lib.BadResult('%d unknown places for %d columns' % (len(loc), C))
    bd = [min(x, int(cap[i])) for x, i in zip(bd, loc)]
    fixed = [int(y) for y in a._v]
    if any(y > int(c) for y, c in zip(fixed, cap)): return frozenset()
    starts = [int(y) for y in a._loc] + [len(a)]
    out = set()
    x = [0] * C
    last = [max([c for c in range(C) if A[r][c]], default=-1) for r in range(R)]
    if any(last[r] == -1 and b[r] for r in range(R)): return frozenset()
    def row(vals):
        o = bytearray(len(a))
        for v, s in zip(vals, starts): o[s:s + v] = b'\1' * v
        return bytes(o)
    suffix = [sum(bd[c:]) for c in range(C + 1)]
    def go(c, rest, left):
        if left > suffix[c]: return
        if c == C:
            if left == 0 and not any(rest):
                vals = list(fixed)
                for i, t in zip(loc, x): vals[i] = t
                out.add(row(vals))
            return
        for t in range(min(bd[c], left) + 1):
            new = [rest[r] - A[r][c] * t for r in range(R)]
            if any(y < 0 for y in new): break
            if any(last[r] == c and new[r] for r in range(R)): continue
            x[c] = t
            go(c + 1, new, left - t)
        x[c] = 0
    go(0, b, quota)
    return frozenset(out)


def explore(q0, st, cap, where):
    """all step orders from q0 (already merged once); -> violation, children of case splits"""
    from srg import solver
    from srg.srg import NoSolution
    steps = {}
    for n in STEPS:
        try: steps[n] = lib.seam('srg.solver', n)
        except lib.SeamMissing as e: st.note('skipped: %s' % e)
    if 'reduce_col' not in steps: raise lib.SeamMissing('srg.solver.reduce_col does not exist')
    want = expand(q0)
    seen = {key(q0): None}
    todo = deque([(q0, ())])
    kids = []
    n = 0
    while todo:
        q, hist = todo.popleft()
        n += 1
        if n > cap: st.add('step_orders_beyond_cap'); break
        st.add('states')
        for name, f in steps.items():
            c = q.copy()
            before = key(c)
            try: f(c)
            except NoSolution:
                st.add('transitions'); st.add('contradictions_reported'); st.add('traces_validated_against_impl')
                if want: return dict(what='%s reports a contradiction although complete rows exist' % name, history=list(hist) + [name], question=repr(q), rows=len(want), **where), []
                continue
            st.add('transitions'); st.add('traces_validated_against_impl')
            if key(q) != before: return dict(what='%s changed a copied question' % name, **where), []
            k = key(c)
            if k == before: continue
            got = expand(c)
            if got != want:
                return dict(what='%s changes the rows the question stands for: %d lost, %d new' % (name, len(want - got), len(got - want)), history=list(hist) + [name], before=repr(q), after=repr(c), **where), []
            st.add('simplifying_transitions')
            if k not in seen: seen[k] = None; todo.append((c, hist + (name,)))
        # the case split
        if q.answer.unknown and len(kids) < 12:
            try: split = lib.seam('srg.solver', 'fork_enum')
            except lib.SeamMissing: continue
            try: parts = [x for x in split(q.copy())]
            except NoSolution: parts = []
            sets = [expand(x) for x in parts]
            st.add('case_splits'); st.add('transitions', len(parts)); st.add('traces_validated_against_impl')
            if sum(map(len, sets)) != len(frozenset().union(*sets)): return dict(what='the parts of the case split overlap', history=list(hist), question=repr(q), **where), []
            if frozenset().union(*sets) != want: return dict(what='the case split changes the rows the question stands for', history=list(hist), question=repr(q), lost=len(want - frozenset().union(*sets)), **where), []
            if len(sets) > 1: st.add('proper_case_splits')
            kids += parts
    return None, kids


def evaluate(case, st):
    from srg import solver
    from srg.srg import Question, NoSolution
    if case['kind'] in ('small', 'tall', 'wide'): return single_questions(case, st)
    p = tuple(case.get('p', ()))
    reduce_col = lib.seam('srg.solver', 'reduce_col')
    if case['kind'] == 'prefix':
        import families
        A = families.canonical(families.catalogue()[case['name']]); p = families.params_of(A)
        states = [lib.bits_of(A[:r]) for r in case['rows']]
        todo = list(zip(states, lib.ref_rows(p, states)))
    elif 'keep' in case: todo, _ = lib.ref_levels(p, case['depth'], case['keep'], True)
    else: todo, _ = lib.ref_levels(p)
    for bits, rows in todo:
        m = lib.to_mat(bits, p[0]); R = len(m)
        try: q = Question.from_matrix(m)
        except NoSolution:
            if rows: return dict(what='building the question reports a contradiction although rows exist', partial=bits)
            continue
        try: reduce_col(q)
        except NoSolution:
            if rows: return dict(what='merging columns reports a contradiction although rows exist', partial=bits)
            continue
        want = frozenset(bytes(int(c) for c in r[R + 1:]) for r in rows)
        got = expand(q)
        if R > 32: st.add('questions_of_more_than_32_rows')
        st.add('questions'); st.distinct('distinct_questions', '%s %s' % (p, bits))
        if got != want: return dict(what='the merged question stands for %d rows, %d are admissible' % (len(got), len(want)), partial=bits)
        level = [q]
        for depth in range(3):                # the question, and the parts of its case splits
            nxt, keys = [], set()
            for x in level:
                v, kids = explore(x, st, case['cap'], dict(partial=bits, params=p))
                if v: return v
                for y in kids:
                    k = key(y)
                    if k not in keys and len(nxt) < 6: keys.add(k); nxt.append(y)
            level = nxt
    if todo: st.sample(dict(p=p, partial=todo[len(todo) // 2][0]), 1)


def meta(tier, st):
    return dict(rule='every question of the reachable partial matrices within the cost bound, merged once, then all orders of the four simplification steps (search over question values, no repetition bound) '
                     'and the case split in every such state, three splits deep; the set of complete rows is computed by brute force from the question')
