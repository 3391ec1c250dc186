"""Explicit-state search over histories of operations (a state is the history; every extension is forked off the process that
executed it), and all interleavings of suspended generators."""
import os, pickle, itertools, struct
import lib, ops
PROPERTY, LEVEL, LIMIT = 'C08', 'model_checking', 600

GENS = {       # name -> results it yields (so that all interleavings can be laid out beforehand)
    'solve(10,6,3,4)': 2, 'solve(9,4,1,2)': 1, 'solve(16,6,2,2)': None, 'rows(16,10,6,6 depth 3)': None, 'rows(15,8,4,4 depth 4)': None,
    'partition.enum(3,[2,1,2,1])': None, 'partition.enum(4,[3,3,2])': None, 'fork.enum(4,[3,2,2])': None, 'fork.enum(3,[1,1,2])': None,
}
ROWSTATES = [((15, 8, 4, 4), 3, 5), ((13, 6, 2, 3), 2, 6), ((16, 9, 4, 6), 4, 5), ((21, 10, 5, 4), 5, 6)]


def gen(name):
    import numpy as np
    from srg import solver
    from srg.srg import SRG, Question
    kind, *a = name
    if kind == 'solve': return solver.solve(SRG(solver._seed(*a[0])))
    if kind == 'solve-same':          # two searches from the same start object
        return solver.solve(SHARED.setdefault(tuple(a[0]), SRG(solver._seed(*a[0]))))
    if kind == 'rows': return solver.solve_question(Question.from_matrix(lib.to_mat(a[0], a[1])))
    if kind == 'partition': return lib.seam('srg.partition', 'enum')(a[0], list(a[1]))
    if kind == 'fork': return lib.seam('srg.fork', 'enum')(a[0], np.array(a[1], dtype=np.int8), a[2])
    raise KeyError(kind)


SHARED = {}
MODES = ('dropped', 'closed', 'kept suspended', 'ended by an exception')


def row_gens(limit):
    """row searches that yield 2..limit rows"""
    out = []
    for p, lo, hi in ROWSTATES:
        st, _ = lib.ref_levels(p, hi)
        for b, rows in st:
            if 2 <= len(rows) <= limit: out.append((len(rows), ['rows', b, p[0]]))
    seen, keep = set(), []
    for n, g in sorted(out, key=lambda x: (-x[0], len(x[1][1]), x[1][1])):
        if (n, g[2]) not in seen: seen.add((n, g[2])); keep.append((n, g))
    return keep


def groups(tier):
    depth = 3 if tier == 'quick' else 4
    firsts = range(len(ops.NAMES))
    g = []
    if tier == 'quick': g += [(20, [dict(kind='history', prefix=[i], depth=depth)]) for i in firsts]
    else: g += [(60, [dict(kind='history', prefix=[i, j], depth=depth)]) for i in firsts for j in firsts]
    rg = row_gens(3) if tier == 'quick' else row_gens(6)
    solves = [(2, ['solve', [10, 6, 3, 4]]), (1, ['solve', [9, 4, 1, 2]]), (2, ['solve-same', [10, 6, 3, 4]]), (0, ['solve', [9, 4, 3, 0]])]
    en = [(5, ['partition', 3, [2, 1, 2]]), (6, ['partition', 4, [3, 2, 2]]), (3, ['fork', 4, [3, 2, 2], 0]), (2, ['fork', 3, [1, 1, 2], 1])]
    pairs = []
    for lst in (solves, rg, en):
        for i, a in enumerate(lst):
            for b in lst[i:]: pairs.append([a, b])
    pairs += [[solves[0], rg[0]], [solves[0], en[0]]]
    pairs += [[rg[-1], rg[-1], rg[-1]], [en[2], en[3], en[2]]]
    if tier != 'quick': pairs += [[solves[0], solves[1], solves[2]], [rg[0], rg[-1], rg[-1]]]
    g += [(5, [dict(kind='interleave', gens=[list(x) for x in pr], cap=20000 if tier == 'quick' else 60000, part=i, parts=n)]) for pr in pairs for n in [8 if tier != 'quick' and len(pr) > 2 else 1] for i in range(n)]
    inter = [(solves[0]), rg[0], rg[-1], en[0]]
    g += [(4, [dict(kind='between', gen=list(x), op=o) for o in range(len(ops.NAMES))]) for x in inter]
    many = solves[:2] + [solves[3]] + ([rg[0], rg[-1]] if tier == 'quick' else rg) + en
    for x in many:
        for mode in MODES: g += [(3, [dict(kind='abandon', gen=list(x), mode=mode, counts=[1, 2, 3, 5, 9, 17, 33, 70] if tier == 'quick' else list(range(1, 40)) + [70, 150, 300])])]
    g += [(3, [dict(kind='suspended', gens=[list(x) for x in fam], counts=[4, 17, 40] if tier == 'quick' else [4, 9, 17, 40, 70, 130])]) for fam in (solves, rg[:6], en, [solves[0], rg[0], en[0], en[2], solves[1]])]
    for fam in FAMILIES: g += [(12, [dict(kind='long', family=fam, tier=tier)])]
    return g


# -- long histories: many calls of one part of the package with different arguments
def family(name, tier):
    """[(label, function without arguments)], in a fixed order"""
    import numpy as np
    q = tier == 'quick'
    out = []
    def add(label, f): out.append((label, f))
    if name in ('spectrum', 'determinant', 'complement parameters', 'admission', 'start rows'):
        P = list(lib.accepted(3, 36 if q else 80))
        for p in P:
            def f(p=p):
                from srg import utils, solver
                if name == 'spectrum': return ops.plain((utils.eig(*p), utils.conference(*p)))
                if name == 'determinant': return ops.plain(utils.determinant(*p))
                if name == 'complement parameters': return ops.plain(utils.complement_vklu(*p))
                if name == 'admission':
                    r = []
                    for d in (0, 1, -1):
                        try: utils.assert_srg(*p[:3], p[3] + d); r.append(1)
                        except AssertionError: r.append(0)
                    return r
                s = solver._seed(*p)
                return ops.plain((s, lib.seam('srg.srg', 'vklu')(s)))
            add('%s %s' % (name, p), f)
    elif name == 'search':
        for v, k, l, u, cost, states, sols in lib.param_table():
            if cost <= (0.02 if q else 0.2) and v <= (22 if q else 40): add('search %s' % ((v, k, l, u),), ops.solve(v, k, l, u))
    elif name == 'rows':
        for p in ((10, 6, 3, 4), (9, 4, 1, 2), (9, 4, 3, 0), (13, 6, 2, 3), (10, 3, 0, 1), (15, 8, 4, 4), (16, 6, 2, 2), (16, 5, 0, 2), (16, 9, 4, 6), (16, 10, 6, 6)):
            for b, rows in lib.ref_levels(p)[0][:60 if q else 400]: add('rows %s %s' % (p, b), lambda b=b, v=p[0]: ops.plain([list(map(int, r)) for r in gen(['rows', b, v])]))
    elif name in ('maximize', 'complement', 'sort', 'swap'):
        import graphs
        G = [graphs.matrix(m, n) for n in (4, 5) for m in range(1 << len(graphs.pairs(n)))]
        G = G[::1 if not q else 4]
        for i, A in enumerate(G):
            def f(A=A, i=i):
                from srg import sorter, utils
                A = np.array(A, dtype=np.int16)
                if name == 'maximize': return ops.plain(sorter.maximize(A))
                if name == 'complement': return ops.plain(utils.complement(A))
                if name == 'swap': return ops.plain([sorter.swap(A, i % len(A), j) for j in range(len(A))])
                return ops.plain(sorter.sort([A, 1 - A - np.identity(len(A), dtype=np.int16), A[::-1, ::-1]]))
            add('%s %s' % (name, lib.bits_of(A)), f)
    elif name == 'stored':
        import stored
        for n in stored.names():
            p = stored.numbers(n)
            def f(p=p, n=n):
                from srg import database
                return ops.plain((database.extract_vklu(n), [np.asarray(m) for m in database.get_solutions(*p)]))
            add('stored %s' % n, f)
    elif name == 'enumerations':
        for bs in itertools.product(range(4), repeat=3):
            for s in range(sum(bs) + 1):
                add('partition %s %s' % (s, bs), lambda s=s, bs=bs: ops.plain(list(lib.seam('srg.partition', 'enum')(s, list(bs)))))
                add('split %s %s' % (s, bs), lambda s=s, bs=bs: ops.plain([list(lib.seam('srg.fork', 'enum')(s, np.array(bs, dtype=np.int16), i)) for i in range(3)]))
    elif name == 'systems':
        for n, e in enumerate(itertools.product((0, 1), repeat=8)):
            A = np.array(e, dtype=np.int16).reshape(2, 4)
            for b in ((1, 1), (1, 2), (2, 1), (0, 3)):
                def f(A=A, b=b):
                    B = np.array(b, dtype=np.int16); A = A.copy()
                    out = []
                    if A.any(axis=0).all():
                        try: out.append(lib.seam('srg.gauss_elim', 'elim')(A.copy(), B.copy()))
                        except lib.seam('srg.srg', 'NoSolution'): out.append('contradiction')
                    r = lib.seam('srg.unique', 'reduce')(A)
                    out += [r, lib.seam('srg.unique', 'expand')(r[0], r[1])]
                    bd = np.array([2, 2, 1, 3], dtype=np.int16)
                    lib.seam('srg.bounds', 'lower_upper_bound')(A, B, bd)
                    return ops.plain([out, bd, lib.seam('srg.bounds', 'zero_bound_loc')(bd), lib.seam('srg.bounds', 'one_element_row_locs')(A)])
                add('system %s %s' % (A.tolist(), b), f)
    return out


FAMILIES = ('spectrum', 'determinant', 'complement parameters', 'admission', 'start rows', 'search', 'rows', 'maximize', 'complement', 'sort', 'swap', 'stored', 'enumerations', 'systems')


def value(f):
    try: return f()
    except lib.SeamMissing: raise
    except Exception as e: return 'error: %s' % type(e).__name__


def long_histories(case, st):
    preload()
    L = family(case['family'], case['tier'])
    fresh = [in_child(lambda f=f: value(f)) for _, f in L]
    n = len(L)
    for what, order in (('ascending', list(range(n))), ('descending', list(range(n))[::-1]), ('each one twice', [i for i in range(n) for _ in (0, 1)]), ('from both ends', [x for i in range((n + 1) // 2) for x in (i, n - 1 - i)])):
        def walk():
            for at, i in enumerate(order):
                if value(L[i][1]) != fresh[i]: return at
            return None
        at = in_child(walk, 500)
        st.add('long_histories'); st.add('transitions', len(order)); st.add('states', len(order)); st.add('traces_validated_against_impl', len(order))
        if at is not None:
            i = order[at]
            return dict(what='%r returns something else after this history than in a fresh process' % L[i][0], history='%s, %d calls: %s' % (what, at, [L[j][0] for j in order[max(0, at - 5):at]]), fresh=str(fresh[i])[:300])
    st.add('long_history_operations', n)


# -- searches that are given up, and many that are suspended at the same time
class Stop(Exception):
    pass


def give_up(it, mode, kept):
    if mode == 'closed': it.close()
    elif mode == 'kept suspended': kept.append(it)
    elif mode == 'ended by an exception':
        try: it.throw(Stop())
        except (Stop, StopIteration): pass


def abandon(case, st):
    n, g = case['gen']; mode = case['mode']
    alone = in_child(lambda: [ops.plain(y) for y in gen(g)])
    fresh = {name: in_child(lambda name=name: ops.run(name)) for name in ops.NAMES}
    for pos in range(0, len(alone) + 1):
        def walk():
            kept, made = [], 0
            for count in case['counts']:
                while made < count:
                    it = iter(gen(g)); made += 1
                    if not hasattr(it, 'close'): return None       # not lazy: there is nothing to give up
                    for y in alone[:pos]:
                        if ops.plain(next(it, None)) != y: return dict(what='a search is influenced by those given up before', count=made)
                    give_up(it, mode, kept)
                    del it
                got = [ops.plain(y) for y in gen(g)]
                if got != alone: return dict(what='a search gives other results after others were given up', count=made, got=str(got)[:200], fresh=str(alone)[:200])
            for name in ops.NAMES:
                if ops.run(name) != fresh[name]: return dict(what='%r returns something else after searches were given up' % name, count=made)
            return None
        v = in_child(walk)
        k = max(case['counts'])
        st.add('given_up', k); st.add('states', k + 1); st.add('transitions', k * (pos + 1)); st.add('traces_validated_against_impl', len(case['counts']))
        if v: return dict(v, generator=g, mode=mode, results_taken=pos)


def suspended(case, st):
    gens = [x[1] for x in case['gens']]
    alone = [in_child(lambda g=g: [ops.plain(y) for y in gen(g)]) for g in gens]
    for count in case['counts']:
        for order in ('one step each', 'last first', 'one after the other'):
            def walk():
                SHARED.clear()
                its = [gen(gens[i % len(gens)]) for i in range(count)]
                its = [iter(x) for x in its]
                got = [[] for _ in its]
                if order == 'one after the other':
                    for i, it in enumerate(its): got[i] += [ops.plain(y) for y in itertools.islice(it, 1)]
                    for i, it in enumerate(its): got[i] += [ops.plain(y) for y in it]
                else:
                    for _ in range(max(map(len, alone)) + 1):
                        for i in (range(count) if order == 'one step each' else range(count)[::-1]): got[i] += [ops.plain(y) for y in itertools.islice(its[i], 1)]
                for i in range(count):
                    if got[i] != alone[i % len(gens)]: return i
                return None
            i = in_child(walk)
            st.add('suspended_together', count); st.add('states', count); st.add('transitions', sum(len(alone[i % len(gens)]) + 1 for i in range(count))); st.add('traces_validated_against_impl')
            if i is not None: return dict(what='searches suspended at the same time influence each other', count=count, order=order, generator=gens[i % len(gens)])


# -- histories
def in_child(f, timeout=200):
    """f() in a forked process; its value is sent back"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                with lib.Limit(timeout): out = ('ok', f())
            except lib.Timeout as e: out = ('timeout', str(e))
            except BaseException as e:
                import traceback
                out = ('crash', traceback.format_exc()[-1500:])
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as h: h.write(data)
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h: data = h.read()
    os.waitpid(pid, 0)
    if not data: raise lib.BadResult('the process ended without an answer')
    tag, val = pickle.loads(data)
    if tag == 'timeout': raise lib.Timeout(val)
    if tag == 'crash': raise RuntimeError(val)
    return val


def explore(hist, depth, fresh):
    """called in a process that has executed hist; -> (executions, first violation or None)"""
    n = 0
    for name in ops.NAMES:
        def node(name=name):
            got = ops.run(name)
            if got != fresh[name]: return 1, dict(what='%r returns something else after this history than in a fresh process' % name, history=hist + [name], got=str(got)[:300], fresh=str(fresh[name])[:300])
            if len(hist) + 1 < depth:
                a, v = explore(hist + [name], depth, fresh)
                return a + 1, v
            return 1, None
        a, v = in_child(node)
        n += a
        if v: return n, v
    return n, None


def preload():
    for mod in ('solver', 'utils', 'sorter', 'partition', 'fork', 'gauss_elim', 'unique', 'bounds', 'srg'):
        try: lib.seam('srg.' + mod)
        except lib.SeamMissing: pass


def evaluate(case, st):
    if case['kind'] == 'long': return long_histories(case, st)
    if case['kind'] == 'history':
        fresh = {name: in_child(lambda name=name: ops.run(name)) for name in ops.NAMES}
        for name, x in fresh.items():
            if isinstance(x, str) and x.startswith('error'): return dict(what='%r fails in a fresh process: %s' % (name, x))
            if x == 'no such operation': st.note('skipped: %s' % name)
            st.distinct('distinct_observed_values', str(x))
        pre = [ops.NAMES[i] for i in case['prefix']]
        def root():
            preload()
            for i, name in enumerate(pre):
                if ops.run(name) != fresh[name]: return 1, dict(what='%r returns something else after this history than in a fresh process' % name, history=pre[:i + 1])
            return explore(pre, case['depth'], fresh)
        n, v = in_child(root, 500)
        st.add('states', n + 1); st.add('transitions', n + 1); st.add('traces_validated_against_impl', n); st.add('histories', n)
        st.sample(dict(history=pre + ops.NAMES[:case['depth'] - 1]), 1)
        return v
    preload()
    if case['kind'] == 'abandon': return abandon(case, st)
    if case['kind'] == 'suspended': return suspended(case, st)
    if case['kind'] == 'interleave':
        lens, gens = [x[0] for x in case['gens']], [x[1] for x in case['gens']]
        alone = []
        for g in gens: alone.append(in_child(lambda: [ops.plain(y) for y in gen(g)]))
        lens = [len(x) for x in alone]
        total, seen = 0, set()
        for order in orders(tuple(n + 1 for n in lens)):
            total += 1
            if total > case['cap']: st.add('interleavings_beyond_cap'); break
            if total % case['parts'] != case['part']: continue
            SHARED.clear()
            its = [iter(gen(g)) for g in gens]
            got = [[] for _ in gens]
            for i in order:
                y = next(its[i], None)
                if y is not None: got[i].append(ops.plain(y))
            st.add('interleavings'); st.add('transitions', len(order)); st.add('states', len(order)); st.add('traces_validated_against_impl')
            if got != alone: return dict(what='suspended generators influence each other', generators=gens, order=order)
        st.sample(dict(generators=[str(g)[:60] for g in gens], interleavings=total), 1)
        return
    # one operation run to completion between two results of a suspended generator, at every position
    n, g = case['gen']; name = ops.NAMES[case['op']]
    alone = in_child(lambda: [ops.plain(y) for y in gen(g)])
    n = len(alone)
    fresh = in_child(lambda: ops.run(name))
    for pos in range(n + 1):
        SHARED.clear()
        it, got = iter(gen(g)), []
        for i in range(n + 1):
            if i == pos:
                r = ops.run(name)
                if r != fresh: return dict(what='%r returns something else while a search is suspended' % name, generator=g, position=pos)
            y = next(it, None)
            if y is not None: got.append(ops.plain(y))
        st.add('states', n + 1); st.add('transitions', n + 2); st.add('traces_validated_against_impl')
        if got != alone: return dict(what='a suspended search is influenced by %r' % name, generator=g, position=pos)


def orders(counts):
    """all interleavings of counts[i] steps of generator i"""
    if not any(counts): yield (); return
    for i, c in enumerate(counts):
        if c:
            for rest in orders(counts[:i] + (c - 1,) + counts[i + 1:]): yield (i,) + rest


def meta(tier, st):
    return dict(operations=len(ops.NAMES), history_length=3 if tier == 'quick' else 4,
                rule='all histories of the operation alphabet up to the length, each extension executed in a process forked after its prefix and compared with a fresh process; '
                     'all interleavings of the next() calls of two or three suspended generators; every operation at every suspension point; '
                     'long histories: hundreds of calls of one part of the package with different arguments, in four orders, each call compared with a fresh process; up to 70 (300) searches given up after every number of results in four ways, followed by all operations; up to 40 (130) searches suspended together')
