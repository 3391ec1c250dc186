import json, os
from collections import Counter
import lib, search, steps
PROPERTY, LEVEL, LIMIT = 'C04', 'model_checking', 600
CHUNK = 60


def hard_params(tier):
    """parameter sets too large to search completely: [(params, depth bound, states kept per level)]"""
    cost = {tuple(x[:4]): x[4] for x in lib.param_table()}
    lim = 0.6 if tier == 'quick' else 1e9
    out = []
    for p in lib.accepted(5, 27 if tier == 'quick' else 51):
        if cost.get(p, 1e9) <= lim: continue
        out.append((p, 3 if tier == 'quick' else 4, 12 if tier == 'quick' else 60))
    return out


DEEP = [((28, 12, 6, 4), 40, 0.03), ((26, 10, 3, 4), 25, 0.1), ((25, 12, 5, 6), 12, 0.12), ((27, 10, 1, 5), 12, 0.2), ((21, 10, 5, 4), 12, 0.05), ((29, 14, 6, 7), 3, 0.3)]


def prefixes(tier):
    lim = 0.25 if tier == 'quick' else 5.5
    t = json.load(open(os.path.join(lib.VERIF, 'mc', 'prefixes.json')))
    for name in sorted(t):
        c = [(r, x) for r, n, x in t[name] if x <= lim]
        if tier == 'quick' and len(c) > 12: c = [c[i * len(c) // 12] for i in range(12)]
        if c: yield name, sorted(r for r, x in c), sum(x for r, x in c)


def groups(tier):
    lim = 0.6 if tier == 'quick' else 1e9
    small, g = [], []
    for v, k, l, u, cost, states, sols in lib.param_table():
        if cost <= lim and (tier != 'quick' or v <= 40 or states > v): small.append((max(cost, 0.01), dict(kind='all', p=[v, k, l, u])))
    g += lib.balance(small, 48)
    g += lib.balance([(1.0, dict(kind='levels', p=list(p), depth=d, keep=n)) for p, d, n in hard_params(tier)], 32)
    g += [(s + 0.1, [dict(kind='prefix', name=n, rows=r)]) for n, r, s in prefixes(tier)]
    for p, keep, c in DEEP:
        keep *= 1 if tier == 'quick' else 40
        n = 1 if tier == 'quick' else 16
        g += [(c * keep * p[0] / n, [dict(kind='beam', p=list(p), keep=keep, part=i, parts=n)]) for i in range(n)]
    return g


def judge(p, bits, want, st, both):
    m = lib.to_mat(bits, p[0])
    ways = [steps.rows] + ([steps.rows_by_question] if both else [])
    for w in ways:
        got = w(m)
        st.add('traces_validated_against_impl')
        if Counter(got) != Counter(want):
            a, b = Counter(got), Counter(want)
            return dict(what='rows offered differ from the admissible rows', by=w.__name__, partial=bits, known_rows=len(m), params=p,
                        missing=sorted((b - a).elements())[:5], not_admissible_or_repeated=sorted((a - b).elements())[:5], offered=len(got), admissible=len(want))
    st.add('states'); st.add('transitions', len(want))
    st.distinct('distinct_partial_matrices', '%s %s' % (p, bits))
    st.add('depth_%02d_or_more' % (len(m) // 10 * 10))
    if p[0] - len(m) >= 64 or len(m) >= 64: st.add('beyond_64_bits')
    if not want: st.add('dead_ends')


def evaluate(case, st):
    if case['kind'] == 'prefix':
        import families
        A = families.canonical(families.catalogue()[case['name']]); p = families.params_of(A)
        states = [lib.bits_of(A[:r]) for r in case['rows']]
        for r, b, want in zip(case['rows'], states, lib.ref_rows(p, states)):
            assert lib.bits_of(A[r]) in want
            v = judge(p, b, want, st, False)
            if v: return v
        st.sample(dict(graph=case['name'], rows=case['rows'][:5]), 1)
        return
    p = tuple(case['p'])
    if case['kind'] == 'all': todo, _ = lib.ref_levels(p)
    elif case['kind'] == 'levels': todo, _ = lib.ref_levels(p, case['depth'], case['keep'], True)
    else:
        todo, _ = lib.ref_levels(p, 999, case['keep'], True)
        todo = todo[case['part']::case['parts']]
    for b, want in todo:
        v = judge(p, b, want, st, case['kind'] == 'all' and p[0] <= 16)
        if v: return v
    if todo: st.sample(dict(p=p, partial=todo[len(todo) // 2][0], rows=len(todo[len(todo) // 2][1])), 1)


def meta(tier, st):
    return dict(rule='every partial matrix reachable in the reference model (all of them for parameter sets within the cost bound; the first levels, thinned beyond a width, '
                     'for larger ones; prefixes of known graphs up to 121 vertices): the rows offered by the implementation are compared as a multiset with all admissible rows')
