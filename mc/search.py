"""Running the real search on parameter sets within the bound of a tier; shared by C01, C02, C03 and C06."""
import json, os
import lib
from lib import balance

# parameter sets beyond the cost bound that are kept in the quick tier: (reference states, why)
EXTRA_QUICK = [(21, 10, 5, 4), (16, 10, 6, 6), (17, 8, 3, 4), (15, 8, 4, 4), (16, 9, 4, 6), (22, 9, 4, 3), (36, 10, 4, 2), (17, 12, 9, 6), (19, 12, 9, 4), (25, 8, 3, 2), (27, 10, 1, 5)]
BIG_V_QUICK = (66, 72, 80, 90, 96, 126, 132)


def big_families(vs):
    """disjoint unions of cliques (u=0) and complete multipartite graphs (u=k) on more vertices than a machine word has bits"""
    for v in vs:
        for k in range(1, v - 1):
            for l, u in ((k - 1, 0), (2 * k - v, k)):
                if l >= 0 and (k - l - 1) * k == u * (v - k - 1): yield (v, k, l, u)


def search_params(tier):
    """[(cost, params)] - a fixed list, so the bound does not depend on the machine"""
    lim = 7.0 if tier == 'quick' else 1e9
    out = {}
    for v, k, l, u, cost, states, sols in lib.param_table():
        p = (v, k, l, u)
        if cost <= lim or p in EXTRA_QUICK: out[p] = max(cost, 0.02)
    for p in EXTRA_QUICK: out.setdefault(p, 10.0)
    if tier != 'quick': out[21, 10, 4, 5] = 100.0        # no graph, found out only after some thousand partial matrices
    for p in [(131, 1, 0, 0), (131, 2, 1, 0), (256, 128, 0, 128), (200, 1, 0, 0), (254, 127, 0, 127), (400, 200, 0, 200), (421, 2, 1, 0)]: out[p] = 0.5
    for *p, c in json.load(open(os.path.join(lib.VERIF, 'mc', 'params_wide.json'))): out[tuple(p)] = max(c, 0.02)     # 66 to 96 vertices, 0 < u < k, no graph
    out[1200, 1, 0, 0] = 12.0        # more rows than the interpreter nests calls
    for p in big_families(BIG_V_QUICK if tier == 'quick' else list(range(66, 141)) + [200, 256]): out.setdefault(p, 1.0 if p[3] else 0.2)
    return [(c, p) for p, c in sorted(out.items())]


def degenerate_params(tier):
    """accepted sets with u > k (no graph)"""
    return [p for p in lib.accepted(3, 31 if tier == 'quick' else 61, proper=False) if p[3] > p[1]]


def groups(tier, n=96):
    return balance([(c, dict(kind='search', p=list(p), **(dict(limit=800) if c > 50 else {}))) for c, p in search_params(tier)], n)


def solve(p, judge=None):
    """-> (results, error or None); results are copied when they are yielded"""
    import numpy as np
    from srg import solver
    from srg.srg import SRG
    out = []
    try:
        for m in solver.solve(SRG(solver._seed(*p))): out.append(np.array(m))
    except Exception as e:
        return out, e
    return out, None


def reference(p):
    return lib.ref_solve(p)


# -- searches resumed near the end of known large graphs, where the complete search is out of reach
def family_rows(tier):
    """[(cost, graph name, rows from which the remaining steps are cheap and do not branch)]"""
    t = json.load(open(os.path.join(lib.VERIF, 'mc', 'prefixes.json')))
    out = []
    for name in sorted(t):
        lims = 0.05 if tier == 'quick' else 0.5
        good, tot = [], 0.0
        for r, n, x in sorted(t[name], reverse=True):
            if n != 1 or x > lims: break
            tot += x
            if tot > 3: break
            good.append((r, tot))
        if tier == 'quick': good = good[::max(1, len(good) // 5)]
        if good: out.append((sum(c for _, c in good), name, [r for r, _ in good]))
    return out


def resume_groups(tier):
    g = lib.balance([(c + 0.1, dict(kind='resume', name=n, rows=r)) for c, n, r in family_rows(tier)], 32)
    n = 16 if tier == 'quick' else 64
    g += [(3, [dict(kind='resume-solutions', p=[28, 12, 6, 4], part=i, parts=n, rows=[20, 24, 27] if tier == 'quick' else [12, 16, 18, 20, 22, 24, 26, 27])]) for i in range(n)]
    return g


def labellings(A):
    """canonical matrices of the same graph, from several first vertices and orders of the others"""
    import families
    n = len(A)
    seen = []
    for s in (range(n), range(n)[::-1], [(i * 2 + 1) % n if n % 2 else i for i in range(n)], list(range(n // 2, n)) + list(range(n // 2)), list(range(1, n)) + [0]):
        if sorted(s) != list(range(n)): continue
        B = families.canonical(A, list(s))
        if not any((B == C).all() for C in seen): seen.append(B)
    return seen


def resumes(case):
    """-> [(params, bits of the partial matrix, a graph that begins with it, deep?)]"""
    if case['kind'] == 'resume':
        import families
        G = families.catalogue()[case['name']]
        out = []
        for i, A in enumerate(labellings(G)):
            p = tuple(int(x) for x in families.params_of(A)); v = p[0]
            for r in (case['rows'] if i == 0 else [x for x in case['rows'] if x >= v - 4]): out.append((p, lib.bits_of(A[:r]), lib.bits_of(A)))
        return out
    p = tuple(case['p']); v = p[0]
    sols = lib.ref_solve(p)[0]
    todo = {}
    for s in sols:
        for r in case['rows']: todo.setdefault(s[:r * v], s)
    return [(p, b, s) for b, s in sorted(todo.items())][case['part']::case['parts']]


def resume(p, bits):
    """-> (results, error or None) of the search started from a partial matrix"""
    import numpy as np
    from srg import solver
    from srg.srg import SRG
    out = []
    try:
        for m in solver.solve(SRG(lib.to_mat(bits, p[0]))): out.append(np.array(m))
    except Exception as e: return out, e
    return out, None
