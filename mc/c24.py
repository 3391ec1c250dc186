"""All integer quadruples of a box, all accepted parameter sets up to a size, and recovery from every partial matrix of the search."""
import itertools
import lib, stored
PROPERTY, LEVEL, LIMIT = 'C24', 'exploration', 700


def groups(tier):
    q = tier == 'quick'
    n = 22 if q else 90
    g = [(6, [dict(kind='box', part=i, parts=24, lo=-3, hi=n)]) for i in range(24)]
    g += [(6, [dict(kind='neighbours', part=i, parts=8, hi=130 if q else 300)]) for i in range(8)]
    g += [(5, [dict(kind='large', part=i, parts=8, max=6000 if q else 20000)]) for i in range(8)]
    g += [(8, [dict(kind='start', part=i, parts=16, hi=201 if q else 401)]) for i in range(16)]
    for vs in ([225, 256], [257, 300], [361], [400], [512], [514]): g.append((20, [dict(kind='start', part=0, parts=1, vs=vs)]))
    P = [(c, x) for *x, c, states, sols in lib.param_table() if c <= (0.2 if q else 5)]
    g += lib.balance([(c + 0.1, dict(kind='partial', p=x, cap=300 if q else 3000)) for c, x in P], 16)
    g += [(2, [dict(kind='stored', problem=n)]) for n in stored.names()]
    return g


def accepts(p):
    from srg import utils
    try: utils.assert_srg(*p)
    except Exception: return False
    return True


def admission(p, st):
    v, k, l, u = p
    st.add('evaluations')
    want = (v - k - 1) * u == k * (k - l - 1)
    if accepts(p) != want: return dict(what='%s is %s' % (p, 'rejected although the identity holds' if want else 'accepted although the identity does not hold'))
    st.add('distinct_nontrivial', int(want))


def recover(M, p, st, rows):
    from srg import srg
    f = lib.seam('srg.srg', 'vklu')
    got = tuple(f(M))
    st.add('recoveries')
    if len(got) != 4 or any(int(a) != b for a, b in zip(got, p)): return dict(what='%s recovered from %d rows of a matrix for %s' % (tuple(map(str, got)), rows, p), matrix=lib.bits_of(M))


def evaluate(case, st):
    import numpy as np
    kind = case['kind']
    if kind == 'box':
        for p in itertools.product(range(case['lo'], case['hi']), repeat=4):
            if p[0] % case['parts'] != case['part']: continue
            v = admission(p, st)
            if v: return v
    elif kind == 'neighbours':
        for v, k, l, u in lib.accepted(4, case['hi'], proper=False):
            if v % case['parts'] != case['part']: continue
            for d in itertools.product((-1, 0, 1), repeat=4):
                r = admission((v + d[0], k + d[1], l + d[2], u + d[3]), st)
                if r: return r
    elif kind == 'large':
        import c23
        for i, p in enumerate(itertools.chain(c23.large_families(case['max']), (x for x, _ in c23.huge_families()))):
            if i % case['parts'] != case['part']: continue
            for d in itertools.product((-1, 0, 1), repeat=4):
                r = admission(tuple(x + y for x, y in zip(p, d)), st)
                if r: return r
            cp = (p[0], p[0] - p[1] - 1, p[0] - 2 - 2 * p[1] + p[3], p[0] - 2 * p[1] + p[2])
            for a in (cp, tuple(x + p[0] for x in p), tuple(10 ** 6 * x for x in p)):
                r = admission(a, st)
                if r: return r
    elif kind == 'start':
        from srg import solver
        for p in itertools.chain.from_iterable(lib.accepted(w, w + 1, proper=False) for w in case['vs']) if 'vs' in case else lib.accepted(3, case['hi'], proper=False):
            v, k, l, u = p
            if v % case['parts'] != case['part'] or 2 * k - l > v: continue
            M = np.asarray(solver._seed(*p))
            st.add('start_rows')
            if M.shape != (2, v): return dict(what='start rows of %s have shape %s' % (p, M.shape))
            a, b = M.astype(int)
            if set(np.unique(M)) - {0, 1}: return dict(what='start rows of %s have other entries than 0 and 1' % (p,))
            for bad, text in ((a[0] or b[1], 'a loop'), (a[1] != 1 or b[0] != 1, 'two vertices that are not adjacent'), (a.sum() != k, 'first degree %d' % a.sum()), (b.sum() != k, 'second degree %d' % b.sum()), ((a * b).sum() != l, '%d common neighbours' % (a * b).sum())):
                if bad: return dict(what='start rows of %s have %s' % (p, text), rows=[lib.bits_of(M[0]), lib.bits_of(M[1])])
            e = lib.canonical_form_error(M)
            if e: return dict(what='start rows of %s are not in canonical labelling' % (p,), rows=[lib.bits_of(M[0]), lib.bits_of(M[1])])
            r = recover(M, p, st, 2)
            if r: return r
            st.distinct('distinct_nontrivial_parameters', str(p))
        st.sample(dict(p=p), 1)
    elif kind == 'partial':
        p = tuple(case['p'])
        states, capped = lib.ref_levels(p, 999, case['cap'], beam=True)
        for s, _ in states:
            M = lib.to_mat(s, p[0])
            r = recover(M, p, st, len(M))
            if r: return r
    else:
        p = stored.numbers(case['problem'])
        for A in stored.solutions(case['problem']):
            for r in range(2, p[0] + 1):
                e = recover(np.array(A)[:r], p, st, r)
                if e: return e


def meta(tier, st):
    return dict(rule='all integer quadruples in [-3,22)^4 ([-3,90)^4), all quadruples at distance at most 1 in each number from an accepted one with v<130 (300), the same around the members of infinite families with v<=6000 (20000) and with counts of 16 to 70 bits, start rows of all accepted sets with v<=200 (400) and eight larger v up to 514, recovery from every partial matrix of the search of cheap sets '
                     '(levels thinned to a cap) and every prefix of every stored solution; non-trivial: the identity holds')
