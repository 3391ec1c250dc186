"""Exact integer spectra and determinants for all feasible parameter sets in a box and for explicit graphs."""
import math
import lib, stored
PROPERTY, LEVEL, LIMIT = 'C23', 'exploration', 700


def groups(tier):
    q = tier == 'quick'
    hi = 260 if q else 2000
    g = [(3 if q else 60, [dict(kind='feasible', part=i, parts=16, hi=hi)]) for i in range(16)]
    g += [(10, [dict(kind='catalogue', part=i, parts=24, max=70 if q else 130)]) for i in range(24)]
    g += [(6, [dict(kind='trivial', part=i, parts=8, max=40 if q else 100)]) for i in range(8)]
    g += [(4, [dict(kind='large', part=i, parts=16, max=6000 if q else 20000)]) for i in range(16)]
    g += [(3, [dict(kind='huge', part=i, parts=8)]) for i in range(8)]
    g += [(2, [dict(kind='stored', problem=n)]) for n in stored.names()]
    P = [(c, x) for *x, c, states, sols in lib.param_table() if c <= (0.3 if q else 3) and sols]
    g += lib.balance([(c + 0.1, dict(kind='reference', p=x)) for c, x in P], 16)
    return g


def large_families(hi):
    """parameters of well known infinite families of graphs with at most hi vertices, and of their complements"""
    out = set()
    for n in range(5, math.isqrt(2 * hi) + 1): out.add((n * (n - 1) // 2, 2 * (n - 2), n - 2, 4))                    # triangular
    for n in range(2, math.isqrt(hi) + 1):
        for t in range(1, min(n, 9)): out.add((n * n, t * (n - 1), n - 2 + (t - 1) * (t - 2), t * (t - 1)))          # lattice, Latin square
    for s in list(range(2, 40)) + [50, 64, 100, 127, 128, 129, 181, 182, 255, 256, 257, 1000, 1024]:
        for m in list(range(2, 40)) + [64, 100, 128, 129, 181, 182, 256, 257, 1000, 1024]:
            out.add((m * s, s - 1, s - 2, 0))                                                                        # disjoint cliques
    for v in range(5, hi + 1, 4):
        a = math.isqrt(v)
        if a * a == v or all(v % d for d in range(3, a + 1, 2)): out.add((v, (v - 1) // 2, (v - 5) // 4, (v - 1) // 4))   # conference
    for q in (2, 3, 4, 5, 7, 8, 9, 11, 13, 16): out.add(((q + 1) * (q * q + 1), q * (q + 1), q - 1, q + 1))          # generalized quadrangles
    for m in range(2, 9):
        for e in (1, -1): out.add((4 ** m, 2 ** (2 * m - 1) - e * 2 ** (m - 1), 2 ** (2 * m - 2) - e * 2 ** (m - 1), 2 ** (2 * m - 2) - e * 2 ** (m - 1)))   # bent functions
    for v, k, l, u in sorted(out):
        for p in ((v, k, l, u), (v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l)):
            if v <= hi and 1 <= p[1] <= v - 2 and 0 <= p[2] < p[1] and 0 <= p[3] <= p[1]: yield p


def huge_families():
    """parameters with counts beyond 16, 31, 32, 53, 63 and 64 bits; (set, whether the determinant can be written down)"""
    sizes = sorted({b + d for e in (15, 16, 23, 24, 26, 27, 31, 32, 33, 53, 62, 63, 64, 70) for b in (2 ** e,) for d in (-1, 0, 1)} | {10 ** e + d for e in range(5, 22, 2) for d in (0, 7)})
    for s in sizes:
        for m in (2, 3, 6):
            yield (m * s, s - 1, s - 2, 0), True
            yield (m * s, (m - 1) * s, (m - 2) * s, (m - 1) * s), True
            if s < 2 ** 33: yield (m * s, m - 1, m - 2, 0), False
        yield (s * (s - 1) // 2, 2 * (s - 2), s - 2, 4), False
        yield (s * s, 2 * (s - 1), s - 2, 2), False
        yield (s * s, 7 * (s - 1), s - 2 + 30, 42), False
        v = 4 * s + 1
        yield (v, 2 * s, s - 1, s), False
    for m in range(9, 60):
        for e in (1, -1): yield (4 ** m, 2 ** (2 * m - 1) - e * 2 ** (m - 1), 2 ** (2 * m - 2) - e * 2 ** (m - 1), 2 ** (2 * m - 2) - e * 2 ** (m - 1)), False


def spectrum(p):
    """exact: None if no graph can exist, else ('conference', m, D2) or ('integer', [(value, multiplicity)...])"""
    v, k, l, u = p
    D2 = (l - u) ** 2 + 4 * (k - u)
    c = 2 * k + (v - 1) * (l - u)
    if D2 <= 0: return None
    if c == 0:
        return ('conference', (v - 1) // 2, D2) if (v - 1) % 2 == 0 and math.isqrt(D2) ** 2 != D2 else spectrum_int(p, D2, c)
    return spectrum_int(p, D2, c)


def spectrum_int(p, D2, c):
    v, k, l, u = p
    D = math.isqrt(D2)
    if D * D != D2 or (l - u + D) % 2: return None
    if c % D: return None
    f2, g2 = v - 1 - c // D, v - 1 + c // D
    if f2 % 2 or f2 < 0 or g2 < 0: return None
    return 'integer', [(k, 1), ((l - u + D) // 2, f2 // 2), ((l - u - D) // 2, g2 // 2)]


def determinant(p, s):
    v, k, l, u = p
    if s[0] == 'conference': return k * (u - k) ** s[1]
    return math.prod(e ** m for e, m in s[1])


def total(pairs):
    d = {}
    for e, m in pairs: d[e] = d.get(e, 0) + m
    return {e: m for e, m in d.items() if m}


def judge(p, st, det=True):
    from srg import utils
    s = spectrum(p)
    if s is None: return dict(skip=True)
    v, k, l, u = p
    got = [(e, m) for e, m in utils.eig(*p)]
    st.add('evaluations')
    if any(m != int(m) for _, m in got): return dict(what='a multiplicity is not an integer', p=p, got=str(got))
    if s[0] == 'integer':
        if total(got) != total(s[1]): return dict(what='eigenvalues are wrong', p=p, got=str(got), want=s[1])
    else:
        r = math.sqrt(s[2])
        want = sorted([(k, 1), ((l - u + r) / 2, s[1]), ((l - u - r) / 2, s[1])])
        g = sorted(got)
        if len(g) != 3 or any(m != n or abs(e - f) > 1e-9 * max(1, abs(f)) for (e, m), (f, n) in zip(g, want)): return dict(what='eigenvalues are wrong', p=p, got=str(got), want=want)
    mult = s[1] if s[0] == 'integer' else None
    same = s[0] == 'conference' or mult[1][1] == mult[2][1]
    if (utils.conference(*p) == 0) != same: return dict(what='conference quantity is %s but the multiplicities are %s' % (utils.conference(*p), 'equal' if same else 'different'), p=p)
    if not det: return
    d = utils.determinant(*p)
    if d != determinant(p, s) or int(d) != d: return dict(what='determinant is wrong', p=p, got=str(d), want=str(determinant(p, s)))


def exact_det(A):
    """fraction-free elimination over the integers"""
    M = [[int(x) for x in r] for r in A]
    n, sign, prev = len(M), 1, 1
    for i in range(n - 1):
        if M[i][i] == 0:
            j = next((j for j in range(i + 1, n) if M[j][i]), None)
            if j is None: return 0
            M[i], M[j] = M[j], M[i]; sign = -sign
        a = M[i]; d = a[i]
        for j in range(i + 1, n):
            b = M[j]; c = b[i]
            M[j] = [0] * (i + 1) + [(b[t] * d - a[t] * c) // prev for t in range(i + 1, n)]
        prev = d
    return sign * M[-1][-1]


def judge_graph(A, p, st):
    """the computed values against the matrix itself"""
    import numpy as np
    from srg import utils
    v, k, l, u = p
    e = lib.is_srg(A, p)
    if e: return dict(what='harness: no graph of these parameters', p=p, note=e) if False else None
    r = judge(p, st)
    if r and not r.get('skip'): return r
    if r: raise RuntimeError('no spectrum for the parameters of an existing graph %s' % (p,))
    d = exact_det(A)
    if utils.determinant(*p) != d: return dict(what='determinant differs from that of a graph', p=p, got=str(utils.determinant(*p)), want=str(d))
    # every computed eigenvalue with its multiplicity: dimension of the kernel of A - xI over the rationals (floats for conference graphs)
    got = utils.eig(*p)
    B = np.asarray(A, dtype=float)
    val = np.linalg.eigvalsh(B)
    t = {}
    for x, m in got:
        for y in t:
            if abs(x - y) < 1e-6: t[y] += m; break
        else: t[x] = m
    for x, m in t.items():
        if int((abs(val - float(x)) < 1e-6).sum()) != m: return dict(what='multiplicity of eigenvalue %s is not %s in a graph' % (x, m), p=p)
    if sum(t.values()) != v: return dict(what='multiplicities do not add up to v', p=p, got=str(got))
    st.distinct('distinct_nontrivial', str(p))


def evaluate(case, st):
    import numpy as np
    kind = case['kind']
    if kind == 'feasible':
        for p in lib.accepted(4, case['hi']):
            if p[0] % case['parts'] != case['part']: continue
            r = judge(p, st)
            if r and r.get('skip'): st.add('parameter_sets_infeasible'); continue
            if r: return r
            st.distinct('distinct_nontrivial', str(p))
        st.sample(dict(p=p), 1)
    elif kind == 'large':
        for i, p in enumerate(large_families(case['max'])):
            if i % case['parts'] != case['part']: continue
            if spectrum(p) is None: raise RuntimeError('no spectrum for %s' % (p,))
            r = judge(p, st)
            if r: return r
            st.add('large_parameter_sets'); st.distinct('distinct_nontrivial', str(p))
        st.sample(dict(large=p), 1)
    elif kind == 'huge':
        for i, (p, det) in enumerate(huge_families()):
            if i % case['parts'] != case['part'] or spectrum(p) is None: continue
            r = judge(p, st, det)
            if r: return r
            st.add('huge_parameter_sets'); st.distinct('distinct_nontrivial', str(p))
    elif kind == 'catalogue':
        import families
        for i, (name, A) in enumerate(families.catalogue().items()):
            if i % case['parts'] != case['part'] or len(A) > case['max']: continue
            r = judge_graph(A, tuple(int(x) for x in families.params_of(A)), st)
            if r: return r
    elif kind == 'trivial':
        import families
        for m in range(2, case['max']):
            for s in range(2, case['max'] // m + 1):
                if (m + s) % case['parts'] != case['part']: continue
                for A in (families.cliques(m, s), families.multipartite(m, s)):
                    r = judge_graph(A, tuple(int(x) for x in families.params_of(A)), st)
                    if r: return r
    elif kind == 'stored':
        for A in list(stored.solutions(case['problem']))[:8]:
            r = judge_graph(np.array(A), stored.numbers(case['problem']), st)
            if r: return r
    else:
        p = tuple(case['p'])
        for b in lib.ref_solve(p)[0][:40]:
            r = judge_graph(lib.to_mat(b, p[0]), p, st)
            if r: return r


def meta(tier, st):
    return dict(rule='all accepted parameter sets with v<260 (2000) whose multiplicities are non-negative integers (any graph with these parameters has exactly this spectrum), members of infinite families with counts around 16 to 70 bits, and explicit graphs: exact determinant by integer elimination, multiplicities by eigenvalue counting',
                assumptions=['floating point eigenvalues of explicit graphs are accurate to 1e-6; those of conference parameter sets are compared to 1e-9'])
