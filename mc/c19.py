"""Every stored matrix, read through the package, judged by the definition and replayed as a path of the reference transition system."""
import lib, stored
PROPERTY, LEVEL, LIMIT = 'C19', 'exploration', 600


def groups(tier):
    return [(5 if '28_12' in n else 1, [dict(problem=n)]) for n in stored.names()]


def evaluate(case, st):
    import numpy as np
    name = case['problem']
    p = stored.numbers(name)
    if len(p) != 4: return dict(what='a problem is not named by four numbers', problem=name)
    v, k, l, u = p
    if (v - k - 1) * u != k * (k - l - 1): return dict(what='the parameters of a stored problem do not satisfy the counting identity', problem=name)
    m = stored.module(name)
    for x, want in zip('vklu', p):
        if hasattr(m, x) and getattr(m, x) != want: return dict(what='recorded parameter %s=%s differs from the name' % (x, getattr(m, x)), problem=name)
    S = stored.solutions(name)
    st.add('problems')
    seen = {}
    for i, A in enumerate(S):
        A = np.asarray(A)
        e = lib.is_srg(A, p)
        if e: return dict(what='stored matrix is not strongly regular: ' + e, problem=name, index=i)
        e = lib.canonical_form_error(A)
        if e: return dict(what='stored matrix is not in canonical labelling: ' + e, problem=name, index=i)
        b = lib.bits_of(A)
        if b in seen: return dict(what='matrix stored twice', problem=name, first=seen[b], second=i)
        seen[b] = i
        st.add('evaluations'); st.distinct('distinct_nontrivial', b)
        # the stored matrix is a path of the reference transition system: its every row is a successor of the rows above
        if i < (3 if v > 20 else 50):
            rows = range(2, v)
            R = lib.ref_rows(p, [b[:r * v] for r in rows], 400000)
            for r, out in zip(rows, R):
                if out is None: st.add('rows_beyond_cap'); continue
                st.add('transitions')
                if b[r * v:(r + 1) * v] not in out: return dict(what='stored matrix is no path of the search: row %d' % r, problem=name, index=i)
    if S: st.sample(dict(problem=name, n=len(S), first=lib.bits_of(S[0])), 1)


def meta(tier, st):
    return dict(rule='all stored matrices of all problems; the first 50 (3 for more than 20 vertices) of each are also replayed row by row in the reference transition system')
