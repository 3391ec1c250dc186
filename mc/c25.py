"""Every accepted parameter set within a bound through the command line; the printed text against the reference model."""
import os, shutil, itertools, tempfile
import lib, cli, search
PROPERTY, LEVEL, LIMIT = 'C25', 'exploration', 700
BIG = [(36, 10, 4, 2), (32, 16, 0, 16), (32, 1, 0, 0), (33, 22, 11, 22), (40, 20, 0, 20), (64, 1, 0, 0), (64, 62, 60, 62), (50, 25, 0, 25), (66, 33, 0, 33), (36, 32, 28, 32)]

HUGE = [(110, 55, 0, 55), (131, 2, 1, 0), (150, 147, 144, 147), (200, 100, 0, 100), (256, 128, 0, 128), (290, 144, 143, 0), (400, 200, 0, 200), (421, 2, 1, 0)]


def fits(p):
    v, k, l, u = p
    return (v - k - 1) * u == k * (k - l - 1) and 0 <= l < k < v - 1


def groups(tier):
    q = tier == 'quick'
    P = [(c, tuple(x)) for *x, c, states, sols in lib.param_table() if c <= (0.3 if q else 20)]
    P += [(0.3, p) for p in BIG if fits(p)]
    P += [(1.5, p) for p in HUGE[:5 if q else 8] if fits(p)]
    P += [(0.3, p) for p in search.big_families((66, 72, 96) if q else range(66, 129))]
    P += [(0.01, p) for p in search.degenerate_params('quick')]
    seen, items = set(), []
    for c, p in sorted(P):
        if p not in seen: seen.add(p); items.append((2 * c + 0.02, dict(kind='here', p=list(p))))
    g = lib.balance(items, 48)
    sub = [p for c, p in sorted(P) if p[0] <= (10 if q else 16)] + [(15, 6, 1, 3), (16, 9, 4, 6), (17, 8, 3, 4), (21, 10, 6, 4)] + [p for p in BIG[:8] if fits(p)]
    sub = [p for p in dict.fromkeys(sub) if fits(p)]
    g += lib.balance([(1, dict(kind='process', p=list(p))) for p in sub], 24)
    rej = [p for p in itertools.product(range(0, 8 if q else 12), repeat=4) if (p[0] - p[1] - 1) * p[3] != p[1] * (p[1] - p[2] - 1)]
    for c, p in P:
        if 13 <= p[0] <= 36: rej += [(p[0] + 1, *p[1:]), (p[0], p[1], p[2], p[3] + 1), (p[0], p[1], p[2] + 1, p[3]), (p[0], p[1] + 1, *p[2:])]
    rej = [p for p in dict.fromkeys(rej) if (p[0] - p[1] - 1) * p[3] != p[1] * (p[1] - p[2] - 1)]
    g += [(4, [dict(kind='rejected_here', part=i, parts=16, sets=[list(p) for p in rej[i::16]])]) for i in range(16)]
    g += lib.balance([(1, dict(kind='rejected_process', p=list(p))) for p in rej[::len(rej) // (24 if q else 200)]], 12)
    return g


def judge(p, status, out, err, st):
    v = p[0]
    if status != 0: return dict(what='ends with status %s on an accepted parameter set: %s' % (status, err[-300:]), p=p)
    got = cli.matrices(out, v)
    want = sorted(lib.ref_solve(p)[0], key=lambda b: lib.upper(lib.to_mat(b, v).tolist())) if p[3] <= p[1] else []
    if got is None: return dict(what='the results are not printed as whole matrices', p=p, output=out[-400:])
    st.add('printed_matrices', len(got)); st.add('evaluations')
    if got != want:
        if len(got) != len(set(got)): t = 'a result is printed twice'
        elif sorted(got) == sorted(want): t = 'the results are not in ascending order'
        else: t = 'printed %d results, the search has %d' % (len(got), len(want))
        return dict(what=t, p=p, printed=got[:3], expected=want[:3])
    if len(want) > 1: st.add('distinct_nontrivial')
    if want: st.sample(dict(p=p, printed=len(want)), 1)


def evaluate(case, st):
    kind = case['kind']
    if kind == 'here':
        return judge(tuple(case['p']), *cli.run_here('srg', case['p']), st)
    if kind == 'rejected_here':
        for p in case['sets']:
            status, out, err = cli.run_here('srg', p)
            st.add('rejections')
            if status == 0: return dict(what='a rejected parameter set ends normally', p=p)
            if cli.some_rows(out): return dict(what='a rejected parameter set prints a result', p=p, output=out[-300:])
        return
    d = cli.copy_sources()
    try:
        w = tempfile.mkdtemp(dir=d)
        status, out, err = cli.run(d, ["-m", "srg", *map(str, case["p"])], w, timeout=600)
    finally:
        shutil.rmtree(d)
    st.add('processes')
    if kind == 'process': return judge(tuple(case['p']), status, out, err, st)
    if status == 0: return dict(what='a rejected parameter set ends normally', p=case['p'])
    if cli.some_rows(out): return dict(what='a rejected parameter set prints a result', p=case['p'], output=out[-300:])


def meta(tier, st):
    return dict(rule='the command line run (in this process, and a part of them in a process of its own) on all accepted parameter sets within the cost bound, up to 96 (128) vertices and a few with 110 to 256 (421), and on all rejected quadruples below 8 (12) and neighbours of accepted ones; '
                     'non-trivial: at least two results', assumptions=['the reference model lists all results (C02)'])
