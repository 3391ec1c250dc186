"""Every command of the database command line on every stored problem, and rejected inputs."""
import os, sys, shutil, itertools, tempfile
import lib, cli, stored
PROPERTY, LEVEL, LIMIT = 'C26', 'exploration', 700
WORDS = ['lst', 'show', 'LIST', 'list ', 'drawn', '', 'help', 'remove']

NAMES = dict(rejected='a rejected parameter set', unstored='a parameter set of no stored problem', unknown='an unknown command')


def groups(tier):
    q = tier == 'quick'
    g = [(3, [dict(kind='listing', args=a)]) for a in ([], ['list'])]
    for n in stored.names():
        big = '28_12' in n
        g.append((20 if big else 2, [dict(kind='list', problem=n)]))
        g.append((40 if big else 4, [dict(kind='draw', problem=n)]))
    names = stored.names()
    rej = [p for p in itertools.product(range(0, 6 if q else 9), repeat=4) if (p[0] - p[1] - 1) * p[3] != p[1] * (p[1] - p[2] - 1)]
    for n in names:
        p = stored.numbers(n)
        rej += [x for x in ((p[0] + 1, *p[1:]), (p[0], p[1], p[2], p[3] + 1), (p[0], p[1], p[2] + 1, p[3]), (p[0], p[1] + 1, *p[2:])) if (x[0] - x[1] - 1) * x[3] != x[1] * (x[1] - x[2] - 1)]
    for c in ('list', 'draw'):
        g += [(3, [dict(kind='rejected', command=c, sets=[list(p) for p in rej[i::8]])]) for i in range(8)]
        g += lib.balance([(1, dict(kind='rejected_process', command=c, p=list(p))) for p in rej[::len(rej) // (8 if q else 60)]], 6)
    g += [(3, [dict(kind='unknown', problem=n)]) for n in names]
    other = [list(p) for p in lib.accepted(3, 40 if q else 80) if p not in {tuple(stored.numbers(n)) for n in names}]
    for c in ('list', 'draw'):
        g += [(3, [dict(kind='unstored', command=c, sets=other[i::4])]) for i in range(4)]
        g += lib.balance([(1, dict(kind='unstored_process', command=c, p=list(p))) for p in other[::len(other) // (6 if q else 40)]], 6)
    g += lib.balance([(1, dict(kind='unknown_process', command=w, problem=names[0])) for w in WORDS[:3 if q else None]], 4)
    return g


def evaluate(case, st):
    kind = case['kind']
    names = stored.names()
    if kind in ('rejected', 'unknown', 'unstored'):
        if kind != 'unknown': todo = [(case['command'], p) for p in case['sets']]
        else: todo = [(w, stored.numbers(case['problem'])) for w in WORDS]
        here, w = os.getcwd(), tempfile.mkdtemp(prefix='mcdb')
        os.chdir(w)
        try:
            for c, p in todo:
                for m in [m for m in sys.modules if m.startswith('srg.database.__main__')]: del sys.modules[m]
                status, out, err = cli.run_here('srg.database', [c, *p])
                st.add('rejections')
                if status == 0: return dict(what='%s ends normally' % NAMES[kind], args=[c, *p], output=out[-300:])
                if os.listdir(w): return dict(what='files were written', args=[c, *p], files=os.listdir(w))
        finally:
            os.chdir(here); shutil.rmtree(w)
        return
    d = cli.copy_sources()
    try:
        w = tempfile.mkdtemp(dir=d)
        db = os.path.join(d, 'srg', 'database')
        before = sorted(os.listdir(db))
        if kind == 'listing': args = case['args']
        elif kind in ('list', 'draw'): args = [kind, *stored.numbers(case['problem'])]
        elif kind in ('rejected_process', 'unstored_process'): args = [case['command'], *case['p']]
        else: args = [case['command'], *stored.numbers(case['problem'])]
        status, out, err = cli.run(d, ['-m', 'srg.database', *map(str, args)], w)
        files = sorted(os.listdir(w))
        after = sorted(x for x in os.listdir(db) if x != '__pycache__')
        png = {f: open(os.path.join(w, f), 'rb').read(8) for f in files}
    finally:
        shutil.rmtree(d)
    st.add('processes'); st.add('evaluations')
    if after != before: return dict(what='the stored problems were changed', args=args)
    if kind.endswith('_process'):
        if status == 0: return dict(what='%s ends normally' % NAMES[kind[:-8]], args=args, output=out[-300:])
        if files: return dict(what='files were written', args=args, files=files)
        return
    if status != 0: return dict(what='ends with status %s: %s' % (status, err[-300:]), args=args)
    st.add('distinct_nontrivial')
    if kind == 'listing':
        import re
        got = re.findall(r'problem(?:_\d+){4}', out)
        if sorted(got) != names: return dict(what='the listing does not name exactly the stored problems', missing=sorted(set(names) - set(got)), extra=sorted(set(got) - set(names)))
        if files: return dict(what='files were written', files=files)
        return
    S = [lib.bits_of(m) for m in stored.solutions(case['problem'])]
    p = stored.numbers(case['problem'])
    if kind == 'list':
        got = cli.matrices(out, p[0])
        if got is None: return dict(what='the solutions are not printed as whole matrices', args=args, output=out[-300:])
        if got != S: return dict(what='printed %d solutions, %d are stored' % (len(got), len(S)), args=args, missing=sorted(set(S) - set(got))[:1], same_but_reordered=sorted(got) == sorted(S))
        if files: return dict(what='files were written', files=files)
        st.add('printed_matrices', len(got))
    else:
        want = sorted('srg_%d_%d_%d_%d_%d.png' % (*p, i) for i in range(len(S)))
        if files != want: return dict(what='pictures written are not one per stored solution', args=args, missing=sorted(set(want) - set(files))[:4], extra=sorted(set(files) - set(want))[:4])
        if any(b != b'\x89PNG\r\n\x1a\n' for b in png.values()): return dict(what='a picture is not a PNG file', args=args)
        st.add('pictures', len(files))
    st.sample(dict(args=args), 1)


def meta(tier, st):
    return dict(rule='list and draw on every stored problem in a process of its own, the listing with and without the command, all rejected quadruples below 6 (9) and neighbours of stored ones, accepted sets below 40 (80) that are not stored, unknown commands on every problem')
