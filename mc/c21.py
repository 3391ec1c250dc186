"""Histories of database operations (all sequences up to a depth from a fresh state, all subsets of stored files), all names, and
every picture judged by what is drawn in it."""
import os, sys, itertools, shutil, tempfile, importlib
import lib, stored
PROPERTY, LEVEL, LIMIT = 'C21', 'model_checking', 700

SMALL = ['problem_4_2_0_2', 'problem_5_2_0_1', 'problem_10_3_0_1', 'problem_10_6_3_4', 'problem_12_6_0_6', 'problem_13_6_2_3', 'problem_21_10_4_5']


def groups(tier):
    q = tier == 'quick'
    g = [(20, [dict(kind='histories', depth=3 if q else 5, first=i)]) for i in range(len(SMALL) + 1)]
    g += [(10, [dict(kind='long', start=i)]) for i in range(4)]
    g += [(5, [dict(kind='subsets', add=a)]) for a in (0, 1)]
    g += [(5, [dict(kind='names')])]
    for n in stored.names(): g.append((60 if '28_12' in n else 2, [dict(kind='draw', problem=n)]))
    N = [(3, 0, 4, 0), (4, 0, 64, 0)] + [(5, i, 1024, 64) for i in range(0, 64, 4 if q else 1)]
    for n, a, b, step in N: g.append((8, [dict(kind='draw_graphs', n=n, start=a if n == 5 else 0, stop=1 << (n * (n - 1) // 2), step=step or 1)]))
    g.append((6, [dict(kind='draw_histories', depth=2 if q else 3)]))
    return g


def file_solutions(path):
    """what a problem file defines, by executing it on its own"""
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    return ns['solutions']


def same(a, b):
    import numpy as np
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def fresh():
    for m in [m for m in sys.modules if m == 'srg' or m.startswith('srg.')]: del sys.modules[m]
    importlib.invalidate_caches()


class Scratch:
    """a private copy of the package whose database can be changed"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mcdb')
        shutil.copytree(os.path.join(lib.REPO, 'srg'), os.path.join(self.d, 'srg'), ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.c', '*.pyx'))
        self.db = os.path.join(self.d, 'srg', 'database')
        self.keep = lib.REPO
        lib.REPO = self.d
        lib.use_repo(self.d)
        fresh()
        return self
    def __exit__(self, *a):
        sys.meta_path.pop(0); sys.path.pop(0)
        if self.keep not in sys.path: sys.path.insert(0, self.keep)
        lib.REPO = self.keep
        fresh()
        shutil.rmtree(self.d)


def listing(db, want):
    got = db.list_problems()
    if sorted(got) != sorted(want): return dict(what='the listing does not name exactly the stored problems', missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)), repeated=len(got) - len(set(got)))


def lookup(db, name, want):
    p = db.extract_vklu(name)
    if [int(x) for x in p] != list(stored.numbers(name)): return dict(what='decoding %s gives %s' % (name, p))
    if not same(db.get_solutions(*p), want): return dict(what='looking up %s does not give the solutions of its file' % name)


LEFT = []       # figures left open by the latest drawings


def capture_draw(db, p):
    """-> list of (file name, figure description) in the order of saving; runs in the current directory"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.figure as mf, matplotlib.pyplot as plt
    out = []
    real = mf.Figure.savefig
    def savefig(self, fname, *a, **k):
        out.append((os.fspath(fname), describe(self)))
        return real(self, fname, *a, **k)
    mf.Figure.savefig = savefig
    before = plt.get_fignums()
    try:
        with lib.quiet(): db.draw(*p)
        left = [x for x in plt.get_fignums() if x not in before]
    finally:
        mf.Figure.savefig = real
        plt.close('all')
    LEFT.append(len(left))
    return out


def describe(fig):
    """labels and edges shown in a figure: ({label: number of nodes drawn there}, sorted list of label pairs)"""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch
    import numpy as np
    texts, nodes, segs = [], [], []
    for ax in fig.axes:
        for t in ax.texts: texts.append((tuple(t.get_position()), t.get_text()))
        for c in ax.collections:
            if isinstance(c, LineCollection):
                for s in c.get_segments(): segs.append((tuple(s[0]), tuple(s[-1])))
            elif isinstance(c, PathCollection):
                nodes += [tuple(x) for x in np.asarray(c.get_offsets())]
        for l in ax.lines:
            xy = l.get_xydata()
            for a, b in zip(xy, xy[1:]): segs.append((tuple(a), tuple(b)))
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch) and getattr(p, '_posA_posB', None): segs.append(tuple(map(tuple, p._posA_posB)))
    def name(xy):
        best = min(texts, key=lambda t: (t[0][0] - xy[0]) ** 2 + (t[0][1] - xy[1]) ** 2, default=None)
        if best is None or (best[0][0] - xy[0]) ** 2 + (best[0][1] - xy[1]) ** 2 > 1e-10: return '?'
        return best[1]
    return sorted(t for _, t in texts), sorted(name(x) for x in nodes), sorted(tuple(sorted((name(a), name(b)))) for a, b in segs)


def judge_draw(db, name, S, st):
    """in an empty scratch directory"""
    import numpy as np
    p = stored.numbers(name)
    keep = [np.array(x) for x in S]
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='mcdraw')
    os.chdir(d)
    try:
        shown = capture_draw(db, p)
        if LEFT.pop(): return dict(what='figures are left open', problem=name)
        files = sorted(os.listdir(d))
        want = ['srg_%d_%d_%d_%d_%d.png' % (*p, i) for i in range(len(S))]
        if files != sorted(want): return dict(what='pictures written are not one per stored solution', problem=name, missing=sorted(set(want) - set(files))[:4], extra=sorted(set(files) - set(want))[:4])
        for f in files:
            with open(f, 'rb') as h: b = h.read()
            if b[:8] != b'\x89PNG\r\n\x1a\n' or b[-8:-4] != b'IEND': return dict(what='%s is not a PNG file' % f)
            from matplotlib import image
            a = image.imread(f)
            if a.ndim < 2 or a.min() == a.max(): return dict(what='%s is blank' % f)
        last = {os.path.basename(f): fig for f, fig in shown}       # what a file holds in the end
        for i, w in enumerate(want):
            if w not in last: st.note('figure of %s not observed' % w); continue
            texts, nodes, edges = last[w]
            A = keep[i]; v = len(A)
            lab = sorted(str(x) for x in range(v))
            if sorted(set(texts)) != sorted(lab): return dict(what='%s does not label every vertex' % w, labels=texts[:10])
            if sorted(set(nodes)) != lab: return dict(what='%s does not show every vertex at its label' % w, nodes=nodes[:10])
            e = sorted(tuple(sorted((str(r), str(c)))) for r in range(v) for c in range(r) if A[r, c])
            if sorted(set(edges)) != e: return dict(what='%s does not show exactly the edges of the solution' % w, missing=sorted(set(e) - set(edges))[:4], extra=sorted(set(edges) - set(e))[:4])
            st.add('pictures')
        if not same(db.get_solutions(*p), keep): return dict(what='drawing changed the stored solutions', problem=name)
    finally:
        os.chdir(here); shutil.rmtree(d)


def evaluate(case, st):
    kind = case['kind']
    names = stored.names()
    base = os.path.join(lib.REPO, 'srg', 'database')
    if kind in ('histories', 'long'):
        some = SMALL if kind == 'histories' else names
        some = [n for n in some if n in names]
        want = {n: file_solutions(os.path.join(base, n + '.py')) for n in some}
    if kind == 'histories':
        ops = ['list'] + some
        if case['first'] >= len(ops): return
        for d in range(1, case['depth'] + 1):
            for rest in itertools.product(range(len(ops)), repeat=d - 1):
                fresh()
                from srg import database as db
                for o in (case['first'],) + rest:
                    v = listing(db, names) if o == 0 else lookup(db, ops[o], want[ops[o]])
                    st.add('transitions')
                    if v: return dict(v, history=[ops[x] for x in (case['first'],) + rest])
                st.add('states')
        st.sample(dict(first=ops[case['first']], depth=case['depth']), 1)
    elif kind == 'long':
        fresh()
        from srg import database as db
        i = case['start']
        for order in (some[i:] + some[:i], (some[i:] + some[:i])[::-1], some[i % 2::2] + some[(i + 1) % 2::2]):
            for a, b in [(a, b) for a in order for b in order[:1 + i]]:
                for n in (a, b, a):
                    v = lookup(db, n, want[n]); st.add('transitions')
                    if v: return dict(v, after=[a, b])
            v = listing(db, names)
            if v: return v
            st.add('states')
    elif kind == 'subsets':
        with Scratch() as s:
            text = {n: open(os.path.join(s.db, n + '.py')).read() for n in SMALL if n in names}
            for n in names: os.remove(os.path.join(s.db, n + '.py'))
            if case['add']:        # files of other names beside the problems
                open(os.path.join(s.db, 'helper.py'), 'w').write('x = 1\n'); open(os.path.join(s.db, 'notes.txt'), 'w').write('problem\n')
            text['problem_100_50_7_1000'] = 'from numpy import array\nsolutions = [array([[0, 1], [1, 0]])]\n'
            names2 = sorted(text)
            for k in range(len(names2) + 1):
                for sub in itertools.combinations(names2, k):
                    for n in sub: open(os.path.join(s.db, n + '.py'), 'w').write(text[n])
                    fresh()
                    from srg import database as db
                    v = listing(db, sub)
                    for n in sub:
                        v = v or lookup(db, n, file_solutions(os.path.join(s.db, n + '.py'))); st.add('transitions')
                    for n in sub: os.remove(os.path.join(s.db, n + '.py'))
                    if v: return dict(v, stored=sub)
                    st.add('states')
    elif kind == 'names':
        from srg import database as db
        V = list(range(0, 13)) + [28, 99, 100, 127, 128, 1000]
        for p in itertools.product(V, repeat=4):
            got = db.extract_vklu('problem_%d_%d_%d_%d' % p)
            st.add('evaluations')
            if len(got) != 4 or any(int(a) != b or not isinstance(a, int) for a, b in zip(got, p)): return dict(what='decoding problem_%d_%d_%d_%d gives %s' % (*p, got))
        st.add('states', len(V) ** 4)
    elif kind == 'draw':
        from srg import database as db
        v = judge_draw(db, case['problem'], stored.solutions(case['problem']), st)
        st.add('transitions')
        return v
    elif kind == 'draw_graphs':
        # a database holding arbitrary graphs
        import graphs
        with Scratch() as s:
            n = case['n']
            M = [graphs.matrix(m, n, 'int64') for m in range(case['start'], case['stop'], case['step'])]
            nm = 'problem_%d_0_0_0' % n
            with open(os.path.join(s.db, nm + '.py'), 'w') as h:
                h.write('from numpy import array\nsolutions = [%s]\n' % ', '.join('array(%s)' % m.tolist() for m in M))
            fresh()
            from srg import database as db
            v = judge_draw(db, nm, M, st)
            st.add('transitions'); st.add('states', len(M))
            return v
    elif kind == 'draw_histories':
        # pictures do not depend on what was drawn or looked up before
        ops = [n for n in SMALL[:4] if n in names]
        want = {n: file_solutions(os.path.join(base, n + '.py')) for n in ops}
        for h in itertools.product(range(len(ops)), repeat=case['depth']):
            fresh()
            from srg import database as db
            for o in h:
                v = judge_draw(db, ops[o], want[ops[o]], st)
                st.add('transitions')
                if v: return dict(v, history=[ops[x] for x in h])
            st.add('states')


def meta(tier, st):
    return dict(rule='all sequences of list/lookup operations over 7 problems up to depth 3 (5 thorough) from a fresh process state, all 256 subsets of 8 problem files as the stored database, all names with numbers from 19 values, '
                     'every stored solution drawn, all graphs on 3 and 4 vertices and a sixteenth (thorough: all) of those on 5 drawn, all draw sequences of depth 2 (3) over 4 problems',
                traces_validated_against_impl=st.n.get('transitions', 0),
                assumptions=['matplotlib and networkx render what their artists describe; figures are read when they are saved'])
