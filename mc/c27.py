"""The same fixed workload under every way of running the package, compared item by item with the plain
interpreted run (whose searches C01 and C02 compare with the reference model)."""
import os, sys, json, shutil, subprocess, tempfile, glob
import lib, cli, search, graphs, stored
PROPERTY, LEVEL, LIMIT = 'C27', 'exploration', 840
SEEDS = ['0', '1', '2', '7', '42', '12345', '4294967295', 'random']
HERE = os.path.dirname(os.path.abspath(__file__))


def sets(tier, budget):
    P = [(c, tuple(x)) for *x, c, states, sols in lib.param_table() if c <= budget]
    out = [list(p) for c, p in sorted(P)]
    q = tier == 'quick'
    if q: out = [p for i, p in enumerate(out) if i % 3 == 0 or p[0] <= 12]
    return out + [[66, 33, 0, 33], [66, 1, 0, 0], [72, 60, 48, 60], [128, 64, 0, 64], [16, 9, 4, 6], [17, 8, 3, 4], [22, 9, 4, 3], [15, 8, 4, 4], [64, 1, 0, 0], [96, 3, 2, 0]] + ([] if q else [[130, 1, 0, 0], [21, 10, 6, 4]]) + [list(p) for p in search.degenerate_params('quick')[::6]]


def groups(tier):
    q = tier == 'quick'
    ways = [dict(flags=f, seed=s) for f in ([], ['-O'], ['-OO']) for s in (SEEDS[:3] if q else SEEDS) if f or s != '0'] + [dict(flags=['-O'], seed=SEEDS[6])]
    b = 0.05 if q else 2
    n = 7 if q else 32
    g = [(20, [dict(kind='way', tier=tier, budget=b, **w) for w in ways[i::n]]) for i in range(n) if ways[i::n]]
    g += [(100, [dict(kind='compiled', tier=tier, budget=b, flags=f)]) for f in ([[]] if q else [[], ['-O']])]
    return g


def workload(case, src, ext=False):
    import families
    S = sets(case['tier'], case['budget'])
    G = [(n, lib.bits_of(graphs.matrix(m, n))) for n in (3, 4) for m in range(1 << (n * (n - 1) // 2))]
    G += [(6, lib.bits_of(graphs.matrix(m * 31, 6))) for m in range(0, 1057, 8)]
    G += [(len(A), lib.bits_of(A)) for nm, A in families.catalogue().items() if len(A) <= 20]
    return json.dumps([src, S, G, stored.names(), ext]), S


def parse(out):
    r = [json.loads(x) for x in out.split('\n') if x[:1] in '["' and x]
    if not r or r[-1] != 'end': return None
    return dict(r[:-1])


PLAIN = {}


def plain_run(case, src, w, st):
    """the interpreted run everything is compared with; once per process"""
    key = json.dumps(json.loads(w)[1:])
    if key not in PLAIN:
        status, out, err = cli.run(src, [os.path.join(HERE, 'runsets.py'), w], src, env=dict(PYTHONHASHSEED='0'), timeout=600)
        PLAIN[key] = parse(out) if status == 0 else None
    return PLAIN[key]


def evaluate(case, st):
    src = cli.copy_sources('mcway')
    try:
        w, S = workload(case, src)
        plain = plain_run(case, src, w, st)
        if plain is None: st.note('the plain interpreted run gave no answer; nothing to compare with'); st.add('ways_beyond_cap'); return
        way = ' '.join(['python', *case['flags']]) + (' with hash seed %s' % case['seed'] if 'seed' in case else ', compiled')
        if case['kind'] == 'compiled':
            r = compile_package(src, st)
            if r: return r if 'what' in r else None
            w, S = workload(case, src, True)
        env = dict(PYTHONHASHSEED=case['seed']) if 'seed' in case else {}
        status, out, err = cli.run(src, [os.path.join(HERE, 'runsets.py'), w], src, flags=case['flags'], env=env, timeout=600)
        d = parse(out)
        if status or d is None: return dict(what='%s ends with status %s' % (way, status), stderr=err[-600:])
        if case['kind'] == 'compiled':
            ext = d.pop('extension')
            if not ext: st.note('no compiled module was used'); st.add('modules_beyond_cap')
            else: st.add('compiled_modules_used', len(ext))
        if set(d) != set(plain): return dict(what='%s: different answers given' % way)
        for k in plain:
            st.add('evaluations')
            if d[k] != plain[k]: return dict(what='%s differs from the interpreted run on %s' % (way, k[:200]), got=str(d[k])[:400], want=str(plain[k])[:400])
        st.add('distinct_nontrivial', len(plain)); st.add('ways')
        st.sample(dict(way=way, items=len(plain)), 1)
    finally:
        shutil.rmtree(src)


def compile_package(src, st):
    """runs the repository's own cythonize.sh in the private copy; {} if the tools cannot compile at all"""
    for f in ('cythonize.sh', 'uncythonize.sh', 'setup.py', 'README.md'):
        if os.path.exists(os.path.join(lib.REPO, f)): shutil.copy(os.path.join(lib.REPO, f), src)
    if not os.path.exists(os.path.join(src, 'cythonize.sh')): st.note('no cythonize.sh'); return {}
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PATH=os.path.dirname(sys.executable) + ':' + env.get('PATH', ''), CFLAGS='-O0', HOME=src)
    try: r = subprocess.run(['bash', 'cythonize.sh'], cwd=src, env=env, capture_output=True, text=True, timeout=600, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: st.note('compilation timed out'); return {}
    so = glob.glob(os.path.join(src, 'srg', '*.so'))
    if so: return None
    # can this machine compile any module?
    t = tempfile.mkdtemp(dir=src)
    open(os.path.join(t, 'a.pyx'), 'w').write('def f(x): return x\n')
    open(os.path.join(t, 'setup.py'), 'w').write("from distutils.core import setup\nfrom Cython.Build import cythonize\nsetup(name='a', ext_modules=cythonize('a.pyx'))\n")
    subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace'], cwd=t, env=env, capture_output=True, timeout=600)
    if not glob.glob(os.path.join(t, '*.so')): st.note('no working compiler for extension modules'); return {}
    return dict(what='cythonize.sh does not compile the package', stdout=r.stdout[-300:], stderr=r.stderr[-1200:])


def meta(tier, st):
    return dict(rule='a fixed workload (searches, spectra, complements, maximize, sort, database) repeated under -O and -OO, several hash seeds, and compiled by cythonize.sh, each in a process of its own', assumptions=['extension modules are compiled without C optimization (CFLAGS=-O0)'])
