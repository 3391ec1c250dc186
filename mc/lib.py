"""Shared machinery: locating the code under test, the reference model, the case runner, evidence.

A check module defines
    PROPERTY   property id
    LEVEL      evidence level
    groups(tier)        -> list of (weight, [case, ...]); a case is a JSON-able dict
    evaluate(case, st)  -> None, or a dict describing the violation; st (Stats) collects what was covered
    meta(tier, st)      -> dict with extra coverage fields / assumptions
A group runs in one freshly forked process, its cases in order, so that a run is reproducible: nothing a case leaves behind in
the process depends on how the operating system spread the work.
"""
import sys, os, json, time, signal, subprocess, hashlib, traceback, multiprocessing, multiprocessing.connection, tempfile, shutil, io, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = int(os.environ.get('MC_PROCS', str(os.cpu_count() or 4)))

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ['MPLBACKEND'] = 'Agg'


def use_repo(path=None):
    """import srg from the source files of the repository (never from an installed or stale compiled copy)"""
    path = path or REPO
    sys.path[:] = [p for p in sys.path if p not in ('', path)]
    sys.path.insert(0, path)
    import importlib.machinery
    # cythonize.sh leaves extension modules beside the sources; prefer the .py files without touching the tree
    class Finder:
        @staticmethod
        def find_spec(name, search=None, target=None):
            if not (name == 'srg' or name.startswith('srg.')): return None
            parts = name.split('.')
            base = os.path.join(path, *parts)
            if os.path.isdir(base):
                f = os.path.join(base, '__init__.py')
                loader = importlib.machinery.SourceFileLoader(name, f)
                return importlib.util.spec_from_file_location(name, f, loader=loader, submodule_search_locations=[base])
            f = base + '.py'
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.SourceFileLoader(name, f))
            return None
    import importlib.util
    sys.meta_path.insert(0, Finder)


# ---------------------------------------------------------------- reference model
_ref = None


def ref_binary():
    """compiles ref/ref.cpp once per content"""
    global _ref
    if _ref: return _ref
    src = os.path.join(VERIF, 'ref', 'ref.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'mcbuild')):
        try:
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, 'ref-' + h)
            if not os.path.exists(out):
                tmp = out + '.%d' % os.getpid()
                subprocess.run(['g++', '-O2', '-o', tmp, src], check=True)
                os.rename(tmp, out)
            _ref = out
            return out
        except OSError:
            continue
    raise RuntimeError('cannot build the reference model')


class RefCapped(Exception):
    pass


def ref_solve(p, cap=None, seconds=None):
    """-> (list of solutions as v*v bit strings, states, transitions)"""
    a = [ref_binary(), 'solve', *map(str, p)] + ([str(cap)] if cap else [])
    try: o = subprocess.run(a, capture_output=True, text=True, check=True, timeout=seconds).stdout.split('\n')
    except subprocess.TimeoutExpired: raise RefCapped(p)
    sols = [x[2:] for x in o if x.startswith('M ')]
    f = dict(t.split('=') for t in [x for x in o if x.startswith('# ')][0].split() if '=' in t)
    if f['capped'] == '1': raise RefCapped(p)
    return sols, int(f['states']), int(f['transitions'])


def ref_levels(p, maxlevel=999, maxper=-1, beam=False):
    """-> ([(state bits, [row bits...])], capped); a level of more than maxper states ends the exploration, or is thinned (beam)"""
    o = subprocess.run([ref_binary(), 'levels', *map(str, p), str(maxlevel), str(maxper)] + (['beam'] if beam else []), capture_output=True, text=True, check=True).stdout.split('\n')
    st = []
    for x in o:
        if x.startswith('S '): st.append((x[2:], []))
        elif x.startswith('N '): st[-1][1].append(x[2:])
    return st, any(x.startswith('# capped=1') for x in o)


def ref_rows(p, states, maxnodes=-1):
    """rows for given partial matrices (bit strings); None where the node cap was hit"""
    v, k, l, u = p
    inp = ''.join('%d %d %d %d %d %s\n' % (v, l, u, k, len(s) // v, s) for s in states)
    o = subprocess.run([ref_binary(), 'rows', str(maxnodes)], input=inp, capture_output=True, text=True, check=True).stdout.split('\n')
    res, i = [], 0
    while i < len(o) and o[i]:
        n = int(o[i][2:]); i += 1
        if n < 0: res.append(None)
        else:
            res.append(o[i:i + n]); i += n
    assert len(res) == len(states)
    return res


def accepted(lo, hi, proper=True):
    """parameter sets with (v-k-1)u = k(k-l-1), 1<=k<=v-2; proper: u<=k"""
    for v in range(lo, hi):
        for k in range(1, v - 1):
            for l in range(0, k):
                n = k * (k - l - 1)
                if n % (v - k - 1): continue
                u = n // (v - k - 1)
                if u <= k or not proper: yield (v, k, l, u)


def param_table():
    """measured search cost (s) per accepted parameter set: how the deterministic bound of a tier is chosen"""
    return [tuple(x) for x in json.load(open(os.path.join(VERIF, 'mc', 'params.json')))]


# ---------------------------------------------------------------- matrices
_dtype = []


def repo_dtype():
    """the element type the package itself uses for its matrices"""
    if not _dtype:
        from srg import solver
        _dtype.append(solver._seed(4, 2, 0, 2).dtype)
    return _dtype[0]


def to_mat(bits, v, dtype=None):
    import numpy as np
    if dtype is None: dtype = repo_dtype()
    return (np.frombuffer(bits.encode(), dtype=np.uint8) - 48).astype(dtype).reshape(-1, v)


def bits_of(m):
    """bit string of a 0/1 matrix or row; BadResult if it has other entries"""
    import numpy as np
    a = np.asarray(m)
    f = a.ravel()
    if not np.all((f == 0) | (f == 1)): raise BadResult('entries other than 0 and 1: %s' % str(f)[:80])
    return (f.astype(np.uint8) + 48).tobytes().decode()


def is_srg(m, p):
    import numpy as np
    v, k, l, u = p
    a = np.asarray(m)
    if a.shape != (v, v): return 'shape %s' % (a.shape,)
    a = a.astype(np.int64)
    if not np.all((a == 0) | (a == 1)): return 'entries other than 0 and 1'
    if np.any(np.diag(a)): return 'non-zero diagonal'
    if not np.array_equal(a, a.T): return 'not symmetric'
    s = a @ a
    I = np.eye(v, dtype=np.int64)
    if np.any(np.diag(s) != k): return 'a vertex has not %d neighbours' % k
    off = ~np.eye(v, dtype=bool)
    if np.any((s != l) & (a == 1)): return 'an adjacent pair has not %d common neighbours' % l
    if np.any((s != u) & (a == 0) & off): return 'a non-adjacent pair has not %d common neighbours' % u
    return None


def canonical_form_error(m):
    """None if in every row the ones come first within each group of later columns that agree in all earlier rows"""
    import numpy as np
    a = np.asarray(m)
    v = a.shape[1]
    group = [0] * v
    for r in range(len(a)):
        last = {}
        for c in range(r + 1, v):
            g = group[c]
            x = int(a[r, c])
            if g in last and x > last[g]: return 'row %d column %d' % (r, c)
            last[g] = x
        names = {}
        group = [names.setdefault((group[c], int(a[r, c])), len(names)) for c in range(v)]
    return None


def upper(m):
    """upper triangle row by row"""
    return tuple(int(x) for r in range(len(m)) for x in m[r][r + 1:])


# ---------------------------------------------------------------- running
class Timeout(BaseException):        # not an Exception: library code must not swallow it
    pass


class Limit:
    """the body must finish within `s` seconds of its own process's running time; .hit tells whether the limit fired"""
    def __init__(self, s): self.s, self.hit = s, False
    def _fire(self, *a):
        self.hit = True
        raise Timeout('no answer within %s s' % self.s)
    def __enter__(self):
        signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.s, 1.0)
        return self
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class Stats:
    def __init__(self):
        self.n = {}
        self.samples = []
        self.sets = {}
        self.notes = []
    def add(self, key, x=1): self.n[key] = self.n.get(key, 0) + x
    def distinct(self, key, x):
        """counts distinct values (hashed) under key"""
        self.sets.setdefault(key, set()).add(hash(x) if not isinstance(x, (str, bytes)) else hashlib.blake2b(x if isinstance(x, bytes) else x.encode(), digest_size=8).digest())
    def sample(self, x, limit=1):
        if len(self.samples) < limit: self.samples.append(x)
    def note(self, x):
        if x not in self.notes: self.notes.append(x)
    def merge(self, o):
        for k, x in o.n.items(): self.n[k] = self.n.get(k, 0) + x
        for k, x in o.sets.items(): self.sets.setdefault(k, set()).update(x)
        self.samples += o.samples
        for x in o.notes: self.note(x)


class SeamMissing(Exception):
    """an internal function the harness drives directly is gone (renamed or merged): that part is skipped, and said so"""


class BadResult(Exception):
    pass


def seam(module, *names):
    """attributes of a module of the package, for functions that no caller outside the package is known to use"""
    import importlib
    try: m = importlib.import_module(module)
    except ImportError as e:
        if getattr(e, 'name', None) == module: raise SeamMissing('no module ' + module)
        raise
    out = []
    for n in names:
        o = m
        for part in n.split('.'):
            if not hasattr(o, part): raise SeamMissing('%s.%s does not exist' % (module, n))
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else out


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = next((f for f in reversed(tb) if '/srg/' in f.filename), tb[-1] if tb else None)
    w = ' at %s:%s %s' % (os.path.relpath(where.filename, REPO) if where.filename.startswith(REPO) else where.filename, where.lineno, where.name) if where else ''
    return '%s: %s%s' % (type(e).__name__, str(e)[:300], w)


def _run_group(mod, cases, tier, q, gi):
    st = Stats()
    out = []
    done = 0
    began = time.time()
    try:
        for ci, case in enumerate(cases):
            lim = Limit(case.get('limit', getattr(mod, 'LIMIT', 240)))
            v = None
            try:
                with lim:
                    try:
                        v = mod.evaluate(case, st)
                    except Timeout as e:
                        v = dict(what='no answer: ' + str(e))
                    except SeamMissing as e:
                        st.note('skipped: ' + str(e)); st.add('cases_skipped_seam_missing')
                    except BadResult as e:
                        v = dict(what='malformed result: ' + str(e))
                    except Exception as e:
                        # an error raised inside the code under test, on an input of the property's domain
                        if isinstance(e, ModuleNotFoundError) and (e.name or '').split('.')[0] in ('numpy', 'click', 'networkx', 'matplotlib'): raise   # broken environment
                        if not any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__)):
                            # not inside the code under test: either it handed out something that cannot be judged, or the harness is at fault
                            owner = getattr(e, 'obj', None)
                            if isinstance(e, AttributeError) and (getattr(owner, '__name__', None) or type(owner).__module__).split('.')[0] == 'srg':
                                st.note('skipped: %s' % e); st.add('cases_skipped_seam_missing'); done += 1
                                continue
                            if not isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError)): raise
                        v = dict(what='error: ' + exc_text(e), traceback=traceback.format_exc()[-2000:])
            except Timeout as e:
                v = dict(what='no answer: ' + str(e))
            if lim.hit: v = dict(what='no answer within %s s' % lim.s)
            done += 1
            if v:
                out.append((gi, ci, case, v))
                if not is_known(mod.PROPERTY, case, v): break
    except BaseException:
        out.append((gi, -1, None, dict(harness_error=traceback.format_exc())))
    if os.environ.get('MC_TIMES') and time.time() - began > float(os.environ['MC_TIMES']): print('%.1f s: %s' % (time.time() - began, str(cases[:1])[:150]), file=sys.stderr)
    q.put((gi, done, st, out))


def run_check(mod, tier):
    t0 = time.time()
    ref_binary()
    groups = mod.groups(tier)
    order = sorted(range(len(groups)), key=lambda i: (-groups[i][0], i))
    ctx = multiprocessing.get_context('fork')
    st = Stats()
    found, errors = [], []
    stop = lambda: any(not is_known(mod.PROPERTY, x[2], x[3]) for x in found)
    pending = list(order)
    running = {}
    done_cases = 0
    deadline = t0 + (840 if tier == 'quick' else 36000)
    while (pending or running):
        while pending and len(running) < NPROC and not stop():
            gi = pending.pop(0)
            r, w = ctx.Pipe(False)
            class Q:                          # minimal queue facade over the pipe
                def __init__(s, w): s.w = w
                def put(s, x): s.w.send(x)
            pr = ctx.Process(target=_child, args=(mod, groups[gi][1], tier, Q(w), gi), daemon=True)
            pr.start(); w.close()
            running[gi] = (pr, r)
        if stop() and not running: break
        ready = multiprocessing.connection.wait([r for _, r in running.values()], timeout=1.0)
        for gi in list(running):
            pr, r = running[gi]
            if r in ready:
                try:
                    gi2, done, s2, out = r.recv()
                    st.merge(s2); done_cases += done
                    for x in out:
                        (errors if 'harness_error' in x[3] else found).append(x)
                except EOFError:
                    pr.join()
                    errors.append((gi, -1, None, dict(harness_error='worker ended without an answer, exit code %s' % pr.exitcode)))
                pr.join(); r.close()
                del running[gi]
        if stop() or time.time() > deadline:
            # let the groups already running finish for a moment, then stop
            grace = time.time() + 3
            while running and time.time() < grace:
                ready = multiprocessing.connection.wait([r for _, r in running.values()], timeout=0.2)
                for gi in list(running):
                    pr, r = running[gi]
                    if r in ready:
                        try:
                            gi2, done, s2, out = r.recv(); st.merge(s2); done_cases += done
                            for x in out: (errors if 'harness_error' in x[3] else found).append(x)
                        except EOFError: pass
                        pr.join(); r.close(); del running[gi]
            for gi in list(running):
                pr, r = running[gi]
                pr.terminate(); pr.join(2)
                if pr.is_alive(): pr.kill()
                del running[gi]
            if not stop() and time.time() > deadline:
                errors.append((-1, -1, None, dict(harness_error='ran out of time')))
            pending = []
    return st, found, errors, done_cases, sum(len(g[1]) for g in groups), time.time() - t0, groups


def _child(mod, cases, tier, q, gi):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _run_group(mod, cases, tier, q, gi)


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f): return []
    return [x for x in json.load(open(f)) if x.get('property') == prop and x.get('status') == 'known']


def is_known(prop, case, viol):
    for x in known_findings(prop):
        if all(case.get(k) == val for k, val in x['case'].items()) and x.get('symptom', '') in viol.get('what', ''):
            return x
    return None


def main(mod):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'): tier = sys.argv[1]
    prop = mod.PROPERTY
    # known findings are evaluated inside the check: evaluate() calls must report them like any other violation, the runner
    # of a group stops at the first one, so each known case sits in a group of its own (see lib.groups_known)
    st, found, errors, done, total, wall, groups = run_check(mod, tier)
    known = []
    new = []
    for x in found:
        k = is_known(prop, x[2], x[3])
        (known if k else new).append((x, k))
    cov = dict(cases_total=total, cases_evaluated=done, exhaustive=(not errors and not new and done == total and not any(k.endswith('beyond_cap') for k in st.n)))
    for k, v in sorted(st.n.items()): cov[k] = v
    for k, v in sorted(st.sets.items()): cov[k] = len(v)
    if st.notes: cov['notes'] = st.notes[:20]
    cov['samples'] = st.samples[:6] or ([groups[0][1][0]] if groups and groups[0][1] else [])
    extra = mod.meta(tier, st) if hasattr(mod, 'meta') else {}
    assumptions = extra.pop('assumptions', None)
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=SEED, level=mod.LEVEL, coverage=cov, wall_s=round(wall, 2), violations=len(new))
    if assumptions: ev['assumptions'] = assumptions
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str); f.write('\n')
    for x, k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, (x, _) in enumerate(new[:5]):
            gi, ci, case, viol = x
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, module=mod.__name__ if mod.__name__ != '__main__' else os.path.basename(sys.argv[0]),
                               case=case, before=groups[gi][1][:ci] if ci > 0 else [], violation=viol), f, indent=1, default=str)
            print('violation: %s' % json.dumps(viol, default=str)[:1500])
            print('  case: %s' % json.dumps(case, default=str)[:600])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        sys.exit(1)
    if errors:
        for e in errors[:3]: print('ERROR', e[3]['harness_error'])
        sys.exit(3)
    print('%s %s: held on everything explored; %s' % (prop, tier, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
    sys.exit(0)


# ---------------------------------------------------------------- helpers for groups
def balance(items, n):
    """items: [(weight, case)] -> n groups [(weight, [cases])], deterministic longest-first packing"""
    import heapq
    n = max(1, min(n, len(items)))
    h = [(0.0, i) for i in range(n)]
    bins = [[] for _ in range(n)]
    w = [0.0] * n
    for j in sorted(range(len(items)), key=lambda j: (-items[j][0], j)):
        t, i = heapq.heappop(h)
        bins[i].append(j); w[i] += items[j][0]
        heapq.heappush(h, (w[i], i))
    return [(w[i], [items[j][1] for j in sorted(bins[i])]) for i in range(n) if bins[i]]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
