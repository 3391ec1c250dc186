"""The tracer wrapped around every subset of the simplification steps; results and errors of whole searches compared with the
untraced ones, and the consistency check of the question applied after every step of every search."""
import os, sys, itertools, shutil, contextlib, re
import lib, cli, steps
PROPERTY, LEVEL, LIMIT = 'C28', 'model_checking', 700
STEPS = ('reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row', 'fork_enum')


def groups(tier):
    q = tier == 'quick'
    subsets = [list(s) for k in range(1, 6) for s in itertools.combinations(range(5), k)]
    few = [[9, 4, 1, 2], [10, 6, 3, 4], [15, 6, 1, 3], [12, 6, 0, 6]] if q else \
          [x for *x, c, states, sols in lib.param_table() if c <= 0.5 and x[0] <= 24]
    g = [(3, [dict(kind='subset', steps=s, p=p) for p in (few if q else few[i::8])]) for s in subsets for i in range(1 if q else 8)]
    P = [(c, x) for *x, c, states, sols in lib.param_table() if c <= (0.05 if q else 3)]
    if q: P = P[::3] + [(0.5, x) for x in ([22, 9, 4, 3], [13, 6, 2, 3])]
    P += [(0.5, [66, 1, 0, 0])] + ([] if q else [(1, [72, 36, 0, 36])])
    g += lib.balance([(c * 12 + 0.05, dict(kind='subset', steps=[0, 1, 2, 3, 4], p=x)) for c, x in P], 32)
    g += lib.balance([(c * 3 + 0.05, dict(kind='invariant', p=x)) for c, x in P], 16)
    g += [(5, [dict(kind='written', p=p)]) for p in few[:3]]
    g += [(5, [dict(kind='optimized', p=p)]) for p in few[:2]]
    return g


class Null:
    encoding = 'utf-8'
    def write(self, s): return len(s)
    def flush(self): pass
    def isatty(self): return False


def result(p):
    """results in order, or the error"""
    from srg import solver
    from srg.srg import SRG
    out = []
    try:
        with contextlib.redirect_stdout(Null()):
            for m in solver.solve(SRG(solver._seed(*p))): out.append(lib.bits_of(m))
    except Exception as e:
        return out, type(e).__name__, lib.exc_text(e)
    return out, None, None


def install(names, wrap):
    from srg import solver
    old = {}
    for n in names:
        if hasattr(solver, n): old[n] = getattr(solver, n); setattr(solver, n, wrap(old[n]))
    if not old: raise lib.SeamMissing('none of %s exists in srg.solver' % (names,))
    return old


BASE = {}


def evaluate(case, st):
    from srg import solver, utils
    p = tuple(case['p'])
    kind = case['kind']
    if kind == 'optimized':
        d = cli.copy_sources()
        try:
            status, out, err = cli.run(d, ['-c', 'from srg import utils\ndef f(Q): return 5\ng = utils.debug(f)\nprint(g(None) if g is f else "wrapped")'], d, flags=['-O'])
        finally: shutil.rmtree(d)
        st.add('processes')
        if status: return dict(what='the tracer fails under -O', stderr=err[-400:])
        return
    if kind == 'written':
        # the tracer written where the source has it commented out
        d = cli.copy_sources()
        try:
            f = os.path.join(d, 'srg', 'solver.py')
            text = open(f).read()
            # only where the comment still stands above a step (and its other decorators)
            new = re.sub(r'^#\s*@debug\s*\n((?:@.*\n|#.*\n)*def (?:%s)\()' % '|'.join(STEPS), r'@debug\n\1', text, flags=re.M)
            if new == text: raise lib.SeamMissing('no commented tracer in solver.py')
            if not re.search(r'import.*\bdebug\b', new): new = 'from .utils import debug\n' + new
            open(f, 'w').write(new)
            code = ('import sys\nfrom srg import solver, srg\nout=[]\nkeep=sys.stdout\nclass N:\n def write(s,x): return len(x)\n def flush(s): pass\n def isatty(s): return False\nsys.stdout=N()\n'
                    'for m in solver.solve(srg.SRG(solver._seed(*%r))): out.append("".join(str(int(x)) for x in m.ravel()))\nsys.stdout=keep\nprint("\\n".join(out))') % (p,)
            status, out, err = cli.run(d, ['-c', code], d, timeout=600)
        finally: shutil.rmtree(d)
        st.add('processes')
        base = result(p)
        if base[1]: return
        if status: return dict(what='search for %s ends with an error when traced' % (p,), stderr=err[-500:])
        if out.split() != base[0]: return dict(what='search for %s has other results when traced' % (p,), got=out.split()[:2], want=base[0][:2])
        st.add('traces_validated_against_impl')
        return
    if p not in BASE: BASE[p] = result(p)
    calls = [0]
    if kind == 'subset':
        bad = []
        def wrap(f):
            t = utils.debug(f)
            def g(Q):
                calls[0] += 1
                try: return t(Q)
                except AssertionError as e:
                    bad.append(lib.exc_text(e)); raise
            return g
        names = [STEPS[i] for i in case['steps']]
        old = install(names, wrap)
        try: got = result(p)
        finally:
            for n, f in old.items(): setattr(solver, n, f)
        st.add('traces_validated_against_impl'); st.add('transitions', calls[0])
        if got[:2] != BASE[p][:2]: return dict(what='search for %s differs when %s are traced: %s' % (p, names, got[2] or 'other results'), got=got[0][:2], want=BASE[p][0][:2], untraced_error=BASE[p][2])
        if calls[0]: st.add('distinct_nontrivial')
    else:
        broken = []
        def wrap(f):
            def g(Q):
                r = f(Q)
                calls[0] += 1
                try: Q._invariant_check()
                except AssertionError as e: broken.append((f.__name__, lib.exc_text(e)))
                try: st.distinct('states', repr((Q.A.tolist(), Q.b.tolist(), int(Q.quota), Q.bounds.tolist())))
                except AttributeError: pass
                return r
            return g
        lib.seam('srg.srg', 'Question._invariant_check')
        old = install(STEPS, wrap)
        try: got = result(p)
        finally:
            for n, f in old.items(): setattr(solver, n, f)
        st.add('transitions', calls[0])
        if broken: return dict(what='the question is inconsistent after %s: %s' % broken[0], p=p)
        st.sample(dict(p=p, steps=calls[0]), 1)


def meta(tier, st):
    return dict(rule='all 31 non-empty subsets of the five steps traced on 4 (all cheap) parameter sets, all steps traced on every third (every) cheap parameter set, the consistency check after every step of these searches; non-trivial: the tracer was invoked')
