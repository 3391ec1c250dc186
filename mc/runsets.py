"""runsets.py <package dir> <sets as JSON> <mode>: runs the search and other functions in this process and prints one JSON line per
item; the parent compares them between ways of running the package. Standalone: imports nothing of the checks."""
import sys, json, hashlib
sys.dont_write_bytecode = True
d, sets, graphs, dbs, want_ext = json.loads(sys.argv[1])
sys.path[:] = [d] + [p for p in sys.path if p != '']
import numpy as np
from srg import solver, sorter, utils, srg
assert srg.__file__.startswith(d), srg.__file__
if want_ext: print(json.dumps(['extension', [m.__file__ for n, m in sorted(sys.modules.items()) if n.startswith('srg') and getattr(m, '__file__', '') and m.__file__.endswith('.so')]]))


def code(M): return ''.join(str(int(x)) for x in np.asarray(M).ravel())


def emit(key, f):
    try: r = f()
    except Exception as e: r = 'error %s' % type(e).__name__
    print(json.dumps([key, r]))


for p in sets:
    def search():
        out = [code(m) for m in solver.solve(srg.SRG(solver._seed(*p)))]
        return out if len(out) < 20 else [len(out), hashlib.sha256(' '.join(out).encode()).hexdigest()]
    emit('solve %s' % (p,), search)
    emit('eig %s' % (p,), lambda: [[float(x), int(m)] for x, m in utils.eig(*p)])
    emit('det %s' % (p,), lambda: str(utils.determinant(*p)))
    emit('comp %s' % (p,), lambda: [int(x) for x in utils.complement_vklu(*p)])
for v, b in graphs:
    M = srg.array([int(c) for c in b]).reshape(v, v)
    emit('max %s' % b, lambda: code(sorter.maximize(M)))
    emit('comp %s' % b, lambda: code(utils.complement(M)))
    emit('sort %s' % b, lambda: [code(x) for x in sorter.sort([M, utils.complement(M), sorter.maximize(M)])])
if dbs:
    from srg import database
    emit('list', database.list_problems)
    for n in dbs: emit(n, lambda: hashlib.sha256(' '.join(code(x) for x in database.get_solutions(*database.extract_vklu(n))).encode()).hexdigest())
print('"end"')
