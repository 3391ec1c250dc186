#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough]   runs one check;   run.py replay <file>   replays one recorded violation"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
lib.use_repo()
if sys.argv[1] == 'replay':
    r = json.load(open(sys.argv[2]))
    mod = importlib.import_module(r['property'].lower())
    st = lib.Stats()
    for c in r['before']: mod.evaluate(c, st)       # what ran in the same process before
    v = mod.evaluate(r['case'], st)
    print('violated: %s' % json.dumps(v, default=str) if v else 'not violated')
    sys.exit(1 if v else 0)
mod = importlib.import_module(sys.argv[1].lower())
sys.argv = sys.argv[1:]
lib.main(mod)
