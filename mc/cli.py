"""Running the package's two command lines, in a process of their own or in this one, from a private copy of the sources."""
import os, re, sys, io, shutil, subprocess, tempfile, contextlib
import lib


def copy_sources(prefix='mccli'):
    d = tempfile.mkdtemp(prefix=prefix)
    shutil.copytree(os.path.join(lib.REPO, 'srg'), os.path.join(d, 'srg'), ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.c', '*.pyx'))
    return d


def run(src, args, cwd, flags=(), env=None, timeout=600):
    """-> (exit status, stdout, stderr)"""
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=src, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', **(env or {}))
    try: r = subprocess.run([sys.executable, *flags, *args], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as x: return 124, (x.stdout or b'').decode(), 'no answer within %s s' % timeout
    return r.returncode, r.stdout, r.stderr


def run_here(module, args):
    """the same in this process: -> (exit status, stdout, error)"""
    import runpy, warnings
    import numpy as np
    np.set_printoptions(edgeitems=3, infstr='inf', linewidth=75, nanstr='nan', precision=8, suppress=False, threshold=1000, formatter=None)
    out, err, status, text = io.StringIO(), io.StringIO(), 0, ''
    keep = sys.argv
    sys.argv = [module] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try: runpy.run_module(module, run_name='__main__', alter_sys=False)
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception as e:
                status, text = 1, lib.exc_text(e)
    finally:
        sys.argv = keep
    return status, out.getvalue(), text or err.getvalue()[-500:]


ROW = re.compile(r'\[\s*([01](?:[\s,]+[01])*)\s*,?\s*\]')


def matrices(text, v):
    """the v x v 0/1 matrices printed in a text, as bit strings; None if the printed rows do not make up whole matrices"""
    text = re.sub(r'\x1b\[[0-9;]*m', '', text)
    if '...' in text: return None
    rows = [re.sub(r'[\s,]', '', m) for m in ROW.findall(text)]
    if any(len(r) != v for r in rows) or len(rows) % v: return None
    return [''.join(rows[i:i + v]) for i in range(0, len(rows), v)]


def some_rows(text): return bool(ROW.search(re.sub(r'\x1b\[[0-9;]*m', '', text)))
