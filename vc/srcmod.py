"""Execute generated source so that inspect.getsource works on it (ast_tools needs it)."""
import atexit
import itertools
import os
import shutil
import tempfile
import linecache

_n = itertools.count()
_dir = None


def scratch():
    """a directory of this process, removed at the end"""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='peakvc')
        atexit.register(cleanup)
    return _dir


def enter_worker(i):
    """a directory of its own for a forked worker, below the parent's"""
    global _dir
    _dir = os.path.join(scratch(), 'w%d' % i)
    os.makedirs(_dir, exist_ok=True)
    os.chdir(_dir)


def cleanup():
    global _dir
    if _dir is not None:
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None


def run_source(src, ns=None):
    f = os.path.join(scratch(), 'gen_%d.py' % next(_n))
    with open(f, 'w') as h:
        h.write(src)
    ns = {} if ns is None else ns
    ns.setdefault('__name__', 'generated')
    exec(compile(src, f, 'exec', dont_inherit=True), ns)
    return ns
