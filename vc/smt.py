"""hwtypes SMT values <-> z3."""
import contextlib
import importlib
import sys
import time
import z3
import hwtypes
from hwtypes import SMTBit, SMTBitVector
from pysmt.shortcuts import Solver

_conv = None


def to_z3(x):
    """z3 term of an hwtypes SMT value / pysmt formula"""
    global _conv
    if _conv is None:
        _conv = Solver('z3').converter
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, hwtypes.AbstractBit) and not isinstance(x, SMTBit):
        return z3.BoolVal(bool(x))
    if isinstance(x, hwtypes.AbstractBitVector) and not isinstance(x, SMTBitVector):
        return z3.BitVecVal(x.as_uint(), x.size)
    t = getattr(x, 'value', x)
    if not z3.is_expr(t):
        t = _conv.convert(t)
        # the converter returns the raw wrapper of the main context
    return t


_n = 0


def fresh_bv(size, T=SMTBitVector):
    return T[size]()


class ZCtx:
    """path-free context for Check.prove"""
    trace = ()

    def __init__(self, ck, timeout_ms=20000, assumptions=()):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        for a in assumptions:
            self.solver.add(a)
        self.stats = ck.stats

    def check(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        self.stats['solver_s'] = self.stats.get('solver_s', 0) + time.time() - t
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        return r


def valid(f, timeout_ms=20000):
    """('proved', None) | ('refuted', model) | ('undecided', None)"""
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(z3.Not(f))
    r = s.check()
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    return 'undecided', None


@contextlib.contextmanager
def private(*mods):
    """freshly executed copies of modules (and their submodules) of peak"""
    def mine(k):
        return any(k == m or k.startswith(m + '.') for m in mods)
    saved = {k: v for k, v in sys.modules.items() if mine(k)}
    for k in saved:
        del sys.modules[k]
    try:
        yield [importlib.import_module(m) for m in mods]
    finally:
        for k in [k for k in sys.modules if mine(k)]:
            del sys.modules[k]
        sys.modules.update(saved)


@contextlib.contextmanager
def z3_limits(seconds):
    """defaults for solvers created inside (pysmt's too)"""
    z3.set_param('timeout', int(seconds * 1000))
    try:
        yield
    finally:
        z3.set_param('timeout', 4294967295)
