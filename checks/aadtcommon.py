import functools
import random
import importlib
from hwtypes import SMTBitVector, SMTBit
from vc import smt
from vc.smt import z3
from vc.isa import *
from checks.asmcommon import *
from checks.asmcommon import _B

BVT = {'py': BitVector, 'smt': SMTBitVector}


def aadt(gen, fam, T):
    M = importlib.import_module('peak.%s.assembled_adt' % gen)
    return M.AssembledADT[T, asm_class(gen), BVT[fam]]


def raw(x):
    """underlying vector or bit"""
    return getattr(x, '_value_', x)


def term(x):
    """z3 bit vector term (bits become one-bit vectors)"""
    x = raw(x)
    t = smt.to_z3(x)
    if z3.is_bool(t):
        return z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return t


def const(x):
    """int of a constant"""
    t = z3.simplify(term(x))
    assert z3.is_bv_value(t), 'not a constant: %s' % t
    return t.as_long()


def flag(x):
    t = z3.simplify(smt.to_z3(x))
    assert z3.is_true(t) or z3.is_false(t), 'flag is not determined: %s' % t
    return z3.is_true(t)


def field(d, x, m, i):
    """read component m (i-th) of the assembled value x"""
    if d[0] in ('prod', 'tu'):
        return getattr(x, m)
    if d[0] == 'sum':
        return x[_B(d[1][i])]
    return x[m]


def reads(gen, d, x, lo=0, path=()):
    """[(path, lo, descriptor, value, match, tag index)] of every nested read"""
    out = []
    for i, (m, e) in enumerate(subs(d)):
        if d[0] in ('prod', 'tup'):
            y = field(d, x, m, i)
            out.append((path + (m,), lo, e, y, None, None))
            out += reads(gen, e, y, lo, path + (m,))
            lo += width(e)
        else:
            r = field(d, x, m, i)
            out.append((path + (m,), lo + tag_width(d), e, r.value, r.match, (lo, d, i)))
            out += reads(gen, e, r.value, lo + tag_width(d), path + (m,))
    return out


def good(d, maxw=64):
    return subs(d) and min_width_ok(d) and width(d) <= maxw or d[0] == 'enum' and width(d) >= 1
