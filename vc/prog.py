"""Peak programs executed symbolically in the Python and in the rewritten families.

Original meaning: the class built by a subclass of the real PyFamily whose bits and vectors are the
symbolic ones; the truth value of a symbolic bit forks the execution, so every path of the unrewritten
`__call__` is enumerated.  ADT inputs are real hwtypes values (member / variant chosen by forking)
over symbolic leaves.  Rewritten meaning: the class of SMTFamily (or PyXFamily over symbolic bits)
run once on symbolic opcodes."""
import contextlib
import itertools
import z3
import hwtypes
from hwtypes import SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector, Bit, BitVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from . import sym, smt
from .isa import Build, subs, width, enum_codes, tag_width
from .srcmod import run_source

_n = itertools.count()


def families():
    from peak import family as F

    class ForkPy(F.PyFamily):
        pass

    class SymX(F.PyXFamily):
        pass
    for k in (ForkPy, SymX):
        k.Bit = property(lambda s: SMTBit)
        k.BitVector = property(lambda s: SMTBitVector)
        k.Signed = property(lambda s: SMTSIntVector)
        k.Unsigned = property(lambda s: SMTUIntVector)
    return ForkPy(), SymX()


def _fork(self):
    e = z3.simplify(smt.to_z3(self))
    return bool(sym.SBool(e))


@contextlib.contextmanager
def forking():
    """`if` on a symbolic bit enumerates both outcomes"""
    old = SMTBit.__dict__.get('__bool__')
    SMTBit.__bool__ = _fork
    try:
        yield
    finally:
        if old is None:
            del SMTBit.__bool__
        else:
            SMTBit.__bool__ = old


class SymBuild(Build):
    """the same types over symbolic leaves (enums shared)"""

    def __init__(self, base):
        super().__init__()
        self.base = base

    def _b(self, d):
        if d[0] == 'enum':
            return self.base(d)
        t = {'bit': lambda: SMTBit, 'bv': lambda: SMTBitVector[d[1]], 's': lambda: SMTSIntVector[d[1]],
             'u': lambda: SMTUIntVector[d[1]]}.get(d[0])
        return t() if t else super()._b(d)


class Types:
    """the named types of a program"""

    def __init__(self, build, descs):
        for k, d in descs.items():
            setattr(self, k, build(d))


def leaf(d, family):
    if d[0] == 'bit':
        return family.Bit
    if d[0] == 'bv':
        return family.BitVector[d[1]]
    if d[0] == 's':
        return family.Signed[d[1]]
    if d[0] == 'u':
        return family.Unsigned[d[1]]
    return None


def as_bv(x):
    """z3 vector of a leaf value"""
    t = smt.to_z3(x)
    if z3.is_bool(t):
        return z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return t


def cat(parts):
    """concatenation, first part lowest"""
    parts = [p for p in parts if p is not None]
    return parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))


def pack(S, d, v):
    """specified encoding of a plain (unassembled) value with symbolic leaves"""
    k = d[0]
    if k in ('bit', 'bv', 's', 'u'):
        if isinstance(v, bool):
            v = Bit(v)
        t = as_bv(v)
        if t.size() != width(d):
            raise sym.Unsupported('value of %d bits for %r' % (t.size(), d))
        return t
    if k == 'enum':
        return z3.BitVecVal(enum_codes(d)[[n for n, _ in d[1]].index(v.name)], width(d))
    if k == 'prod':
        return cat([pack(S, e, getattr(v, m)) for m, e in subs(d)])
    if k == 'tup':
        return cat([pack(S, e, v[m]) for m, e in subs(d)])
    i, y = variant(d, v)
    e = subs(d)[i][1]
    tw = tag_width(d)
    pad = width(d) - tw - width(e)
    return cat([z3.BitVecVal(S.tags(d)[i], tw) if tw else None, pack(S, e, y), z3.BitVecVal(0, pad) if pad else None])


def variant(d, v):
    if d[0] == 'tu':
        return next(i for i, (m, _) in enumerate(subs(d)) if getattr(v, m).match), v._value_
    for i, (m, e) in enumerate(subs(d)):
        if matches(e, v._value_):
            return i, v._value_
    raise sym.Unsupported('variant of %r' % (v,))


def matches(e, v):
    if e[0] == 'bit':
        return isinstance(v, hwtypes.AbstractBit)
    if e[0] in ('bv', 's', 'u'):
        return isinstance(v, hwtypes.AbstractBitVector) and v.size == e[1]
    if e[0] == 'enum':
        return isinstance(v, Enum) and [n for n, _ in e[1]] == [m.name for m in type(v).enumerate()]
    if e[0] == 'prod':
        return isinstance(v, Product) and [m for m, _ in e[1]] == list(type(v).field_dict)
    if e[0] == 'tup':
        return isinstance(v, Tuple) and not isinstance(v, Product) and len(e[1]) == len(type(v).field_dict)
    return isinstance(v, Sum) and len(e[1]) == len(type(v).field_dict)


def mkval(c, build, d):
    """an arbitrary value: members and variants by forking, leaves symbolic"""
    k = d[0]
    T = build(d)
    if k in ('bit', 'bv', 's', 'u'):
        return T()
    if k == 'enum':
        return getattr(T, d[1][c.decide([(('member', j), True) for j in range(len(d[1]))])[1]][0])
    if k in ('prod', 'tup'):
        return T(*[mkval(c, build, e) for m, e in subs(d)])
    i = c.decide([(('variant', j), True) for j in range(len(d[1]))])[1]
    m, e = subs(d)[i]
    v = mkval(c, build, e)
    return T(**{m: v}) if k == 'tu' else T(v)


def slots(obj, seen=None, path=''):
    """[(path, value, setter)] of the state of a Peak object and its sub-components"""
    from peak import Peak
    out = []
    seen = seen if seen is not None else set()
    if id(obj) in seen:
        return out
    seen.add(id(obj))
    d = object.__getattribute__(obj, '__dict__')
    for k, v in list(d.items()):
        p = path + '.' + k
        if isinstance(v, Peak):
            out += slots(v, seen, p)
        else:
            out.append((p, v, lambda x, k=k, d=d: d.__setitem__(k, x)))
    return out


def raw(x):
    """the opcode of an assembled value"""
    from peak.assembler import AssembledADT
    return x._value_ if isinstance(x, AssembledADT) else x


def size_of(x):
    x = raw(x)
    return 1 if isinstance(x, hwtypes.AbstractBit) else x.size


class Program:
    """descs: {type name: descriptor};  inputs: [(name, descriptor)];  outputs: [descriptor];
    source defines make(family, T) returning the class"""

    def __init__(self, source, descs, inputs, outputs, state=None):
        self.source, self.descs, self.inputs, self.outputs = source, descs, inputs, outputs
        self.state = state or {}            # slot path -> descriptor of ADT state
        self.ns = run_source('from peak import Peak, name_outputs, Const\nfrom hwtypes.adt import *\n' + source)

    def build(self, build, family):
        return self.ns['make'](family, Types(build, self.descs))
