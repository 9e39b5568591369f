"""Assembly round trip and width.  Structural induction: the constructor cases of both
Assembler generations are executed symbolically from /repo's source with the contract of
the component assemblers as induction hypothesis; z3 discharges the postconditions.
Bounded stand-in and counterexample search: exhaustive/sampled values of a catalogue of
concrete types against an independent encoder."""
import random
from vc.isa import *
from vc import isa
from checks.asmcommon import *

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


@case
def roundtrip(gen, d, v):
    B, a, T = setup(gen, d)
    x = B.val(d, v)
    for BVT in (BitVector, UIntVector):
        op = a.assemble(x, BVT)
        assert isinstance(op, BVT[a.width]), 'opcode is %r, not %r' % (type(op), BVT[a.width])
    op = a.assemble(x)
    assert op.size == a.width == width(d), 'width %r/%r, expected %r' % (op.size, a.width, width(d))
    y = a.disassemble(op)
    assert type(y) is type(x) and y == x, 'disassembled %r, assembled %r' % (y, x)


@case
def injective(gen, d, vs):
    B, a, T = setup(gen, d)
    seen = {}
    for v in vs:
        op = int(a.assemble(B.val(d, v)))
        k = norm(d, v)
        assert seen.setdefault(op, k) == k, 'values %r and %r share opcode %d' % (seen[op], k, op)


@case
def symbolic(gen, d, v):
    """same opcode through the symbolic bit vector type"""
    from hwtypes import SMTBitVector
    B, a, T = setup(gen, d)
    x = B.val(d, v)
    if width(d) == 0:
        from vc.harness import Skip
        raise Skip
    if gen == 'assembler2':
        from vc.harness import Skip
        if not smt_ok(d):
            raise Skip
    op = a.assemble(x, SMTBitVector)
    assert op.value.is_constant() and op.value.constant_value() == int(a.assemble(x))
    assert op.size == a.width


def run(ck):
    prove(ck, 'C01')
    ck.bound('concrete types: catalogue + %d nested; at most 40 values each' % (300 if ck.thorough else 80))
    for gen in GENS:
        for d in catalogue(ck.seed, 300 if ck.thorough else 80):
            vs = values(d, 40 if not ck.thorough else 150)
            for v in vs:
                if not ck.case('roundtrip', gen, d, v):
                    break
            ck.case('injective', gen, d, tuple(vs))
            for v in vs[:2]:
                ck.case('symbolic', gen, d, v)
        if ck.left() < 60:
            break
