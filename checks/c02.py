"""Opcode validity.  Constructor cases proved as for C01 (validity of a composite is the
conjunction/selection of component validity, disassembly exactly on valid opcodes).  The
validator generator: for each enumerated code set and width, z3 proves for all opcodes that
the returned predicate is membership; whole-opcode validity of catalogue types is proved
by z3 for all opcodes against an independent specification."""
import itertools
import random
import numpy as np
from vc.isa import *
from vc import isa, smt
from vc.smt import z3
from checks.asmcommon import *
from checks.asmcommon import _B

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


class NB:
    """all answers at once: a Boolean per opcode"""
    def __init__(self, a): self.a = a
    def __and__(self, o): return NB(self.a & NB.lift(self, o))
    def __or__(self, o): return NB(self.a | NB.lift(self, o))
    def __xor__(self, o): return NB(self.a ^ NB.lift(self, o))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return NB(~self.a)
    def lift(s, o): return o.a if isinstance(o, NB) else np.full(s.a.shape, bool(o))


class NFam:
    def __init__(self, n): self.n = n
    def Bit(self, v): return NB(np.full(self.n, bool(v)))


class NV:
    """every opcode of a width at once (hwtypes semantics: modulo 2**w, unsigned)"""
    def __init__(self, w, a=None):
        self.w = self.size = w
        self.a = np.arange(1 << w, dtype=object if w > 62 else np.int64) if a is None else a & ((1 << w) - 1)
    def get_family(self): return NFam(len(self.a))
    def L(self, o): return o.a if isinstance(o, NV) else int(o) & ((1 << self.w) - 1)
    def __eq__(self, o): return NB(self.a == self.L(o))
    def __ne__(self, o): return NB(self.a != self.L(o))
    def __le__(self, o): return NB(self.a <= self.L(o))
    def __lt__(self, o): return NB(self.a < self.L(o))
    def __ge__(self, o): return NB(self.a >= self.L(o))
    def __gt__(self, o): return NB(self.a > self.L(o))
    bvule, bvult, bvuge, bvugt, bveq, bvne = __le__, __lt__, __ge__, __gt__, __eq__, __ne__
    def __and__(self, o): return NV(self.w, self.a & self.L(o))
    def __or__(self, o): return NV(self.w, self.a | self.L(o))
    def __xor__(self, o): return NV(self.w, self.a ^ self.L(o))
    def __sub__(self, o): return NV(self.w, self.a - self.L(o))
    def __add__(self, o): return NV(self.w, self.a + self.L(o))
    def __rsub__(self, o): return NV(self.w, self.L(o) - self.a)
    __rand__, __ror__, __rxor__, __radd__ = __and__, __or__, __xor__, __add__
    def __invert__(self): return NV(self.w, ~self.a)
    __hash__ = None


def hist_bad(gen, hist):
    """run the validator generator on a history; first (index, opcode) answered wrongly"""
    with smt.private('peak.' + gen):
        import importlib
        f = importlib.import_module('peak.%s.assembler_util' % gen)._gen_is_valid
        for i, (ops, w) in enumerate(hist):
            got = f(ops, w)(NV(w))
            want = np.isin(np.arange(1 << w), ops)
            a = got.a if isinstance(got, NB) else np.full(1 << w, bool(got))
            if not (a == want).all():
                return i, int(np.nonzero(a != want)[0][0])
    return None


@case
def validator(gen, hist):
    """the last validator of this history, on every opcode"""
    bad = hist_bad(gen, hist)
    assert bad is None, 'validator of %r wrong on opcode %d' % (hist[bad[0]], bad[1])


@case
def enum_valid(gen, codes, b):
    """same through the public interface"""
    d = ('enum', tuple(('m%d' % i, c) for i, c in enumerate(codes)))
    B, a, T = setup(gen, d)
    if a.width == 0:
        return
    r = bool(a.is_valid(BitVector[a.width](b)))
    assert r == (b in codes), 'is_valid(%d) is %r for codes %r' % (b, r, codes)


@case
def opcode(gen, d, b):
    B, a, T = setup(gen, d)
    S = Spec(observed_tags(gen))
    if a.width == 0:
        raise_skip()
    v = S.dec(d, b)
    op = BitVector[a.width](b)
    r = bool(a.is_valid(op))
    assert r == (v is not None), 'is_valid is %r, opcode denotes %r' % (r, v)
    if v is None:
        if gen == 'assembler':
            try:
                x = a.disassemble(op)
            except ValueError:
                return
            assert False, 'invalid opcode disassembled to %r' % (x,)
        return
    x = a.disassemble(op)
    assert x == B.val(d, v), 'disassembled %r' % (x,)
    y = int(a.assemble(x))
    m = S.used(d, v)
    assert y & m == b & m, 're-assembled %d' % y


@case
def opcodes_history(gen, order):
    """answers do not depend on what was handled before: a chain of types, then all opcodes"""
    with smt.private('peak.' + gen) as (m,):
        B = _B
        S = Spec(observed_tags(gen))
        ms = [(d, m.Assembler(B(d))) for d in order]
        for d, a in ms:
            if not 0 < a.width <= 10:
                continue
            for b in range(1 << a.width):
                r = bool(a.is_valid(BitVector[a.width](b)))
                assert r == (S.dec(d, b) is not None), 'is_valid(%d) of %r is %r' % (b, d, r)


def raise_skip():
    from vc.harness import Skip
    raise Skip


def spec_valid(S, d, b):
    """z3: the opcode b denotes a value of d"""
    k = d[0]
    if k in ('bit', 'bv', 'u', 's'):
        return z3.BoolVal(True)
    w = width(d)
    if w == 0:
        return z3.BoolVal(True)
    if k == 'enum':
        return z3.Or(*[b == c for c in enum_codes(d)])
    if k in ('prod', 'tup'):
        off, out = 0, []
        for _, x in subs(d):
            if width(x):
                out.append(spec_valid(S, x, z3.Extract(off + width(x) - 1, off, b)))
            off += width(x)
        return z3.And(*out)
    tw = tag_width(d)
    out = []
    for t, (_, x) in zip(S.tags(d), subs(d)):
        pv = spec_valid(S, x, z3.Extract(tw + width(x) - 1, tw, b)) if width(x) else z3.BoolVal(True)
        out.append(z3.And(z3.Extract(tw - 1, 0, b) == t, pv) if tw else pv)
    return z3.Or(*out)


def types_symbolic(ck, n):
    """is_valid at every opcode at once, through the symbolic bit vector type"""
    from hwtypes import SMTBitVector
    for gen in GENS:
        S = Spec(observed_tags(gen))
        for d in catalogue(ck.seed, n, 40):
            if not min_width_ok(d):
                continue
            B, a, T = setup(gen, d)
            x = SMTBitVector[a.width]()

            def go():
                r = a.is_valid(x)
                f = smt.to_z3(r) == spec_valid(S, d, smt.to_z3(x))
                st, m = smt.valid(f)
                ck.stats['queries'] = ck.stats.get('queries', 0) + 1
                nm = '%s: is_valid exact for all opcodes of %r' % (gen, d)
                if st == 'refuted':
                    ck.obl(nm, st, 'z3', str(m))
                    b = m.eval(smt.to_z3(x), model_completion=True).as_long()
                    ck.case('opcode', gen, d, b)
                else:
                    ck.obl(nm, st, 'z3')
            ck.section('%s: is_valid of %r' % (gen, d), go)


def code_sets(ck):
    """(codes, width) pairs"""
    out = []
    W = 4
    for w in range(1, W + 1):
        top = 1 << w
        for m in range(1, 1 << top):
            ops = tuple(i for i in range(top) if m >> i & 1)
            out.append((ops, w))
            if w < 4:
                for x in (1, 2):
                    if ops[-1].bit_length() == w:
                        out.append((ops, w + x))
    r = random.Random(ck.seed)
    for w in (5, 6, 8, 10):
        top = 1 << w
        for _ in range(150 if ck.thorough else 60):
            ops = set()
            for _ in range(r.randint(1, 5)):
                lo = r.choice([0, r.randrange(top), top - 1])
                hi = min(top, lo + r.choice([1, 1, 2, 3, 4, 9]))
                ops |= set(range(lo, hi))
                if r.random() < .2:
                    ops |= {top - 1 - j for j in range(r.randint(1, 4))}
            out.append((tuple(sorted(ops)), w))
        hot = [1 << i for i in range(w)]
        for base in (hot, [0] + hot, hot[1:], [0] + hot[:-1], hot[::2], [0] + hot[1:]):
            out.append((tuple(base), w))
    return out


def validators(ck):
    sets = code_sets(ck)
    r = random.Random(ck.seed)
    rev = sets[::-1]
    mix = sets[:]
    r.shuffle(mix)
    ck.bound('validator generator: all %d code sets of widths 1-4 (and narrower sets at wider tag widths) and structured sets of widths 5-10, every opcode, in three histories' % len(sets))
    for gen in GENS:
        for nm, hist in (('ascending', sets), ('mixed', mix), ('descending', rev))[:3 if ck.thorough else 2]:
            bad = hist_bad(gen, hist)
            name = '%s: validator exact for every code set, %s history' % (gen, nm)
            ck.cases['validator'] = ck.cases.get('validator', 0) + len(hist)
            for s in hist[:len(hist) if bad is None else bad[0]]:
                ck.distinct.add((gen, s))
            if bad is None:
                ck.obl(name, 'proved', 'exhaustive evaluation (bounded)')
                continue
            i = bad[0]
            h = hist[:i + 1]
            # smaller history with the same failure
            for cand in ([h[-1]], [p for p in h if p[0] == h[-1][0]]):
                q = hist_bad(gen, cand)
                if q is not None:
                    h = cand[:q[0] + 1]
                    break
            else:
                lo = list(h)
                for size in (len(lo) // 2, len(lo) // 4, 64, 8, 1):
                    if size < 1:
                        continue
                    j = 0
                    while j < len(lo) - 1 and len(lo) < 3000 or (j < len(lo) - 1 and size > 500):
                        cand = lo[:j] + lo[min(j + size, len(lo) - 1):]
                        q = hist_bad(gen, cand)
                        if q is not None:
                            lo = cand[:q[0] + 1]
                        else:
                            j += size
                h = lo
            ck.case('validator', gen, tuple(h))


def validators_symbolic(ck):
    """large widths: z3, for all opcodes"""
    from hwtypes import SMTBitVector
    import importlib
    r = random.Random(ck.seed + 7)
    for gen in GENS:
        f = importlib.import_module('peak.%s.assembler_util' % gen)._gen_is_valid
        for w in (16, 32, 64):
            top = 1 << w
            cand = [[0, 1, 2], [top - 1, top - 2, top - 3], [5, 6, 7, 8], [1, 2, 4, 8, top >> 1],
                    [1 << i for i in range(w)], [0] + [1 << i for i in range(w)], [1 << i for i in range(1, w)],
                    [0, 1, 2, 3, 100, 101, 102, 103], [top // 2 + i for i in range(6)] + [9, 10, 11], [3, 4, 5, 6, 20], [3, 20, 21, 22, 23, 24]]
            for _ in range(6):
                s = set()
                for _ in range(r.randint(1, 4)):
                    lo = r.randrange(top - 8)
                    s |= set(range(lo, lo + r.randint(1, 6)))
                cand.append(sorted(s))
            for ops in cand:
                x = SMTBitVector[w]()
                zx = smt.to_z3(x)
                st, m = smt.valid(smt.to_z3(f(ops, w)(x)) == z3.Or(*[zx == o for o in ops]))
                ck.obl('%s: validator of %d codes at width %d (%s)' % (gen, len(ops), w, hash(tuple(ops)) % 9973), st, 'z3', str(ops)[:200])
                if st == 'refuted':
                    ck.case('enum_valid', gen, tuple(ops), m.eval(zx, model_completion=True).as_long())


def run(ck):
    prove(ck, 'C02')
    ck.section('validator generator', validators, ck)
    ck.section('validator generator, large widths', validators_symbolic, ck)
    n = 200 if ck.thorough else 50
    ck.section('types', types_symbolic, ck, n)
    ck.bound('concrete opcodes: all up to width 9, 300 samples above, of the catalogue and %d nested types' % n)
    r = random.Random(ck.seed)
    cat = catalogue(ck.seed, n)
    for gen in GENS:
        for d in cat:
            w = width(d)
            if w == 0:
                continue
            S = Spec(observed_tags(gen))
            bs = range(1 << w) if w <= (9 if not ck.thorough else 12) else [r.randrange(1 << w) for _ in range(200)] + [
                S.enc(d, v) | (r.getrandbits(w) & ~S.used(d, v)) for v in values(d, 60)]
            for b in bs:
                if not ck.case('opcode', gen, d, b):
                    break
        for k in range(3):
            o = cat[:]
            r.shuffle(o)
            ck.case('opcodes_history', gen, tuple(o[:40]))
        for codes in [tuple(r.sample(range(1 << w), r.randint(1, min(9, 1 << w)))) for w in (2, 3, 3, 4, 4, 5, 6) for _ in range(20)]:
            for b in range(1 << max(codes).bit_length()):
                if not ck.case('enum_valid', gen, codes, b):
                    break
