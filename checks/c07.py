"""Bit-field encoding.  encode and size of /repo/peak/bitfield.py executed symbolically for every
constructor with the contract of encode/size assumed for arbitrary component types (widths, values,
enum values and the declared offset symbolic and unbounded); z3 proves the packing, the size bound
and injectivity.  Concrete types against an independent packing as bounded search."""
import importlib
import itertools
import random
import types
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum
from vc import sym
from vc.scn import Scn
from vc.sym import *  # noqa
from vc.isa import Build, subs, sum_ok, values, nested

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


# ------------------------------------------------------------ independent specification
def clog2(n):
    return max(n - 1, 0).bit_length()


def bsize(d):
    k = d[0]
    if k == 'bit':
        return 1
    if k in ('bv', 's', 'u'):
        return d[1]
    if k == 'enum':
        return max(v for _, v in d[1]).bit_length()
    if k == 'prod':
        return sum(bsize(x) for _, x in subs(d))
    return max(bsize(x) for _, x in subs(d)) + tagsize(d)


def tagsize(d):
    t = TAGS.get(d)
    return max(t).bit_length() if t else clog2(len(subs(d)))


TAGS = {}
_B = Build()


def mk(d, tags=(), offsets=()):
    """type with explicit tags for its sums and bit-field offsets; only literals"""
    M = importlib.import_module('peak.bitfield')
    B = Build()
    B.n = 10000
    TAGS.clear()
    for s, t in tags:
        TAGS[s] = t
        M.tag({B(x): i for x, i in zip(s[1], t)})(B(s))
    for s, o in offsets:
        M.bitfield(o)(B(s))
    return M, B


def unmk(B, tags, offsets):
    for s, t in tags:
        del B(s).tags
    for s, o in offsets:
        if 'bitfield' in vars(B(s)):
            del B(s).bitfield


def tag_of(M, B, d, v):
    if d in TAGS:
        return TAGS[d][v[0]]
    return None


def benc(M, B, d, v, rev, offs):
    """word of the value per the property text (tags of untagged sums observed)"""
    k = d[0]
    if k in ('bit', 'bv', 'u'):
        w = v
    elif k == 's':
        w = v % (1 << d[1])
    elif k == 'enum':
        w = d[1][v][1]
    elif k == 'prod':
        w, pos, tot = 0, 0, bsize(d)
        for (_, x), y in zip(subs(d), v):
            n = bsize(x)
            w |= benc(M, B, x, y, rev, offs) << (tot - pos - n if rev else pos)
            pos += n
    else:
        i, y = v
        x = subs(d)[i][1]
        t = TAGS[d][i] if d in TAGS else obs_tag(M, B, d, i)
        p = benc(M, B, x, y, rev, offs)
        w = p | t << (bsize(d) - tagsize(d)) if rev else p << tagsize(d) | t
    return w << dict(offs).get(d, 0)


def obs_tag(M, B, d, i):
    x = subs(d)[i][1]
    v = B.val(d, (i, values(x, 1)[0]))
    off = getattr(B(d), 'bitfield', 0)
    return int(M.encode(v)) >> off & (1 << tagsize(d)) - 1


@case
def word(d, v, rev, tags, offs):
    M, B = mk(d, tags, offs)
    try:
        w = int(M.encode(B.val(d, v), rev))
        want = benc(M, B, d, v, rev, offs)
        assert w == want, 'word %x, expected %x' % (w, want)
        assert M.size(B(d)) == bsize(d), 'size %d, expected %d' % (M.size(B(d)), bsize(d))
        if all(s == d for s, o in offs):
            off = dict(offs).get(d, 0)
            assert w >> off < 1 << M.size(B(d)), 'word %x needs more than %d bits' % (w, M.size(B(d)))
            assert w & (1 << off) - 1 == 0
    finally:
        unmk(B, tags, offs)


@case
def distinct(d, vs, rev, tags):
    M, B = mk(d, tags)
    try:
        seen = {}
        for v in vs:
            w = int(M.encode(B.val(d, v), rev))
            assert seen.setdefault(w, v) == v, '%r and %r share the word %x' % (seen[w], v, w)
        if d[0] == 'sum':
            ts = [obs_tag(M, B, d, i) for i in range(len(subs(d)))]
            assert len(set(ts)) == len(ts) and (tags or sorted(ts) == list(range(len(ts)))), 'tags %r' % ts
    finally:
        unmk(B, tags, ())


@case
def tag_rejects(d, what):
    M, B = mk(d)
    T = B(d)
    fs = [B(x) for _, x in subs(d)]
    try:
        if what == 'not a sum':
            M.tag({fs[0]: 0})(B(subs(d)[0][1]))
        elif what == 'missing':
            M.tag({f: i for i, f in enumerate(fs[1:])})(T)
        elif what == 'surplus':
            M.tag({f: i for i, f in enumerate(fs + [BitVector[99]])})(T)
        elif what == 'not int':
            M.tag({f: 'x' for f in fs})(T)
    except (TypeError, ValueError):
        return
    finally:
        if hasattr(T, 'tags'):
            del T.tags
    assert False, 'tag accepted: ' + what


# ------------------------------------------------------------ proofs
class P(Scn):
    def load(self, Ts):
        """bitfield module with the contract of encode and size for abstract types"""
        mod = self.pkg()['bitfield']
        osize, oenc = mod.size, mod.encode
        mod.size = lambda t: t.width if sym.real_isinstance(t, AbsMeta) else osize(t)
        self.calls = []

        def enc(inst, *a, **k):
            if sym.real_isinstance(inst, AbsVal):
                r = k.get('reverse', a[0] if a else False)
                self.calls.append(bool(r))
                return SBits(rev(inst) if r else inst.fn, type(inst).width)
            return oenc(inst, *a, **k)

        def rev(inst):
            # the reversed encoding is another injective word of the same size
            if not hasattr(inst, 'rfn'):
                f = ctx().fresh_fn('r')
                w = z(type(inst).width)
                inst.rfn = lambda k: z3.And(k >= 0, k < w, f(k))
            return inst.rfn
        self.rev = rev
        mod.encode = enc
        return mod, osize, oenc

    def word_of(self, inst, r):
        return self.rev(inst) if r else inst.fn

    def leaf(self, kind):
        def go(c):
            mod, size, encode = self.load(())
            if kind == 'bit':
                x = SBit(c.fresh_bool('x'))
                w = SBits.lift(encode(x))
                self.ob(c, 'word is the bit', w.fn(z3.IntVal(0)) == x.e)
                self.ob(c, 'no other bits', same_bits(w.fn, lambda k: z3.BoolVal(False), 1, None))
                self.ob(c, 'size', size(SBit) == 1)
                return
            n = SInt(z3.Int('n'))
            c.assume(n.e >= 0)
            x = SymBV(n, c.fresh_fn('x'))
            w = SBits.lift(encode(x))
            self.ob(c, 'word is the vector', same_bits(w.fn, x.fn))
            self.ob(c, 'size', sym.sb(size(BVType(n)) == n))
        self.run('leaf %s' % kind, go)

    def product(self, n, reverse, offset):
        Ts = [make_abs('F%d' % i) for i in range(n)]
        names = ['f%d' % (n - i) for i in range(n)]
        T = Product.from_fields('P', dict(zip(names, Ts)), cache=False)

        def go(c):
            abs_axioms(c, *Ts)
            mod, size, encode = self.load(Ts)
            off = 0
            if offset:
                off = SInt(z3.Int('offset'))
                c.assume(off.e >= 0)
                T.bitfield = off
            vs = [abs_value(c, t) for t in Ts]
            w = SBits.lift(encode(T(*vs), reverse) if reverse else encode(T(*vs)))
            tot = size(T)
            want = 0
            for t in Ts:
                want = want + t.width
            self.ob(c, 'size is the sum', sym.sb(tot == want))
            pos = off
            order = list(zip(Ts, vs))
            if reverse:
                order.reverse()
            for i, (t, v) in enumerate(order):
                f = self.word_of(v, reverse)
                lx = z(pos)
                self.ob(c, 'field %d from the bottom at its position' % i, same_bits(lambda k: w.fn(k + lx), f, 0, t.width))
                pos = pos + t.width
            self.ob(c, 'no bits above', same_bits(w.fn, lambda k: z3.BoolVal(False), pos, None))
            self.ob(c, 'no bits below the offset', same_bits(w.fn, lambda k: z3.BoolVal(False), 0, off))
            self.ob(c, 'components encoded in the same direction', all(r == reverse for r in self.calls) and len(self.calls) == n)
        self.run('product of %d%s%s' % (n, ' reversed' if reverse else '', ' with offset' if offset else ''), go)

    def sum(self, n, reverse, offset, tags):
        Ts = [make_abs('F%d' % i) for i in range(n)]

        def go(c):
            abs_axioms(c, *Ts)
            mod, size, encode = self.load(Ts)
            T = types.new_class('S', (Sum[tuple(Ts)],), {})
            if tags:
                mod.tag(dict(zip(Ts, tags)))(T)
            off = 0
            if offset:
                off = SInt(z3.Int('offset'))
                c.assume(off.e >= 0)
                T.bitfield = off
            m = Ts[0].width
            for t in Ts[1:]:
                m = smax(m, t.width)
            tw = max(tags).bit_length() if tags else clog2(n)
            self.ob(c, 'size', sym.sb(size(T) == m + tw))
            seen = []
            for i, t in enumerate(Ts):
                v = abs_value(c, t)
                w = SBits.lift(encode(T(v), reverse) if reverse else encode(T(v)))
                f = self.word_of(v, reverse)
                lt = off + (m if reverse else 0)
                lp = off + (0 if reverse else tw)
                a, b = z(lt), z(lp)
                tag = 0
                for j in range(tw):
                    e = w.fn(z3.simplify(a + j))
                    if c.proves(e):
                        tag |= 1 << j
                    else:
                        self.ob(c, 'variant %d: tag bit %d is constant' % (i, j), z3.Not(e))
                if tags:
                    self.ob(c, 'variant %d: its declared tag' % i, tag == tags[i])
                self.ob(c, 'variant %d: tag is its own' % i, tag not in seen and (bool(tags) or tag < n))
                seen.append(tag)
                self.ob(c, 'variant %d: payload position' % i, same_bits(lambda k: w.fn(k + b), f, 0, t.width))
                top = z(lp + t.width)
                lim = z(off + m + tw)
                k = c.fresh_int()
                self.ob(c, 'variant %d: nothing else' % i, z3.Implies(z3.And(k >= 0, w.fn(k)), z3.Or(
                    z3.And(k >= a, k < a + tw), z3.And(k >= b, k < top))))
                self.ob(c, 'variant %d: fits the size' % i, same_bits(w.fn, lambda k: z3.BoolVal(False), lim, None))
                self.ob(c, 'variant %d: payload encoded in the same direction' % i, self.calls == [reverse] * (i + 1))
        self.run('sum of %d%s%s%s' % (n, ' reversed' if reverse else '', ' with offset' if offset else '', ' tags %r' % (tags,) if tags else ''), go)

    def enum(self, n):
        def go(c):
            mod, size, encode = self.load(())
            E = types.new_class('E', (Enum,), {}, lambda d: [d.__setitem__('m%d' % i, 1000 + i) for i in range(n)] and None)
            vs = []
            for i, m in enumerate(E.enumerate()):
                e = SInt(z3.Int('v%d' % i))
                c.assume(e.e >= 0)
                for o in vs:
                    c.assume(o.e != e.e)
                m._value_ = e
                vs.append(e)
            s = size(E)
            mx = vs[0]
            for v in vs[1:]:
                mx = smax(mx, v)
            self.ob(c, 'size holds the largest value', sym.sb(mk_int(sym.int_len(z(mx))) <= s))
            for m, v in zip(E.enumerate(), vs):
                w = encode(m)
                self.ob(c, 'word is the value', sym.sb(w == v) if not sym.real_isinstance(w, SBits) else w.src == v.e)
                self.ob(c, 'word fits the size', z(mk_int(sym.int_len(z(v)))) <= z(s))
        self.run('enum of %d' % n, go)


TAGSETS = {1: [(0,), (3,)], 2: [(0, 1), (1, 0), (2, 5)], 3: [(2, 0, 1), (1, 2, 4), (0, 7, 3)]}


def types_(seed, n):
    r = random.Random(seed)
    out = []

    def leaf():
        c = r.random()
        if c < .2:
            return ('bit',)
        if c < .6:
            return ('bv', r.choice([1, 2, 3, 4, 8, 13]))
        if c < .7:
            return (r.choice('su'), r.choice([2, 3, 5]))
        vs = r.sample(range(13), r.randint(1, 5))
        return ('enum', tuple(('m%d' % i, v) for i, v in enumerate(vs)))

    def go(k):
        if k == 0 or r.random() < .25:
            return leaf()
        fs = [go(k - 1) for _ in range(r.randint(1, 4))]
        if r.random() < .5:
            return ('prod', tuple(zip(r.sample('pqrstuvw', len(fs)), fs)))
        return ('sum', tuple(dict.fromkeys(fs)))
    while len(out) < n:
        d = go(3)
        if d not in out and sum_ok(d) and bsize(d) < 60:
            out.append(d)
    return out


def sums_in(d):
    return ([d] if d[0] == 'sum' else []) + [s for _, x in subs(d) for s in sums_in(x)]


def run(ck):
    ck.under_contract('bitfield.encode', 'bitfield.size', 'bitfield.sumsize', 'bitfield.instkey', 'bitfield.tag', 'bitfield.bitfield')
    ck.trust('hwtypes ADT construction and attribute access (executed, not verified)', 'magma clog2 (executed on concrete counts)',
             'contract of hwtypes vectors (vc/sym.py)', 'induction principle over finite types')
    ck.assume('enum values are distinct nonnegative integers', 'declared tags are distinct nonnegative integers',
              'number of fields/variants enumerated (4, thorough 6); widths, values, enum values and offset unbounded')
    p = P(ck)
    N = 6 if ck.thorough else 4
    p.leaf('bit'), p.leaf('vector')
    for rev in (False, True):
        for off in (False, True):
            for n in range(1, N + 1):
                p.product(n, rev, off)
                p.sum(n, rev, off, None)
            for n, ts in TAGSETS.items():
                for t in ts:
                    p.sum(n, rev, off, t)
    for n in range(1, N):
        p.enum(n)
    r = random.Random(ck.seed)
    ds = types_(ck.seed, 400 if ck.thorough else 120)
    ck.bound('%d concrete types, up to 12 values each, both directions, random tags and offsets' % len(ds))
    for d in ds:
        ss = [s for s in dict.fromkeys(sums_in(d))]
        for mode in range(3):
            tags = () if mode == 0 else tuple((s, tuple(r.sample(range(max(2, len(s[1]) + r.randint(0, 3))), len(s[1])))) for s in ss if r.random() < .7)
            offs = () if d[0] in ('bit', 'bv', 's', 'u') or mode == 0 else ((d, r.randint(0, 9)),)
            for rev in (False, True):
                for v in values(d, 12):
                    if not ck.case('word', d, v, rev, tags, offs):
                        break
                ck.case('distinct', d, tuple(values(d, 60)), rev, tags)
        if d[0] == 'sum':
            for w in ('missing', 'surplus', 'not int'):
                ck.case('tag_rejects', d, w)
            if subs(d)[0][1][0] == 'prod':
                ck.case('tag_rejects', d, 'not a sum')
