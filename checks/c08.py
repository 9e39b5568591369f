"""Legacy assembler.  generate_assembler and get_width of /repo/peak/auto_assembler.py executed
symbolically for every constructor with their contract assumed for arbitrary component types; z3
proves the round trip, the width, the layout and the acceptance of constants.  Concrete types:
bounded search."""
import importlib
import random
import types
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum
from vc import sym
from vc.scn import Scn
from vc.sym import *  # noqa
from vc.isa import Build, subs, sum_ok, values, ENUMS, width

CASES = {}
_B = Build()


def case(f):
    CASES[f.__name__] = f
    return f


def M():
    return importlib.import_module('peak.auto_assembler')


@case
def roundtrip(d, vs):
    T = _B(d)
    e, dec, w, l = M().generate_assembler(T)
    assert M().get_width(T) == w, 'get_width %d, width %d' % (M().get_width(T), w)
    seen = {}
    for v in vs:
        x = _B.val(d, v)
        op = e(x)
        assert getattr(op, 'size', 1) == w, 'opcode has %r bits, width is %d' % (getattr(op, 'size', 1), w)
        y = dec(op)
        assert type(y) is T and bool(y == x), 'decoded %r, encoded %r' % (y, x)
        k = int(op) & (1 << w) - 1
        assert seen.setdefault(k, v) == v, '%r and %r share %d' % (v, seen[k], k)


def as_bits(x):
    return x.as_uint() if isinstance(x, hwtypes.AbstractBitVector) else int(x)


@case
def layout(d, v):
    """every field occupies its reported range"""
    T = _B(d)
    e, dec, w, l = M().generate_assembler(T)
    x = _B.val(d, v)
    op = as_bits(e(x))

    def go(d, v, l, base):
        if d[0] == 'prod':
            assert set(l) == {m for m, _ in subs(d)}
            used = []
            for (m, f), y in zip(subs(d), v):
                lo, hi, sub = l[m]
                chk(f, y, lo, hi, sub, base)
                used.append((lo, hi))
            used.sort()
            assert all(a[1] <= b[0] for a, b in zip(used, used[1:])), 'ranges overlap %r' % used
        elif d[0] == 'sum':
            i, y = v
            f = subs(d)[i][1]
            lo, hi, sub = l[_B(f)]
            chk(f, y, lo, hi, sub, base)
            assert lo >= (len(subs(d)) - 1).bit_length(), 'no room for the tag'

    def chk(f, y, lo, hi, sub, base):
        ef, df, wf, _ = M().generate_assembler(_B(f))
        assert hi - lo == wf, 'range %d:%d of a field of width %d' % (lo, hi, wf)
        want = as_bits(ef(_B.val(f, y)))
        got = op >> base + lo & (1 << wf) - 1
        assert got == want, 'range %d:%d holds %d, field is %d' % (base + lo, base + hi, got, want)
        go(f, y, sub, base + lo)
    go(d, v, l, 0)


@case
def const(kind, n, c, x):
    T = {'bv': BitVector, 's': SIntVector, 'u': UIntVector}[kind][n] if kind != 'bit' else Bit
    e, dec, w, l = M().generate_assembler(T(c))
    assert w == n
    for f in (e, dec):
        try:
            r = f(T(x))
        except ValueError:
            assert x != c, 'constant rejected'
            continue
        assert x == c, 'accepts %d for the constant %d' % (x, c)
        assert r == T(c)


class P(Scn):
    def load(self):
        mod = self.pkg()['auto_assembler']
        mod.BitVector = BV
        og, ow = mod.generate_assembler, mod.get_width

        def gen(isa):
            if sym.real_isinstance(isa, AbsMeta):
                def asm(v):
                    if type(v) is not isa:
                        raise Anomaly('component of another type')
                    return SymBV(isa.width, v.fn)
                return asm, lambda bv: abs_dsm(isa, bv), isa.width, None
            return og(isa)
        mod.generate_assembler = gen
        mod.get_width = lambda isa: isa.width if sym.real_isinstance(isa, AbsMeta) else ow(isa)
        return mod

    def product(self, n):
        Ts = [make_abs('F%d' % i) for i in range(n)]
        names = ['f%d' % (n - i) for i in range(n)]
        T = Product.from_fields('P', dict(zip(names, Ts)), cache=False)

        def go(c):
            abs_axioms(c, *Ts)
            m = self.load()
            e, d, w, l = m.generate_assembler(T)
            tot = 0
            for t in Ts:
                tot = tot + t.width
            self.ob(c, 'width', sym.sb(w == tot))
            self.ob(c, 'get_width', sym.sb(m.get_width(T) == w))
            vs = [abs_value(c, t) for t in Ts]
            op = e(T(*vs))
            self.ob(c, 'opcode size', sym.sb(op.size == w))
            r = d(op)
            self.ob(c, 'type', type(r) is T)
            prev = 0
            for nm, t, v in zip(names, Ts, vs):
                self.ob(c, 'round trip of ' + nm, same_bits(v.fn, r.value_dict[nm].fn))
                lo, hi, _ = l[nm]
                self.ob(c, 'range of %s has its width' % nm, sym.sb(hi - lo == t.width))
                a = z(lo)
                self.ob(c, '%s occupies its range' % nm, same_bits(lambda k: op.fn(k + a), v.fn, 0, t.width))
            k = c.fresh_int()
            inr = [z3.And(k >= z(l[nm][0]), k < z(l[nm][1])) for nm in names]
            for i in range(n):
                for j in range(i):
                    self.ob(c, 'ranges %d and %d disjoint' % (j, i), z3.Not(z3.And(inr[i], inr[j])))
        self.run('product of %d' % n, go)

    def sum(self, n):
        def go(c):
            Ts = [make_abs('F%d' % (n - i)) for i in range(n)]
            T = Sum[tuple(Ts)]
            abs_axioms(c, *Ts)
            m = self.load()
            e, d, w, l = m.generate_assembler(T)
            self.ob(c, 'get_width', sym.sb(m.get_width(T) == w))
            for i, t in enumerate(Ts):
                v = abs_value(c, t)
                op = e(T(v))
                self.ob(c, 'variant %d opcode size' % i, sym.sb(op.size == w))
                r = d(op)
                self.ob(c, 'variant %d type' % i, type(r) is T)
                self.ob(c, 'variant %d selected' % i, type(r._value_) is t)
                self.ob(c, 'variant %d round trip' % i, same_bits(v.fn, r._value_.fn) if type(r._value_) is t else False)
                lo, hi, _ = l[t]
                self.ob(c, 'variant %d range width' % i, sym.sb(hi - lo == t.width))
                a = z(lo)
                self.ob(c, 'variant %d occupies its range' % i, same_bits(lambda k: op.fn(k + a), v.fn, 0, t.width))
        self.run('sum of %d' % n, go)

    def enum(self, pat):
        def go(c):
            m = self.load()
            E = types.new_class('E', (Enum,), {}, lambda d: [
                d.__setitem__('m%d' % i, Enum.Auto() if p == 'a' else 1000 + i) for i, p in enumerate(pat)] and None)
            codes = []
            ms = list(E.enumerate())
            for i, (x, p) in enumerate(zip(ms, pat)):
                if p == 'e':
                    v = SInt(z3.Int('code%d' % i))
                    c.assume(v.e >= 0)
                    for o in codes:
                        c.assume(o.e != v.e)
                    x._value_ = v
                    codes.append(v)
            e, d, w, l = m.generate_assembler(E)
            self.ob(c, 'get_width', sym.sb(m.get_width(E) == w))
            it = iter(codes)
            for i, x in enumerate(ms):
                op = e(x)
                self.ob(c, 'opcode size', sym.sb(op.size == w))
                self.ob(c, 'round trip of member %d' % i, d(op) is x)
                self.ob(c, 'range of member %d' % i, sym.sb(l[x][0] == 0) & sym.sb(l[x][1] == w))
                if pat[i] == 'e':
                    v = next(it)
                    r = op == v
                    self.ob(c, 'member %d is its value' % i, r.e if isinstance(r, SBit) else r)
        self.run('enum %s' % pat, go)

    def leaves(self):
        def vec(c):
            m = self.load()
            n = SInt(z3.Int('n'))
            c.assume(n.e >= 1)
            T = BVType(n)
            e, d, w, l = m.generate_assembler(T)
            self.ob(c, 'width', sym.sb(w == n))
            x = SymBV(n, c.fresh_fn('x'))
            op = e(x)
            self.ob(c, 'opcode', same_bits(op.fn, x.fn))
            self.ob(c, 'round trip', same_bits(d(op).fn, x.fn))

        def konst(c):
            m = self.load()
            n = SInt(z3.Int('n'))
            c.assume(n.e >= 1)
            K = SymBV(n, c.fresh_fn('k'))
            e, d, w, l = m._bv_const(K)
            self.ob(c, 'width', sym.sb(w == n))
            x = SymBV(n, c.fresh_fn('x'))
            j = c.fresh_int()
            for nm, f in (('encode', e), ('decode', d)):
                try:
                    r = f(x)
                except ValueError:
                    # some bit differs
                    q = z3.Int('q!c')
                    self.ob(c, nm + ' rejects only other values', z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.e), x.fn(q) == K.fn(q)))))
                    continue
                self.ob(c, nm + ' accepts only the constant', same_bits(x.fn, K.fn))
                self.ob(c, nm + ' returns it', same_bits(r.fn, K.fn))
        self.run('leaf vector', vec)
        self.run('constant', konst)


def types_(seed, n):
    r = random.Random(seed)
    out = []

    def leaf(bit=True):
        c = r.random()
        if c < .15 and bit:
            return ('bit',)
        if c < .5:
            return ('bv', r.choice([1, 2, 3, 4, 8, 13]))
        if c < .65:
            return (r.choice('su'), r.choice([2, 3, 5]))
        vs = r.sample(range(13), r.randint(1, 5))
        return ('enum', tuple(('m%d' % i, v if r.random() < .6 else None) for i, v in enumerate(vs)))

    def go(k, bit=True):
        if k == 0 or r.random() < .25:
            return leaf(bit)
        if r.random() < .6:
            fs = [go(k - 1) for _ in range(r.randint(1, 4))]
            return ('prod', tuple(zip(r.sample('pqrstuvw', len(fs)), fs)))
        fs = [go(k - 1, False) for _ in range(r.randint(1, 4))]
        return ('sum', tuple(dict.fromkeys(fs)))
    while len(out) < n:
        d = go(3)
        if d not in out and sum_ok(d) and width(d) < 60 and pos(d):
            out.append(d)
    return out


def pos(d):
    return width(d) >= 1 and all(pos(x) for _, x in subs(d))


def run(ck):
    ck.under_contract('auto_assembler.generate_assembler', 'auto_assembler.get_width', 'auto_assembler._enum', 'auto_assembler._product',
                      'auto_assembler._sum', 'auto_assembler._bv_field', 'auto_assembler._bv_const')
    ck.trust('hwtypes ADT construction and value_dict (executed, not verified)', 'contract of hwtypes vectors (vc/sym.py)',
             'induction principle over finite types')
    ck.assume('sum variants carry bit vectors (a raw Bit has no zext) and print distinct names', 'explicit enum codes are distinct nonnegative integers',
              'number of fields/variants/members enumerated (4, thorough 6); widths, values and codes unbounded')
    p = P(ck)
    N = 6 if ck.thorough else 4
    p.leaves()
    for n in range(1, N + 1):
        p.product(n)
        p.sum(n)
    import itertools
    for n in range(1, 4):
        for pat in itertools.product('ea', repeat=n):
            p.enum(''.join(pat))
    ds = types_(ck.seed, 400 if ck.thorough else 150) + [e for e in ENUMS if width(e)]
    ck.bound('%d concrete types, up to 60 values each; all constants of width up to 4' % len(ds))
    for d in ds:
        vs = values(d, 60)
        ck.case('roundtrip', d, tuple(vs))
        for v in vs[:12]:
            if not ck.case('layout', d, v):
                break
    for n in (1, 2, 3, 4):
        for k in ('bv', 'u', 's'):
            for c in range(1 << n):
                for x in range(1 << n):
                    ck.case('const', k, n, c, x)
    for c in (0, 1):
        for x in (0, 1):
            ck.case('const', 'bit', 1, c, x)
