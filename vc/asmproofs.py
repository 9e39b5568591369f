"""Deductive proofs about both assembler generations.

Structural induction over ISA types.  The induction hypothesis is the contract of
Assembler(F) for an arbitrary field type F (asmc.install); the real code of every
constructor case is executed symbolically and its contract is proved from it.
Field widths, field values, opcodes and enum codes are symbolic and unbounded; the
number of fields/variants/members is enumerated up to N.
"""
import itertools
import types
import warnings

from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from . import sym
from .sym import *  # noqa
from .asmc import Gen
from .sym import SDict


def same(x, lo_x, y_fn, lo_y, w):
    """bits [lo_x, lo_x+w) of x equal bits [lo_y, lo_y+w) of y"""
    lx, ly = z(lo_x), z(lo_y)
    return same_bits(lambda k: x(k + lx), lambda k: y_fn(k + ly), 0, w)


class Proofs:
    def __init__(self, ck, want, gens=('assembler', 'assembler2'), N=4):
        self.ck, self.want, self.gens, self.N = ck, set(want), gens, N

    def ob(self, c, prop, name, f):
        if prop in self.want:
            self.ck.prove('%s: %s' % (self.label, name), c, f)

    def scenario(self, label, fn, must_reach=True):
        self.label = label
        self.reached = set()

        def go(c):
            try:
                return fn(c)
            finally:
                for g in self.live:
                    g.close()
        self.live = []
        ck = self.ck
        try:
            res = explore(go, stats=ck.stats)
        except Unsupported as e:
            ck.obl(label, 'undecided', 'engine', str(e))
            return
        except Exception as e:
            ck.obl(label, 'undecided', 'engine', '%s: %s' % (type(e).__name__, e))
            return
        n = 0
        for c, (kind, r) in res:
            if kind == 'ok':
                n += 1
                continue
            import traceback
            tb = ''.join(traceback.format_exception(r))[-1200:]
            ck.obl(label + ': no exception', 'undecided', 'engine', tb)
        if n and kind == 'ok':
            ck.obl(label + ': paths reached', 'proved', 'coverage', '%d paths' % n)
        elif not n:
            ck.obl(label + ': paths reached', 'undecided', 'coverage', 'no completed path')

    def gen(self, name):
        g = Gen(name)
        self.live.append(g)
        return g

    # ------------------------------------------------------------ leaves
    def leaves(self, gname):
        def bv(c):
            g = self.gen(gname)
            w = SInt(z3.Int('w'))
            c.assume(w.e >= 0)
            T = BVType(w)
            a = g.Assembler(T)
            self.ob(c, 'C01', 'width is the vector size', a.width == w)
            f = c.fresh_fn('x')
            x = SymBV(w, f)
            op = a.assemble(x, BV)
            self.ob(c, 'C01', 'opcode has the advertised width', op.size == a.width)
            self.ob(c, 'C01', 'opcode is the value', same_bits(op.fn, x.fn))
            r = a.disassemble(op)
            self.ob(c, 'C01', 'round trip', same_bits(r.fn, x.fn))
            self.ob(c, 'C01', 'round trip size', r.size == w)
            b = SymBV(w, c.fresh_fn('b'))
            self.ob(c, 'C02', 'every opcode valid', a.is_valid(b).e)
            d = a.disassemble(b)
            self.ob(c, 'C02', 'decodes to itself', same_bits(d.fn, b.fn))
            return True

        def bit(c):
            g = self.gen(gname)
            a = g.Assembler(SBit)
            self.ob(c, 'C01', 'width 1', a.width == 1)
            x = SBit(c.fresh_bool('x'))
            op = a.assemble(x, BV)
            self.ob(c, 'C01', 'opcode width', op.size == 1)
            self.ob(c, 'C01', 'opcode is the bit', op.fn(z3.IntVal(0)) == x.e)
            r = a.disassemble(op)
            self.ob(c, 'C01', 'round trip', r.e == x.e)
            b = SymBV(1, c.fresh_fn('b'))
            self.ob(c, 'C02', 'every opcode valid', a.is_valid(b).e)
            return True
        self.scenario('%s leaf bit vector' % gname, bv)
        self.scenario('%s leaf bit' % gname, bit)

    # ------------------------------------------------------------ products
    def products(self, gname, kind, n):
        def mk():
            Ts = [make_abs('F%d' % i) for i in range(n)]
            if kind == 'product':
                names = ['f%d' % (n - i) for i in range(n)]       # declaration order differs from name order
                P = Product.from_fields('P', dict(zip(names, Ts)), cache=False)
            else:
                names = list(range(n))
                P = Tuple[tuple(Ts)]
            return Ts, names, P
        # Tuple[...] caches on the field types: build once per scenario
        Ts, names, P = mk()

        def run(c):
            g = self.gen(gname)
            abs_axioms(c, *Ts)
            a = g.Assembler(P)
            offs, off = [], 0
            for T in Ts:
                offs.append(off)
                off = off + T.width
            self.ob(c, 'C01', 'width is the sum of the field widths', a.width == off)
            vs = [abs_value(c, T) for T in Ts]
            inst = P(*vs)
            op = a.assemble(inst, BV)
            self.ob(c, 'C01', 'opcode has the advertised width', op.size == a.width)
            r = a.disassemble(op)
            self.ob(c, 'C01', 'disassembly has the type', type(r) is P)
            for i, nm in enumerate(names):
                self.ob(c, 'C01', 'round trip of field %d' % i, same_bits(vs[i].fn, r.value_dict[nm].fn))
                self.ob(c, 'C03', 'field %d occupies its range' % i, same(op.fn, offs[i], vs[i].fn, 0, Ts[i].width))
                if gname == 'assembler':
                    lo, hi = a.layout[nm]
                    self.ob(c, 'C03', 'layout of field %d' % i, sym.sb(lo == offs[i]) & sym.sb(hi == offs[i] + Ts[i].width))
                else:
                    for key in ([nm, i] if kind == 'product' else [nm]):
                        x = a.extract(op, key)
                        self.ob(c, 'C03', 'extract %d size' % i, x.size == Ts[i].width)
                        self.ob(c, 'C03', 'extract %d' % i, same_bits(x.fn, vs[i].fn))
            return True

        def valid(c):
            g = self.gen(gname)
            abs_axioms(c, *Ts)
            a = g.Assembler(P)
            off, parts = 0, []
            b = SymBV(a.width, c.fresh_fn('b'))
            for T in Ts:
                parts.append((off, T))
                off = off + T.width
            oks = [abs_valid(T, b[o:o + T.width]).e for o, T in parts]
            v = a.is_valid(b)
            self.ob(c, 'C02', 'valid iff every field is valid', v.e == z3.And(*oks))
            try:
                r = a.disassemble(b) if gname == 'assembler' or bool(v) else None
            except ValueError:
                self.ob(c, 'C02', 'ValueError only on invalid opcodes', z3.Not(z3.And(*oks)))
                self.reached.add('invalid')
                return True
            if r is None:
                return True
            self.ob(c, 'C02', 'disassembly succeeds only on valid opcodes', z3.And(*oks))
            for (o, T), nm in zip(parts, names):
                self.ob(c, 'C02', 'disassembled field %s is the opcode range' % nm, same(b.fn, o, r.value_dict[nm].fn, 0, T.width))
            op = a.assemble(r, BV)
            self.ob(c, 'C02', 'valid opcodes re-assemble', same_bits(op.fn, b.fn))
            return True
        if self.want & {'C01', 'C03'}:
            self.scenario('%s %s of %d fields' % (gname, kind, n), run)
        if 'C02' in self.want:
            self.scenario('%s %s of %d fields, opcodes' % (gname, kind, n), valid)

    # ------------------------------------------------------------ sums
    def sums(self, gname, kind, classes, order=1):
        """classes: field type index per variant (repetition only in tagged unions)"""
        n = len(classes)
        Ts = [make_abs('F%d' % i) for i in range(max(classes) + 1)]
        fts = [Ts[k] for k in classes]
        if kind == 'tagged union':
            names = ['n%d' % ((n - i) if order < 0 else i) for i in range(n)]
            P = TaggedUnion.from_fields('U', dict(zip(names, fts)), cache=False)
        else:
            P = Sum[tuple(fts)]
            names = fts
        lab = '%s %s %r%s' % (gname, kind, classes, '' if order > 0 else ' reversed names')
        tw = (n - 1).bit_length()

        def wid():
            m = fts[0].width
            for T in fts[1:]:
                m = smax(m, T.width)
            return m

        def tags(g, a):
            """tag of each variant, observed by assembling it (identical on every value: proved below)"""
            if gname == 'assembler':
                return [int(a._tag_asm(nm)) for nm in names] if hasattr(a, '_tag_asm') else None
            return None

        def run(c):
            g = self.gen(gname)
            abs_axioms(c, *Ts)
            a = g.Assembler(P)
            self.ob(c, 'C01', 'width is tag plus widest payload', a.width == wid() + tw)
            seen = {}
            for i, nm in enumerate(names):
                v = abs_value(c, fts[i])
                inst = P(**{nm: v}) if kind == 'tagged union' else P(v)
                op = a.assemble(inst, BV)
                self.ob(c, 'C01', 'variant %d opcode has the advertised width' % i, op.size == a.width)
                r = a.disassemble(op)
                self.ob(c, 'C01', 'variant %d: type' % i, type(r) is P)
                sel = [k for k, x in r.value_dict.items() if x is not None]
                self.ob(c, 'C01', 'variant %d: round trip selects it' % i, sel == [nm])
                x = r.value_dict[nm]
                self.ob(c, 'C01', 'variant %d: round trip payload' % i,
                        same_bits(v.fn, x.fn) if x is not None else False)
                self.ob(c, 'C03', 'variant %d payload follows the tag' % i, same(op.fn, tw, v.fn, 0, fts[i].width))
                self.ob(c, 'C03', 'variant %d pads with zero' % i,
                        same_bits(op.fn, lambda k: z3.BoolVal(False), fts[i].width + tw, None))
                tag = op[0:tw]
                bits = [z3.simplify(tag.fn(z3.IntVal(j))) for j in range(tw)]
                t = 0
                for j, e in enumerate(bits):
                    if c.proves(e):
                        t |= 1 << j
                    elif not c.proves(z3.Not(e)):
                        t = None
                        break
                self.ob(c, 'C04', 'variant %d tag does not depend on the payload' % i, t is not None)
                self.ob(c, 'C04', 'variant %d tag in 0..n-1' % i, t is not None and 0 <= t < n)
                self.ob(c, 'C04', 'variant %d tag is its own' % i, t not in seen)
                seen[t] = i
                if gname == 'assembler':
                    lo, hi = a.layout[nm]
                    self.ob(c, 'C03', 'layout of variant %d' % i, sym.sb(lo == tw) & sym.sb(hi == fts[i].width + tw))
                    self.ob(c, 'C03', 'tag layout', tuple(a.tag_layout) == (0, tw))
                    self.ob(c, 'C04', 'tag width', a.tag_width == tw)
                    tb = a.assemble_tag(nm, BV)
                    self.ob(c, 'C04', 'assemble_tag %d' % i, same_bits(tb.fn, op.fn, 0, tw))
                    self.ob(c, 'C04', 'assemble_tag size', tb.size == tw)
                    self.ob(c, 'C04', 'disassemble_tag %d' % i, a.disassemble_tag(tb) is nm or a.disassemble_tag(tb) == nm)
                else:
                    x = a.extract(op, nm)
                    self.ob(c, 'C03', 'extract variant %d' % i, same_bits(x.fn, v.fn))
                    self.ob(c, 'C03', 'extract variant %d size' % i, x.size == fts[i].width)
                    for j, mm in enumerate(names):
                        m = a.match(op, mm)
                        self.ob(c, 'C05', 'match of variant %d on variant %d' % (j, i), m.e == (i == j))
            if gname == 'assembler':
                tb = SymBV(tw, c.fresh_fn('t'))
                isv = a.is_valid_tag(tb)
                val = z3.Sum([z3.IntVal(0)] + [z3.If(tb.fn(z3.IntVal(j)), z3.IntVal(1 << j), z3.IntVal(0)) for j in range(tw)])
                self.ob(c, 'C04', 'tag valid iff in 0..n-1', isv.e == (val < n))
            return True

        def valid(c):
            g = self.gen(gname)
            abs_axioms(c, *Ts)
            a = g.Assembler(P)
            tagof = []
            for i, nm in enumerate(names):
                v = abs_value(c, fts[i])
                op = a.assemble(P(**{nm: v}) if kind == 'tagged union' else P(v), BV)
                tagof.append([c.proves(op.fn(z3.IntVal(j))) for j in range(tw)])
            b = SymBV(wid() + tw, c.fresh_fn('b'))
            oks = []
            for i in range(n):
                sel = z3.And(*[b.fn(z3.IntVal(j)) == tagof[i][j] for j in range(tw)])
                oks.append(z3.And(sel, abs_valid(fts[i], b[tw:fts[i].width + tw]).e))
            v = a.is_valid(b)
            self.ob(c, 'C02', 'valid iff the tag is declared and its payload valid', v.e == z3.Or(*oks))
            try:
                r = a.disassemble(b) if gname == 'assembler' or bool(v) else None
            except ValueError:
                self.ob(c, 'C02', 'ValueError only on invalid opcodes', z3.Not(z3.Or(*oks)))
                return True
            if r is None:
                return True
            self.ob(c, 'C02', 'disassembly succeeds only on valid opcodes', z3.Or(*oks))
            sel = [k for k, x in r.value_dict.items() if x is not None]
            i = [q for q, nm in enumerate(names) if [nm] == sel]
            self.ob(c, 'C02', 'exactly one variant selected', len(i) == 1)
            if len(i) == 1:
                i = i[0]
                self.ob(c, 'C02', 'the selected variant is the one the tag names', oks[i])
                self.ob(c, 'C02', 'payload is the opcode range', same(b.fn, tw, r.value_dict[names[i]].fn, 0, fts[i].width))
                op = a.assemble(r, BV)
                self.ob(c, 'C02', 'valid opcodes re-assemble on the used bits', same_bits(op.fn, b.fn, 0, fts[i].width + tw))
            return True
        if self.want & {'C01', 'C03', 'C04', 'C05'}:
            self.scenario(lab, run)
        if 'C02' in self.want:
            self.scenario(lab + ', opcodes', valid)

    # ------------------------------------------------------------ assembled values
    def aadts(self, gname, kind, classes):
        n = len(classes)
        Ts = [make_abs('F%d' % i) for i in range(max(classes) + 1)]
        fts = [Ts[k] for k in classes]
        if kind == 'tagged union':
            names = ['n%d' % ((n - i) if n % 2 else i) for i in range(n)]
            P = TaggedUnion.from_fields('U', dict(zip(names, fts)), cache=False)
        elif kind == 'sum':
            P, names = Sum[tuple(fts)], fts
        elif kind == 'product':
            names = ['f%d' % (n - i) for i in range(n)]
            P = Product.from_fields('P', dict(zip(names, fts)), cache=False)
        else:
            P, names = Tuple[tuple(fts)], list(range(n))
        tw = (n - 1).bit_length() if kind in ('sum', 'tagged union') else 0
        attr = kind in ('product', 'tagged union')

        def run(c):
            g = self.gen(gname)
            M = g.pkg['assembled_adt']
            abs_axioms(c, *Ts)
            a = g.Assembler(P)
            A = M.AssembledADT[P, g.Assembler, BV]
            b = SymBV(a.width, c.fresh_fn('b'))
            x = A(b)
            self.ob(c, 'C05', 'wraps the opcode', same_bits(x._value_.fn, b.fn))
            self.ob(c, 'C05', 'opcode size', x._value_.size == a.width)
            y = A(x)
            self.ob(c, 'C05', 'wraps an assembled value', same_bits(y._value_.fn, b.fn))
            off = tw
            for i, (nm, F) in enumerate(zip(names, fts)):
                r = getattr(x, nm) if attr else x[nm]
                if kind in ('sum', 'tagged union'):
                    v = abs_value(c, F)
                    inst = P(**{nm: v}) if kind == 'tagged union' else P(v)
                    xi = A(inst)
                    self.ob(c, 'C05', 'variant %d: wraps the assembled opcode' % i,
                            same_bits(xi._value_.fn, a.assemble(inst, BV).fn))
                    for j, (mm, G) in enumerate(zip(names, fts)):
                        rj = getattr(xi, mm) if attr else xi[mm]
                        self.ob(c, 'C05', 'variant %d read as %d: match flag' % (i, j), sym.sb(rj.match).pos == (i == j))
                    rv = (getattr(xi, nm) if attr else xi[nm])
                    self.ob(c, 'C05', 'variant %d: payload' % i, same_bits(rv.value._value_.fn, v.fn))
                    r = r.value
                self.ob(c, 'C05', 'field %d has the assembled field type' % i, type(r) is M.AssembledADT[F, g.Assembler, BV])
                self.ob(c, 'C05', 'field %d size' % i, r._value_.size == F.width)
                self.ob(c, 'C05', 'field %d reads its range' % i, same(b.fn, off, r._value_.fn, 0, F.width))
                if not tw and kind in ('product', 'tuple'):
                    off = off + F.width
            if kind in ('product', 'tuple'):
                vs = [abs_value(c, F) for F in fts]
                inst = P(*vs)
                xi = A(inst)
                self.ob(c, 'C05', 'wraps the assembled opcode', same_bits(xi._value_.fn, a.assemble(inst, BV).fn))
                for i, (nm, F) in enumerate(zip(names, fts)):
                    r = getattr(xi, nm) if attr else xi[nm]
                    self.ob(c, 'C05', 'value field %d' % i, same_bits(r._value_.fn, vs[i].fn))
            return True
        self.scenario('%s assembled %s %r' % (gname, kind, classes), run)

    def aadts_from_fields(self, gname, kind, classes, widths):
        n = len(classes)
        Ts = [make_abs('F%d' % i, widths[i]) for i in range(max(classes) + 1)]
        fts = [Ts[k] for k in classes]
        if kind == 'tagged union':
            names = ['n%d' % ((n - i) if n % 2 else i) for i in range(n)]
            P = TaggedUnion.from_fields('U', dict(zip(names, fts)), cache=False)
        elif kind == 'sum':
            P, names = Sum[tuple(fts)], fts
        elif kind == 'product':
            names = ['f%d' % (n - i) for i in range(n)]
            P = Product.from_fields('P', dict(zip(names, fts)), cache=False)
        else:
            P, names = Tuple[tuple(fts)], list(range(n))
        tw = (n - 1).bit_length()

        def run(c):
            g = self.gen(gname)
            M = g.pkg['assembled_adt']
            A = M.AssembledADT[P, g.Assembler, BV]
            AT = lambda F: M.AssembledADT[F, g.Assembler, BV]
            a = g.Assembler(P)
            if kind in ('product', 'tuple'):
                vs = [abs_value(c, F) for F in fts]
                want = a.assemble(P(*vs), BV)
                parts = [AT(F)(v) for F, v in zip(fts, vs)]
                ways = [('positional', lambda: A.from_fields(*parts))]
                if kind == 'product':
                    ways.append(('keyword', lambda: A.from_fields(**dict(reversed(list(zip(names, parts)))))))
                for w, f in ways:
                    x = f()
                    self.ob(c, 'C06', '%s parts: same bits' % w, same_bits(x._value_.fn, want.fn))
                    self.ob(c, 'C06', '%s parts: size' % w, x._value_.size == a.width)
                    self.ob(c, 'C06', '%s parts: type' % w, type(x) is A)
                return True
            for i, (nm, F) in enumerate(zip(names, fts)):
                v = abs_value(c, F)
                want = a.assemble(P(**{nm: v}) if kind == 'tagged union' else P(v), BV)
                part = AT(F)(v)
                for dflt in ((None, 0, 1) if gname == 'assembler' else (None,)):
                    k = {} if dflt is None else {'default_bv': dflt}
                    x = A.from_fields(**{nm: part}, **k) if kind == 'tagged union' else A.from_fields(nm, part, **k)
                    t = 'variant %d, default %r' % (i, dflt)
                    self.ob(c, 'C06', t + ': used bits', same_bits(x._value_.fn, want.fn, 0, tw + F.width))
                    self.ob(c, 'C06', t + ': unused bits', same_bits(x._value_.fn, lambda k: z3.BoolVal(bool(dflt)), tw + F.width, a.width))
                    self.ob(c, 'C06', t + ': size', x._value_.size == a.width)
            return True
        self.scenario('%s assembled %s %r of widths %r from parts' % (gname, kind, classes, tuple(widths)), run)

    # ------------------------------------------------------------ enums
    def enums(self, gname, pattern):
        """pattern: string of 'e' (explicit symbolic code) / 'a' (auto) per member"""
        def mkE(c):
            ns = {}
            E = types.new_class('E', (Enum,), {}, lambda d: [
                d.__setitem__('m%d' % i, Enum.Auto() if p == 'a' else 1000 + i) for i, p in enumerate(pattern)] and None)
            ms = list(E.enumerate())
            codes = []
            for i, (m, p) in enumerate(zip(ms, pattern)):
                if p == 'e':
                    e = SInt(z3.Int('code%d' % i))
                    c.assume(e.e >= 0)
                    for o in codes:
                        c.assume(o.e != e.e)
                    m._value_ = e
                    codes.append(e)
            return E, ms, codes

        def setup(c):
            g = self.gen(gname)
            E, ms, codes = mkE(c)
            # callee contract of the validator generator (proved/bounded on its own, C02)
            calls = []

            def gen_is_valid(opcodes, width):
                ops = list(opcodes)
                calls.append((ops, width))

                def is_valid(b):
                    if bool(sym.sb(b.size != width)):
                        raise Anomaly('validator used at another width')
                    r = SBit(False)
                    for o in ops:
                        r = r | (b == o)
                    return r
                return is_valid
            if not hasattr(g.mod, '_gen_is_valid'):
                raise Unsupported('_gen_is_valid not found')
            g.mod._gen_is_valid = gen_is_valid
            return g, E, ms, codes, calls

        def run(c):
            g, E, ms, codes, calls = setup(c)
            a = g.Assembler(E)
            ops = [a.assemble(m, BV) for m in ms]
            srcs = []
            for i, op in enumerate(ops):
                if op.src is None:
                    t = z3.simplify(z3.Int('none'))
                    # a constant code
                    raise_if = None
                    w = op.size
                    srcs.append(None)
                else:
                    srcs.append(op.src)
            # codes as integers: explicit are given; auto codes come out as constants on each path
            ints = []
            it = iter(codes)
            for i, p in enumerate(pattern):
                if p == 'e':
                    e = next(it)
                    ints.append(e.e)
                    self.ob(c, 'C04', 'explicit member %d is encoded as its value' % i, ops[i] == e if not isinstance(ops[i] == e, SBit) else (ops[i] == e).e)
                else:
                    v = auto_code(c, ops[i], len(pattern))
                    self.ob(c, 'C04', 'auto member %d has a definite small code' % i, v is not None)
                    if v is None:
                        return True
                    ints.append(z3.IntVal(v))
            expl = [x for x, p in zip(ints, pattern) if p == 'e']
            prev = []
            for i, p in enumerate(pattern):
                if p == 'a':
                    v = ints[i].as_long()
                    # smallest integer used neither explicitly nor by an earlier auto member
                    for u in range(v):
                        self.ob(c, 'C04', 'auto member %d takes the smallest unused code' % i,
                                z3.Or(*[x == u for x in expl + prev]) if expl + prev else z3.BoolVal(False))
                    self.ob(c, 'C04', 'auto member %d code is unused' % i, z3.And(*[x != v for x in expl + prev]) if expl + prev else True)
                    prev.append(ints[i])
            for i, j in itertools.combinations(range(len(ints)), 2):
                self.ob(c, 'C04', 'codes %d and %d differ' % (i, j), ints[i] != ints[j])
            m = ints[0]
            for x in ints[1:]:
                m = z3.If(m >= x, m, x)
            self.ob(c, 'C04', 'width is exactly what the largest code needs', sym.sb(a.width == mk_int(sym.int_len(m))))
            for i, op in enumerate(ops):
                self.ob(c, 'C01', 'opcode %d has the advertised width' % i, op.size == a.width)
                r = a.disassemble(op)
                self.ob(c, 'C01', 'round trip of member %d' % i, r is ms[i])
            self.ob(c, 'C02', 'the validator is built for exactly the codes and the width',
                    len(calls) == 1 and len(calls[0][0]) == len(ints))
            if len(calls) == 1 and len(calls[0][0]) == len(ints):
                cs = [z(x) for x in calls[0][0]]
                self.ob(c, 'C02', 'the validator gets exactly the codes', z3.And(*[z3.Or(*[x == y for y in ints]) for x in cs] + [z3.Or(*[x == y for y in cs]) for x in ints]))
                self.ob(c, 'C02', 'the validator gets the width', sym.sb(calls[0][1] == a.width))
            return True
        self.scenario('%s enum %s' % (gname, pattern), run)

    # ------------------------------------------------------------ nested sub-slices
    def nested_sub(self):
        gname = 'assembler'

        def mk(shape, Ts):
            if isinstance(shape, int):
                return Ts[shape]
            k, fs = shape
            if k == 'p':
                return Product.from_fields('P', {'x%d' % i: mk(f, Ts) for i, f in enumerate(fs)}, cache=False)
            if k == 't':
                return Tuple[tuple(mk(f, Ts) for f in fs)]
            if k == 'u':
                return TaggedUnion.from_fields('U', {'x%d' % i: mk(f, Ts) for i, f in enumerate(fs)}, cache=False)
            if k == 's':
                return Sum[tuple(mk(f, Ts) for f in fs)]

        def specs(shape, T, Ts, off):
            """(path, lo, width) and tag ranges, widths as in the property text"""
            out, tg = [], []
            if isinstance(shape, int):
                return Ts[shape].width, out, tg
            k, fs = shape
            keys = list(T.field_dict)
            if k in 'pt':
                o = off
                for key, f in zip(['x%d' % i if k == 'p' else i for i in range(len(fs))], fs):
                    w, so, st = specs(f, T.field_dict[key], Ts, o)
                    out.append(((key,), o, w))
                    out += [((key,) + p, a, b) for p, a, b in so]
                    tg += [((key,) + p, a, b) for p, a, b in st]
                    o = o + w
                return o - off, out, tg
            tw = (len(fs) - 1).bit_length()
            tg.append(((), off, tw))
            m = 0
            for i, f in enumerate(fs):
                sT = mk_of(T, i, f, k)
                key = 'x%d' % i if k == 'u' else sT
                w, so, st = specs(f, sT, Ts, off + tw)
                out.append(((key,), off + tw, w))
                out += [((key,) + p, a, b) for p, a, b in so]
                tg += [((key,) + p, a, b) for p, a, b in st]
                m = smax(m, w)
            return m + tw, out, tg

        def mk_of(T, i, f, k):
            return T.field_dict['x%d' % i] if k == 'u' else self._sumkeys[id(T)][i]
        shapes = [('p', [0, ('p', [1, 2]), 0]), ('t', [('p', [0, ('t', [1, 2])]), 1]),
                  ('p', [0, ('u', [1, 2, ('p', [0, 1])])]), ('u', [0, ('t', [1, ('u', [0, 0, 2])])]),
                  ('t', [0, ('s', [1, 2, 0]), 2])]
        for shape in shapes:
            Ts = [make_abs('F%d' % i) for i in range(3)]
            for T in Ts:
                T._sym_leaf_ = 'bv'
            P = mk(shape, Ts)
            self._sumkeys = {}

            def reg(shape, T):
                if isinstance(shape, int):
                    return
                k, fs = shape
                if k == 's':
                    self._sumkeys[id(T)] = [Ts[f] for f in fs]
                    return
                for key, f in zip(list(T.field_dict), fs):
                    reg(f, T.field_dict[key])
            reg(shape, P)

            def run(c):
                g = self.gen(gname)
                abs_axioms(c, *Ts)
                a = g.Assembler(P)
                w, fields, tags = specs(shape, P, Ts, 0)
                self.ob(c, 'C03', 'width', a.width == w)
                for path, lo, fw in fields:
                    s = a.sub[path].idx
                    self.ob(c, 'C03', 'sub slice %r' % (path,), sym.sb(s.start == lo) & sym.sb(s.stop == lo + fw))
                for path, lo, fw in tags:
                    s = a.sub[path].tag_idx
                    self.ob(c, 'C03', 'tag slice %r' % (path,), sym.sb(s.start == lo) & sym.sb(s.stop == lo + fw))
                s = a.sub.idx
                self.ob(c, 'C03', 'whole slice', sym.sb(s.start == 0) & sym.sb(s.stop == w))
                return True
            self.scenario('assembler nested sub %r' % (shape,), run)

    def all(self):
        ck = self.ck
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for g in self.gens:
                if self.want & {'C01', 'C02'}:
                    self.leaves(g)
                if self.want & {'C01', 'C02', 'C03'}:
                    for kind in ('product', 'tuple'):
                        for n in range(1, self.N + 1):
                            self.products(g, kind, n)
                for n in range(1, self.N + 1) if self.want & {'C01', 'C02', 'C03', 'C04', 'C05'} else ():
                    self.sums(g, 'sum', tuple(range(n)))
                    for p in partitions(n):
                        self.sums(g, 'tagged union', p)
                    if n > 1:
                        self.sums(g, 'tagged union', tuple(range(n)), -1)
                        self.sums(g, 'tagged union', (0,) + tuple(range(n - 1)), -1)
                if self.want & {'C01', 'C02', 'C04'}:
                    for k in range(1, self.N):
                        for pat in itertools.product('ea', repeat=k):
                            self.enums(g, ''.join(pat))
                if 'C05' in self.want:
                    for n in range(1, self.N + 1):
                        self.aadts(g, 'product', tuple(range(n)))
                        self.aadts(g, 'product', (0,) * n)
                        self.aadts(g, 'tuple', tuple(range(n)))
                        self.aadts(g, 'sum', tuple(range(n)))
                        for p in partitions(n):
                            self.aadts(g, 'tagged union', p)
                if 'C06' in self.want:
                    for ws in ((1, 2, 3), (3, 1, 2), (2, 2, 1), (5, 1, 1), (4, 5, 9), (9, 4, 5), (16, 7, 3), (3, 8, 32)):
                        self.aadts_from_fields(g, 'product', (0, 1, 2), ws)
                        self.aadts_from_fields(g, 'tuple', (0, 1, 2), ws)
                        self.aadts_from_fields(g, 'sum', (0, 1, 2), ws)
                        for p in partitions(3):
                            self.aadts_from_fields(g, 'tagged union', p, ws)
                    for ws in itertools.product(range(1, 6), repeat=2):
                        for kind in ('product', 'tuple', 'sum', 'tagged union'):
                            self.aadts_from_fields(g, kind, (0, 1), ws)
                    for ws in ((1,), (4,)):
                        for kind in ('product', 'tuple'):
                            self.aadts_from_fields(g, kind, (0,), ws)
            if 'C03' in self.want:
                self.nested_sub()


def auto_code(c, op, n):
    """the constant an auto member is encoded as on this path"""
    if op.src is not None:
        e = z3.simplify(op.src)
        return e.as_long() if z3.is_int_value(e) else None
    for v in range(n + 1):
        f = const_fn(v)
        if c.proves(same_bits(op.fn, f)):
            return v
    return None


def partitions(n):
    """restricted growth strings: every way of giving n variants equal/different types"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from go(p + [k], max(m, k + 1))
    return list(go([], 0))
