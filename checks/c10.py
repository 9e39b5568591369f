"""Memories hold per-address the last value written.

The current RAM and ROM are executed on opaque cell contents, every address and a Boolean write
enable; the invariant "cell i holds the ghost content i" is inferred and shown inductive, so all
sequences of accesses are covered, for enumerated numbers of cells.  `unbounded` lifts the number of cells:
the constructor's loop is proved by its invariant and one access from an arbitrary content."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.tok import Tok, TokBit, Machine, mk_type
from vc.sym import Unsupported
from hwtypes import Bit, BitVector
from hwtypes.adt import Enum

LEVEL = 'proof'


class Addr:
    """an address: any of 0..n-1"""

    def __init__(self, c, n):
        self.n = n
        self.e = c.fresh_int('addr')
        c.assume(z3.And(self.e >= 0, self.e < n))
        self.c = c

    def __int__(self):
        return self.c.decide([(i, self.e == i) for i in range(self.n)])
    __index__ = as_uint = __int__

    def __eq__(self, o):
        return int(self) == int(o)

    def __hash__(self):
        return hash(int(self))


def machine(ck, kind, n, given):
    from peak import memory
    T = mk_type()

    def mk(c, name):
        v = T.__new__(T)
        v.e = z3.Const(name, tok.V)
        return v

    def make(c):
        if not hasattr(c, 'mem'):
            c.mem = [mk(c, 'd%d' % i) for i in range(given)]
            c.dflt = mk(c, 'default')
            c.init = [c.mem[i] if i < given else c.dflt for i in range(n)]
        obj = getattr(memory, kind)(T, n, c.mem, c.dflt)
        return obj, {'m%d' % i: c.init[i] for i in range(n)}

    def sel(G, a):
        e = G['m%d' % (n - 1)].e
        for i in reversed(range(n - 1)):
            e = z3.If(a.e == i, G['m%d' % i].e, e)
        return e

    def write(c, o, G):
        a, v, en = Addr(c, n), mk(c, 'v%d' % next(tok._n)), tok.tokbit(c, 'wen')
        old = sel(G, a)
        out = o(a, v, en)
        G1 = {'m%d' % i: Tok(z3.If(z3.And(en.e, a.e == i), v.e, G['m%d' % i].e)) for i in range(n)}
        return G1, [('returns the content before the access', out.e == old)]

    def read(c, o, G):
        a = Addr(c, n)
        if kind == 'ROM':
            out = o(a)
        else:
            out = o(a, mk(c, 'v%d' % next(tok._n)), 0)
        return G, [('read returns the content', out.e == sel(G, a))]

    def caller(c, o, G):
        for i in range(len(c.mem)):
            c.mem[i] = mk(c, 'x%d' % next(tok._n))
        a = Addr(c, n)
        out = o(a) if kind == 'ROM' else o(a, mk(c, 'y'), 0)
        return G, [("the caller's list is not the memory", out.e == sel(G, a))]
    ops = {'read': read, 'caller changes its list': caller}
    if kind == 'RAM':
        ops['access'] = write
    Machine(ck, '%s of %d cells, %d given' % (kind, n, given), make, ops).run()


class AbsList:
    """a list of symbolic length; `get(c, i)` gives element i"""

    def __init__(self, c, n, get):
        self.c, self.n, self.get, self.log = c, n, get, []

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a list of unknown length')
        i = sym.z(i)
        c = self.c
        if c.decide([('nonneg', i >= 0), ('neg', i < 0)]) == 'neg':
            i = i + self.n
        if c.decide([('in', z3.And(i >= 0, i < self.n)), ('out', z3.Or(i < 0, i >= self.n))]) == 'out':
            raise IndexError('list index out of range')
        return self.get(c, i)

    def append(self, x):
        self.log.append(x)

    def __iter__(self):
        raise Unsupported('iteration over a list of unknown length')

    def __len__(self):
        raise Unsupported('length of a list of unknown length')

    def __bool__(self):
        return bool(sym.SBool(self.n > 0))


class OldCell:
    """a cell appended by an earlier iteration"""


class SymRange:
    """the loop rule: one arbitrary iteration from a state allowed by the invariant"""

    def __init__(self, c, n, report):
        self.c, self.n, self.report, self.state = c, n, report, 0

    def __iter__(self):
        return self

    def mutable(self, frame):
        out = {}
        import gc
        for nm, v in list(frame.f_locals.items()) + [('global ' + k, v) for k, v in frame.f_globals.items()]:
            if isinstance(v, (list, dict, set)) and not nm.startswith('global __'):
                out[nm] = (id(v), repr(type(v)), len(v))
        return out

    def __next__(self):
        import gc
        import sys
        f = sys._getframe(1)
        me = f.f_locals.get('self')
        if me is None:
            raise Unsupported('loop outside a method')
        d = object.__getattribute__(me, '__dict__')
        if self.state == 0:
            self.state = 1
            ls = [k for k, v in d.items() if isinstance(v, list)]
            if len(ls) != 1 or d[ls[0]] or len(d) != 1:
                raise Unsupported('loop entered in an unexpected state')
            self.attr = ls[0]
            self.i = self.c.fresh_int('i')
            self.c.assume(z3.And(self.i >= 0, self.i < self.n))
            self.lst = AbsList(self.c, self.i, lambda c, j: OldCell())
            d[self.attr] = self.lst
            self.locals = dict(f.f_locals)
            self.mut = self.mutable(f)
            self.old = [o for o in gc.get_objects() if is_peak(o)]
            return sym.SInt(self.i)
        if self.state == 1:
            self.state = 2
            for k, v in self.locals.items():
                if f.f_locals.get(k) is not v:
                    raise Unsupported('the loop changes the variable %s' % k)
            m = self.mutable(f)
            for k, v in self.mut.items():
                if m.get(k) != v:
                    raise Unsupported('the loop changes the container %s' % k)
            if d.get(self.attr) is not self.lst or len(d) != 1:
                raise Unsupported('the loop changes other attributes')
            self.report(self, me)
            d[self.attr] = self.after
        raise StopIteration


def is_peak(o):
    from peak.peak import PeakMeta
    return isinstance(type(o), PeakMeta)


def unbounded(ck, kind):
    """any number of cells: loop invariant of the constructor, then one access in an arbitrary state"""
    from peak import memory
    label = '%s of any number of cells' % kind
    T = mk_type()

    def val(e):
        v = T.__new__(T)
        v.e = e
        return v

    def go(c):
        n, given = c.fresh_int('n'), c.fresh_int('given')
        c.assume(z3.And(n >= 1, given >= 0))
        D = z3.Function('data!%d' % next(tok._n), z3.IntSort(), tok.V)
        C = z3.Function('content!%d' % next(tok._n), z3.IntSort(), tok.V)
        dflt = z3.Const('default', tok.V)
        mem = AbsList(c, given, lambda c, i: val(D(i)))
        box = {}

        def report(loop, me):
            log = loop.lst.log
            ck.prove(label + ': loop invariant: every iteration appends one cell', c, len(log) == 1)
            r = log[0]
            fresh = not isinstance(r, OldCell) and all(r is not o for o in loop.old)
            ck.prove(label + ': loop invariant: the cell is a new object', c, fresh)
            ss = [s for s in tok.slots(r) if isinstance(s[1], Tok)]
            if len(ss) != 1 or not is_peak(r):
                raise Unsupported('state of a cell')
            ck.prove(label + ': loop invariant: cell i holds its initial content', c,
                     ss[0][1].e == z3.If(loop.i < given, D(loop.i), dflt))
            box['cell'] = r
            box['slot'] = ss[0]

            def get(c, i):
                box['i'] = i
                box['slot'][2](val(C(i)))
                return r
            loop.after = box['list'] = AbsList(c, n, get)
        glob = {'range': lambda *a: SymRange(c, a[0].e, report) if len(a) == 1 and isinstance(a[0], sym.SInt) else range(*a),
                'len': lambda x: sym.SInt(x.n) if isinstance(x, AbsList) else len(x),
                'int': lambda x: sym.SInt(x.e) if isinstance(x, SAddr) else int(x)}
        for k, v in glob.items():
            memory.__dict__[k] = v
        try:
            o = getattr(memory, kind)(T, sym.SInt(n), mem, val(dflt))
            if 'list' not in box or box['list'] not in object.__getattribute__(o, '__dict__').values():
                raise Unsupported('the constructor is not a loop over the cells')
            a, x, en = SAddr(c, n), val(z3.Const('x', tok.V)), tok.tokbit(c, 'wen')
            before = Machine.classes(o) + Machine.classes(box['cell'])
            state = dict(object.__getattribute__(o, '__dict__'))
            out = o(a) if kind == 'ROM' else o(a, x, en)
            ck.prove(label + ': the addressed cell is accessed', c, box.get('i') is not None and box['i'] == a.e)
            ck.prove(label + ': returns the content before the access', c, out.e == C(a.e))
            now = [s for s in tok.slots(box['cell']) if isinstance(s[1], Tok)]
            ck.prove(label + ': content afterwards', c, len(now) == 1 and now[0][1].e == (
                C(a.e) if kind == 'ROM' else z3.If(en.e, x.e, C(a.e))))
            st = object.__getattribute__(o, '__dict__')
            cl = Machine.classes(o) + Machine.classes(box['cell'])
            ck.prove(label + ': nothing else changes', c, not box['list'].log and st.keys() == state.keys() and all(
                st[k] is state[k] for k in st) and len(before) == len(cl) and all(p[2] is q[2] for p, q in zip(before, cl)))
        finally:
            for k in glob:
                memory.__dict__.pop(k, None)
        return True
    try:
        k = 0
        for c, (st, r) in sym.explore(go, stats=ck.stats, max_paths=200):
            if st == 'ok':
                k += 1
            else:
                ck.obl(label + ': no exception', 'undecided', 'engine', repr(r)[:400])
        ck.obl(label + ': paths reached', 'proved' if k else 'undecided', 'coverage', '%d' % k)
    except Exception as e:
        ck.obl(label, 'undecided', 'engine', repr(e)[:500])


class SAddr:
    """an address below n"""

    def __init__(self, c, n):
        self.e = c.fresh_int('addr')
        c.assume(z3.And(self.e >= 0, self.e < n))


# ---- concrete --------------------------------------------------------------

def history(kind, width, n, mem, init, ops):
    """ops: list of (which memory, address, data, enable); two memories from the same data"""
    from peak import memory
    T = BitVector[width]
    C = getattr(memory, kind)
    data = [T(x) for x in mem]
    ms = [C(T, n, data, T(init)), C(T, n, data, T(init))]
    model = [{i: T(mem[i]) if i < len(mem) else T(init) for i in range(n)} for _ in ms]
    for j, (w, a, d, en) in enumerate(ops):
        A = BitVector[16](a) if j % 2 else a
        out = ms[w](A) if kind == 'ROM' else ms[w](A, T(d), Bit(en) if j % 3 else bool(en))
        assert out == model[w][a], 'access %d of address %d gave %s, not %s' % (j, a, out, model[w][a])
        if kind == 'RAM' and en:
            model[w][a] = T(d)
    for w in (0, 1):
        for a in range(n):
            out = ms[w](a) if kind == 'ROM' else ms[w](a, T(0), Bit(0))
            assert out == model[w][a], 'finally memory %d holds %s at %d, not %s' % (w, out, a, model[w][a])


def default_init(kind, n, given):
    """without a default the cells past the data hold 0"""
    from peak import memory
    T = BitVector[8]
    m = getattr(memory, kind)(T, n, [T(i + 1) for i in range(given)])
    for a in range(n):
        out = m(a) if kind == 'ROM' else m(a, T(9), 0)
        assert out == (T(a + 1) if a < given else 0)


def alias():
    from peak import memory
    assert issubclass(memory.Memory, memory.RAM) or memory.Memory is memory.RAM
    m = memory.Memory(BitVector[8], 2, [])
    assert m(1, BitVector[8](7), 1) == 0 and m(1, BitVector[8](0), 0) == 7 and m(0, BitVector[8](0), 0) == 0


CASES = dict(history=history, default_init=default_init, alias=alias)


def run(ck):
    ck.under_contract('peak.memory.ROM.__init__', 'peak.memory.ROM.__call__', 'peak.memory.RAM.__call__', 'peak.register.gen_register2')
    ck.assume('addresses are below the number of cells (a negative Python integer is no address)')
    top = 6 if ck.thorough else 4
    ck.bound('inferred class invariant: number of cells enumerated, 1-%d with every amount of given data, and 9 (any number by the loop invariant)' % top)
    for kind in ('ROM', 'RAM'):
        for n in range(1, top + 1):
            for given in range(n + 2):
                machine(ck, kind, n, given)
        machine(ck, kind, 9, 4)
    for kind in ('ROM', 'RAM'):
        unbounded(ck, kind)
        for n in (1, 2, 3):
            steps = list(itertools.product(range(2), range(n), (0, 1)))
            for s in itertools.product(steps, repeat=2):
                ck.case('history', kind, 8, n, [5, 6], 9, [(w, a, 20 + i, e) for i, (w, a, e) in enumerate(s)])
        rnd = random.Random(ck.seed)
        for n in (4, 16, 40, 300):
            for _ in range(8 if not ck.thorough else 80):
                ck.case('history', kind, 16, n, [rnd.randrange(99) for _ in range(rnd.randrange(n + 3))], rnd.randrange(99),
                        [(rnd.randrange(2), rnd.randrange(n), rnd.randrange(9999), rnd.randrange(2)) for _ in range(60)])
        for n in range(1, 6):
            for g in range(n + 2):
                ck.case('default_init', kind, n, g)
    ck.case('alias')
