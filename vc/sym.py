"""Symbolic values and path exploration for the contract verifier.

The real functions of /repo are executed natively by CPython (see load.py for
the few mechanical changes made to the source on every run).  Inputs are the
proxies defined here.  A branch on a symbolic condition forks; the function is
re-executed once per feasible path, so every path of the function is covered.
Obligations are closed first-order formulas discharged by z3 (`unsat` of the
negation under the path condition).

Representation: a bit string (BitVector value or nonnegative int) is a function
from bit index (z3 Int) to z3 Bool.  Shifts, or/and/xor, slices, concatenation
and zero extension are pointwise on that function, so widths may be symbolic and
unbounded, and equality of two bit strings is one quantifier-free query at a
fresh (skolem) index.
"""
import itertools
import time
import z3

real_int, real_isinstance, real_issubclass = int, isinstance, issubclass
real_range, real_len, real_max, real_min, real_sum = range, len, max, min, sum


class Unsupported(Exception):
    """The code left the fragment the proxies model: the proof is undecided."""


class Infeasible(BaseException):
    """The current path condition became unsatisfiable."""


class Budget(Unsupported):
    pass


class Ctx:
    """One symbolic execution (one path) of a function."""

    def __init__(self, prefix, stats, timeout_ms=8000, forked=None):
        self.prefix = prefix            # decisions to replay
        self.trace = []                 # decisions taken
        self.alts = []                  # unexplored feasible alternatives
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.pc = []
        self.fresh_n = itertools.count()
        self.stats = stats
        self.valid_tab = {}
        self.cut = False

    def fresh_int(self, name='k'):
        return z3.Int('%s!%d' % (name, next(self.fresh_n)))

    def fresh_bool(self, name='b'):
        return z3.Bool('%s!%d' % (name, next(self.fresh_n)))

    def fresh_fn(self, name='f'):
        return z3.Function('%s!%d' % (name, next(self.fresh_n)), z3.IntSort(), z3.BoolSort())

    def assume(self, e):
        if e is True or e is None:
            return
        if e is False:
            raise Infeasible()
        self.pc.append(e)
        self.solver.add(e)

    def check(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        self.stats['solver_s'] = self.stats.get('solver_s', 0) + time.time() - t
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        return r

    def proves(self, e):
        """True iff the path condition implies e (unknown counts as no)."""
        if real_isinstance(e, bool):
            return e
        return self.check(z3.Not(e)) == z3.unsat

    def feasible(self, e):
        if real_isinstance(e, bool):
            return e
        return self.check(e) != z3.unsat

    def decide(self, options):
        """options: list of (label, z3 assumption).  Fork among the feasible."""
        i = real_len(self.trace)
        if i < real_len(self.prefix):
            want = self.prefix[i]
            for label, e in options:
                if label == want:
                    self.trace.append(label)
                    self.assume(e)
                    return label
            raise Unsupported('nondeterministic re-execution')
        feas = [(l, e) for l, e in options if self.feasible(e)]
        if not feas:
            raise Infeasible()
        for l, e in feas[1:]:
            self.alts.append(self.trace + [l])
        self.trace.append(feas[0][0])
        self.assume(feas[0][1])
        return feas[0][0]


CUR = None


def ctx():
    if CUR is None:
        raise Unsupported('symbolic value used outside a symbolic execution')
    return CUR


def explore(fn, max_paths=400, stats=None, timeout_ms=8000, deadline=None):
    """Run fn(ctx) once per feasible path.  Returns list of (ctx, result|exc)."""
    global CUR
    stats = stats if stats is not None else {}
    work = [[]]
    out = []
    while work:
        if real_len(out) >= max_paths:
            raise Budget('more than %d paths' % max_paths)
        if deadline and time.time() > deadline:
            raise Budget('time budget exhausted')
        c = Ctx(work.pop(), stats, timeout_ms)
        old, CUR = CUR, c
        try:
            try:
                r = ('ok', fn(c))
            except Infeasible:
                r = ('infeasible', None)
            except Unsupported:
                raise
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:          # raised by the code under proof
                r = ('raise', e)
            work.extend(c.alts)
            if r[0] != 'infeasible':
                out.append((c, r))
        finally:
            CUR = old
    return out


# ---------------------------------------------------------------- scalars
def z(e):
    """lift to a z3 Int expression"""
    if real_isinstance(e, SInt):
        return e.e
    if real_isinstance(e, bool):
        return z3.IntVal(real_int(e))
    if real_isinstance(e, real_int):
        return z3.IntVal(e)
    if real_isinstance(e, z3.ExprRef):
        return e
    raise Unsupported('not an int: %r' % (e,))


def mk_int(e):
    if real_isinstance(e, real_int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


class SBool:
    """A symbolic truth value.  `neg` may be a stronger skolemised negation."""
    __slots__ = ('pos', 'neg')

    def __init__(self, pos, neg=None):
        self.pos = pos
        self.neg = z3.Not(pos) if neg is None else neg

    def __bool__(self):
        p = z3.simplify(self.pos) if not real_isinstance(self.pos, bool) else self.pos
        if self.pos is True or (not real_isinstance(p, bool) and z3.is_true(p) and self.neg is None):
            return True
        return ctx().decide([('T', self.pos), ('F', self.neg)]) == 'T'

    def __and__(self, o):
        o = sb(o)
        return SBool(z3.And(self.pos, o.pos), z3.Or(self.neg, o.neg))
    __rand__ = __and__

    def __or__(self, o):
        o = sb(o)
        return SBool(z3.Or(self.pos, o.pos), z3.And(self.neg, o.neg))
    __ror__ = __or__

    def __invert__(self):
        return SBool(self.neg, self.pos)

    def __eq__(self, o):
        o = sb(o)
        return SBool(z3.Or(z3.And(self.pos, o.pos), z3.And(self.neg, o.neg)),
                     z3.Or(z3.And(self.pos, o.neg), z3.And(self.neg, o.pos)))

    def __hash__(self):
        return hash(bool(self))


def sb(x):
    if real_isinstance(x, SBool):
        return x
    if real_isinstance(x, bool):
        return SBool(z3.BoolVal(x), z3.BoolVal(not x))
    if real_isinstance(x, SBit):
        return SBool(x.e)
    if real_isinstance(x, z3.BoolRef):
        return SBool(x)
    raise Unsupported('not a bool: %r' % (x,))


def mk_bool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


class SInt:
    """A symbolic (unbounded) integer."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SInt(%s)' % self.e

    def _bin(self, o, f):
        if real_isinstance(o, SBits):
            return NotImplemented
        try:
            o = z(o)
        except Unsupported:
            return NotImplemented
        return mk_int(f(self.e, o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if real_isinstance(o, real_int):
            return mk_int(self.e * o)
        raise Unsupported('nonlinear product')
    __rmul__ = __mul__
    def __neg__(self): return mk_int(-self.e)
    def __pos__(self): return self

    def _cmp(self, o, f):
        try:
            o = z(o)
        except Unsupported:
            return NotImplemented
        return mk_bool(f(self.e, o))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(mk_bool(self.e != 0))

    def concrete(self):
        """Concretise by forking over every feasible value (finite ranges only)."""
        c = ctx()
        i = real_len(c.trace)
        if i < real_len(c.prefix):
            v = c.prefix[i]
            if not (real_isinstance(v, tuple) and v[0] == 'I'):
                raise Unsupported('nondeterministic re-execution')
            c.trace.append(v)
            c.assume(self.e == v[1])
            return v[1]
        vals = []
        c.solver.push()
        while c.check() == z3.sat:
            v = c.solver.model().eval(self.e, model_completion=True).as_long()
            vals.append(v)
            if real_len(vals) > 64:
                c.solver.pop()
                raise Unsupported('unbounded integer used where a concrete one is needed')
            c.solver.add(self.e != v)
        c.solver.pop()
        if not vals:
            raise Infeasible()
        vals.sort()
        for v in vals[1:]:
            c.alts.append(c.trace + [('I', v)])
        c.trace.append(('I', vals[0]))
        c.assume(self.e == vals[0])
        return vals[0]

    def __index__(self): return self.concrete()
    def __int__(self): return self.concrete()
    def __hash__(self): return hash(self.concrete())

    def __rlshift__(self, o):
        if real_isinstance(o, real_int) and o >= 0:
            return const_bits(o) << self
        return NotImplemented

    def __lshift__(self, n):
        if real_isinstance(n, real_int) and n == 0:
            return self
        return int_bits(self) << n

    def __rshift__(self, n):
        return self if real_isinstance(n, real_int) and n == 0 else int_bits(self) >> n

    def __or__(self, o):
        return NotImplemented if real_isinstance(o, SymBV) else int_bits(self) | o
    __ror__ = __or__

    def __and__(self, o):
        return NotImplemented if real_isinstance(o, SymBV) else int_bits(self) & o
    __rand__ = __and__

    def bit_length(self):
        return mk_int(int_len(self.e))

    def __abs__(self):
        raise Unsupported('abs')


IBIT = z3.Function('ibit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
ILEN = z3.Function('ilen', z3.IntSort(), z3.IntSort())


def int_len(e):
    """bit_length of the nonnegative integer e, with the facts of bit_length
    (zero iff 0, monotone) instantiated for every integer seen on this path"""
    c = ctx()
    e = z(e)
    reg = c.__dict__.setdefault('ints', {})
    if e.get_id() not in reg:
        if not c.proves(e >= 0):
            raise Unsupported('bit_length of a possibly negative integer')
        for o in list(reg.values()):
            c.assume(z3.Implies(e <= o, ILEN(e) <= ILEN(o)))
            c.assume(z3.Implies(o <= e, ILEN(o) <= ILEN(e)))
        if z3.is_int_value(e):
            c.assume(ILEN(e) == e.as_long().bit_length())
        c.assume(z3.And(ILEN(e) >= 0, (ILEN(e) == 0) == (e == 0)))
        for j in real_range(1, 6):
            c.assume((ILEN(e) <= j) == (e < (1 << j)))
        reg[e.get_id()] = e
    return ILEN(e)


def int_bits(v):
    """the bits of a symbolic nonnegative integer"""
    e = v.e
    ln = int_len(e)
    return SBits(lambda k: z3.And(k >= 0, k < ln, IBIT(e, k)), mk_int(ln), src=e)


# ---------------------------------------------------------------- bit strings
def const_fn(c):
    js = [j for j in real_range(c.bit_length()) if (c >> j) & 1]

    def fn(k):
        return z3.Or(*[k == j for j in js]) if js else z3.BoolVal(False)
    return fn


def const_bits(c):
    return SBits(const_fn(c), c.bit_length(), const=c, src=z3.IntVal(c))


class BitLen:
    """bit_length() of a symbolic nonnegative int: only comparisons are defined."""

    def __init__(self, b):
        self.b = b

    def _le(self, w):
        # bit_length <= w  iff  no bit at or above w
        k = ctx().fresh_int()
        fn = self.b.fn
        wz = z(w)
        if ctx().proves(z3.Not(z3.And(k >= wz, k >= 0, fn(k)))):
            return True
        return SBool(z3.BoolVal(True), z3.And(k >= wz, k >= 0, fn(k)))

    def __le__(self, w): return self._le(w)
    def __lt__(self, w): return self._le(w - 1)

    def __gt__(self, w):
        r = self._le(w)
        return (not r) if real_isinstance(r, bool) else ~r

    def __ge__(self, w):
        r = self._le(w - 1)
        return (not r) if real_isinstance(r, bool) else ~r


def same_bits(f, g, lo=0, hi=None):
    """closed formula whose validity means f and g agree on [lo, hi)"""
    k = ctx().fresh_int()
    rng = [k >= z(lo)]
    if hi is not None:
        rng.append(k < z(hi))
    return z3.Implies(z3.And(*rng), f(k) == g(k))


class SBits:
    """A symbolic nonnegative Python int, seen as its bits."""

    def __init__(self, fn, bl=None, const=None, src=None):
        self.fn = fn
        self.bl = bl
        self.const = const
        self.src = src          # z3 Int this is the binary expansion of, if known

    @staticmethod
    def lift(o):
        if real_isinstance(o, SBits):
            return o
        if real_isinstance(o, SInt):
            return int_bits(o)
        if real_isinstance(o, bool):
            return const_bits(real_int(o))
        if real_isinstance(o, real_int):
            if o < 0:
                raise Unsupported('negative operand')
            return const_bits(o)
        raise Unsupported('bitwise operand %r' % (o,))

    def _bl2(self, o):
        a, b = self.bl, o.bl
        if a is None or b is None:
            return None
        return smax(a, b)

    def __lshift__(self, n):
        if not real_isinstance(n, (real_int, SInt)):
            raise Unsupported('shift by %r' % (n,))
        if n < 0:
            raise ValueError('negative shift count')
        f, nz = self.fn, z(n)
        return SBits(lambda k: z3.And(k >= nz, f(k - nz)), None if self.bl is None else self.bl + n)

    def __rlshift__(self, o):
        raise Unsupported('shift amount is a bit string')

    def __rshift__(self, n):
        if n < 0:
            raise ValueError('negative shift count')
        f, nz = self.fn, z(n)
        return SBits(lambda k: z3.And(k >= 0, f(k + nz)))

    def __or__(self, o):
        if real_isinstance(o, SymBV):
            return NotImplemented
        o = self.lift(o)
        f, g = self.fn, o.fn
        return SBits(lambda k: z3.Or(f(k), g(k)), self._bl2(o))
    __ror__ = __or__

    def __xor__(self, o):
        o = self.lift(o)
        f, g = self.fn, o.fn
        return SBits(lambda k: z3.Xor(f(k), g(k)), self._bl2(o))
    __rxor__ = __xor__

    def __and__(self, o):
        o = self.lift(o)
        f, g = self.fn, o.fn
        return SBits(lambda k: z3.And(f(k), g(k)), self._bl2(o))
    __rand__ = __and__

    def __add__(self, o):
        o = self.lift(o)
        f, g = self.fn, o.fn
        k = ctx().fresh_int()
        if ctx().proves(z3.Not(z3.And(k >= 0, f(k), g(k)))):
            return self | o         # disjoint bits: + and | agree
        raise Unsupported('sum of overlapping bit strings')
    __radd__ = __add__

    def __eq__(self, o):
        if self.src is not None:
            if real_isinstance(o, (real_int, SInt)):
                return mk_bool(self.src == z(o))
            if real_isinstance(o, SBits) and o.src is not None:
                return mk_bool(self.src == o.src)
        try:
            o = self.lift(o)
        except Unsupported:
            return NotImplemented
        k = ctx().fresh_int()
        d = z3.And(k >= 0, self.fn(k) != o.fn(k))
        if ctx().proves(z3.Not(d)):
            return True
        j = z3.Int('q!j')
        return SBool(z3.ForAll([j], z3.Implies(j >= 0, self.fn(j) == o.fn(j))), d)

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return (not r) if real_isinstance(r, bool) else ~r

    def __lt__(self, o): raise Unsupported('ordering of bit strings')
    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')

    def __int__(self):
        raise Unsupported('concrete int of a symbolic bit string')
    __index__ = __int__

    def __bool__(self):
        return bool(self != 0)

    def bit_length(self):
        if self.const is not None:
            return self.const.bit_length()
        if self.src is not None:
            return mk_int(int_len(self.src))
        return BitLen(self)


def smax(a, b):
    if real_isinstance(a, real_int) and real_isinstance(b, real_int):
        return a if a >= b else b
    az, bz = z(a), z(b)
    return mk_int(z3.If(az >= bz, az, bz))


def smin(a, b):
    if real_isinstance(a, real_int) and real_isinstance(b, real_int):
        return a if a <= b else b
    az, bz = z(a), z(b)
    return mk_int(z3.If(az <= bz, az, bz))


# ---------------------------------------------------------------- hwtypes view
class SBit:
    """Contract of hwtypes.Bit for a symbolic value."""

    def __init__(self, e):
        if real_isinstance(e, SBit):
            e = e.e
        elif real_isinstance(e, (bool, real_int)):
            if e not in (0, 1):
                raise ValueError('Bit must have value 0 or 1 not %r' % (e,))
            e = z3.BoolVal(bool(e))
        elif real_isinstance(e, SBool):
            e = e.pos
        elif real_isinstance(e, SymBV):
            e = e.fn(z3.IntVal(0)) if e.size == 1 else None
            if e is None:
                raise Unsupported('Bit of a wide vector')
        self.e = e

    @staticmethod
    def get_family():
        return FAMILY

    def _o(self, o):
        return SBit(o).e
    def __and__(self, o): return SBit(z3.And(self.e, self._o(o)))
    __rand__ = __and__
    def __or__(self, o): return SBit(z3.Or(self.e, self._o(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBit(z3.Xor(self.e, self._o(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBit(z3.Not(self.e))
    def __eq__(self, o): return SBit(self.e == self._o(o))
    def __ne__(self, o): return SBit(z3.Xor(self.e, self._o(o)))
    def __hash__(self): return hash(bool(self))

    def __bool__(self):
        return ctx().decide([('T', self.e), ('F', z3.Not(self.e))]) == 'T'

    def ite(self, t, f):
        if real_isinstance(t, SBit) and real_isinstance(f, SBit):
            return SBit(z3.If(self.e, t.e, f.e))
        if real_isinstance(t, SymBV) and real_isinstance(f, SymBV):
            a, b, e = t.fn, f.fn, self.e
            return SymBV(t.size, lambda k: z3.If(e, a(k), b(k)))
        return t if bool(self) else f


class BVFactory:
    """Contract of an unsized hwtypes BitVector type: T[n] and T[n](value)."""
    is_sized = False

    def __getitem__(self, n):
        if not real_isinstance(n, (real_int, SInt)):
            raise Unsupported('vector size %r' % (n,))
        if n < 0:
            raise ValueError('Size of BitVectors must be positive')
        return BVType(n)

    @staticmethod
    def get_family():
        return FAMILY

    @staticmethod
    def concat(a, b):
        return a.concat(b)


class BVType:
    def __init__(self, size):
        self.size = size

    unsized_t = property(lambda s: BV)

    @staticmethod
    def get_family():
        return FAMILY

    def __eq__(self, o):
        return real_isinstance(o, BVType) and bool(self.size == o.size)

    def __hash__(self):
        return 1

    def __call__(self, v=0):
        n = self.size
        nz = z(n)
        if real_isinstance(v, AbsVal):
            v = SymBV(v.width, v.fn)
        if real_isinstance(v, SymBV):
            # hwtypes: BitVector[n](BitVector[m]) zero-extends, truncates with a warning
            if bool(v.size > n):
                raise Anomaly('value truncated')
            f = v.fn
            return SymBV(n, f, src=v.src)
        if real_isinstance(v, (SBit,)):
            e = v.e
            return SymBV(n, lambda k: z3.And(k == 0, k < nz, e))
        if not real_isinstance(v, (SBits, SInt)):
            v = real_int(v)
        v = SBits.lift(v)
        if v.src is not None:
            f = v.fn
            fits = ctx().proves(int_len(v.src) <= nz)
            return SymBV(n, lambda k: z3.And(k >= 0, k < nz, f(k)), src=v.src if fits else None)
        f = v.fn                      # hwtypes wraps modulo 2**n
        return SymBV(n, lambda k: z3.And(k >= 0, k < nz, f(k)))


class Anomaly(Exception):
    """An hwtypes operation was used outside its contract (e.g. silent truncation)."""


class _SymBVMeta(type):
    unsized_t = property(lambda c: BV)

    def __call__(cls, size, *rest, **kw):
        if not rest and not kw and real_isinstance(size, SymBV):   # T(v) with T = type(v) of the same width: a copy
            return size
        return super().__call__(size, *rest, **kw)


class SymBV(metaclass=_SymBVMeta):
    """Contract of hwtypes.BitVector[size] for a symbolic value.

    fn(k) is False outside [0, size) by construction."""

    def __init__(self, size, fn, term=None, src=None):
        self.size = size
        self.src = src
        sz = z(size)
        self.fn = lambda k: z3.And(k >= 0, k < sz, fn(k))
        self._term = term

    @property
    def unsized_t(self):
        return BV

    @staticmethod
    def get_family():
        return FAMILY

    num_bits = property(lambda s: s.size)

    # -- concrete width view
    def term(self):
        if not real_isinstance(self.size, real_int):
            raise Unsupported('arithmetic at a symbolic width')
        if self.size == 0:
            raise Unsupported('arithmetic at width 0')
        if self._term is None:
            bits = [z3.If(z3.simplify(self.fn(z3.IntVal(j))), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    for j in real_range(self.size)]
            t = bits[0]
            for b in bits[1:]:
                t = z3.Concat(b, t)
            self._term = t
        return self._term

    @staticmethod
    def of_term(t):
        n = t.size()

        def fn(k):
            k = z3.simplify(k)
            if z3.is_int_value(k):
                j = k.as_long()
                return z3.Extract(j, j, t) == 1 if 0 <= j < n else z3.BoolVal(False)
            return z3.Or(*[z3.And(k == j, z3.Extract(j, j, t) == 1) for j in real_range(n)])
        return SymBV(n, fn, t)

    def _same(self, o, mk):
        if real_isinstance(o, SymBV):
            if bool(self.size != o.size):
                raise InconsistentSize('Inconsistent size')
            f, g = self.fn, o.fn
        else:
            try:
                o = BVType(self.size)(o)
            except Unsupported:
                return NotImplemented
            f, g = self.fn, o.fn
        return SymBV(self.size, lambda k: mk(f(k), g(k)))

    def __or__(self, o): return self._same(o, z3.Or)
    def __xor__(self, o): return self._same(o, z3.Xor)

    def __and__(self, o):
        return self._same(o, z3.And)
    __ror__, __rxor__, __rand__ = __or__, __xor__, __and__

    def __invert__(self):
        f = self.fn
        return SymBV(self.size, lambda k: z3.Not(f(k)))

    def __lshift__(self, n):
        # hwtypes converts n to a vector of the same size first, i.e. modulo
        # 2**size; n <= size is representable for every size
        if real_isinstance(n, SymBV):
            raise Unsupported('shift by a vector')
        if bool(n < 0) or bool(n > self.size):
            raise Anomaly('shift by more than the width wraps')
        f, nz = self.fn, z(n)
        return SymBV(self.size, lambda k: f(k - nz))

    def __rshift__(self, n):
        if real_isinstance(n, SymBV):
            raise Unsupported('shift by a vector')
        if bool(n < 0) or bool(n > self.size):
            raise Anomaly('shift by more than the width wraps')
        f, nz = self.fn, z(n)
        return SymBV(self.size, lambda k: f(k + nz))

    def _arith(self, o, f):
        if not real_isinstance(o, SymBV):
            o = BVType(self.size)(o)
        return SymBV.of_term(f(self.term(), o.term()))

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    __radd__ = __add__
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a)

    def _cmp(self, o, f):
        if not real_isinstance(o, SymBV):
            if not real_isinstance(o, (real_int, SBits)):
                return NotImplemented
            o = BVType(self.size)(o)
        if real_isinstance(self.size, real_int) and self.size == 0:
            zero = z3.BitVecVal(0, 1)
            return SBit(z3.simplify(f(zero, zero)))
        return SBit(f(self.term(), o.term()))

    def __eq__(self, o):
        if self.src is not None:
            if real_isinstance(o, (real_int, SInt)):
                # hwtypes wraps o modulo 2**size first
                if ctx().proves(int_len(z(o)) <= z(self.size)):
                    return SBit(mk_bool(self.src == z(o)))
            elif real_isinstance(o, SymBV) and o.src is not None:
                return SBit(mk_bool(self.src == o.src))
        if real_isinstance(self.size, SInt):
            if not real_isinstance(o, SymBV):
                o = BVType(self.size)(o)
            c = ctx()
            k = c.fresh_int()
            d = z3.And(k >= 0, k < z(self.size), self.fn(k) != o.fn(k))
            if c.proves(z3.Not(d)):
                return SBit(True)
            b = c.fresh_bool('eq')
            j = z3.Int('q!j')
            c.assume(z3.Implies(z3.Not(b), d))
            c.assume(z3.Implies(b, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z(self.size)), self.fn(j) == o.fn(j)))))
            return SBit(b)
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else ~r

    def __lt__(self, o): return self._cmp(o, z3.ULT)
    def __le__(self, o): return self._cmp(o, z3.ULE)
    def __gt__(self, o): return self._cmp(o, z3.UGT)
    def __ge__(self, o): return self._cmp(o, z3.UGE)
    bvult, bvule, bvugt, bvuge, bveq, bvne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    def __hash__(self):
        raise Unsupported('hash of a symbolic vector')

    def __len__(self):
        if real_isinstance(self.size, real_int):
            return self.size
        raise Unsupported('len at a symbolic width')

    def __getitem__(self, i):
        if real_isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            lo = 0 if i.start is None else i.start
            hi = self.size if i.stop is None else i.stop
            if real_isinstance(lo, real_int) and lo < 0:
                lo = self.size + lo
            if real_isinstance(hi, real_int) and hi < 0:
                hi = self.size + hi
            for bad in (lo < 0, hi < lo, hi > self.size):
                if bool(bad):
                    raise Anomaly('slice out of range')
            f, lz = self.fn, z(lo)
            return SymBV(hi - lo, lambda k: f(k + lz))
        if real_isinstance(i, (real_int, SInt)):
            if bool(i < 0):
                i = self.size + i
            if bool(i < 0) or bool(i >= self.size):
                raise IndexError()
            return SBit(self.fn(z(i)))
        raise TypeError(i)

    def concat(self, o):
        if not real_isinstance(o, SymBV):
            raise TypeError('concat of %r' % (o,))
        f, g, n = self.fn, o.fn, z(self.size)
        return SymBV(self.size + o.size, lambda k: z3.If(k < n, f(k), g(k - n)))

    def zext(self, n):
        if bool(n < 0):
            raise ValueError('ext must be >= 0')
        return SymBV(self.size + n, self.fn)

    def as_uint(self):
        if self.src is not None:
            return SBits(self.fn, self.size, src=self.src)
        if real_isinstance(self.size, real_int):
            if self.size == 0:
                return 0
            return SInt(z3.BV2Int(self.term())) if self.size > 6 else SmallUInt(self)
        return SBits(self.fn, self.size)
    value = property(as_uint)

    def __int__(self):
        v = self.as_uint()
        if real_isinstance(v, real_int):
            return v
        return v.concrete() if real_isinstance(v, SInt) else v.__int__()
    __index__ = __int__

    def bits(self):
        return [self[i] for i in real_range(real_len(self))]


def SmallUInt(bv):
    n = bv.size
    return SInt(z3.Sum([z3.If(bv.fn(z3.IntVal(j)), z3.IntVal(1 << j), z3.IntVal(0)) for j in real_range(n)])
                if n > 1 else z3.If(bv.fn(z3.IntVal(0)), z3.IntVal(1), z3.IntVal(0)))


class InconsistentSize(TypeError):
    pass


class _Fam:
    pass


BV = BVFactory()
FAMILY = _Fam()
FAMILY.Bit = SBit
FAMILY.BitVector = BV
FAMILY.Unsigned = BV
FAMILY.Signed = BV


# ---------------------------------------------------------------- containers
class SDict(dict):
    """dict whose keys are compared with == only (keys may be symbolic)"""

    def __init__(self, items=()):
        dict.__init__(self)
        self.kv = []
        for k, v in (items.items() if hasattr(items, 'items') else items):
            self[k] = v

    def _find(self, key):
        for i, (k, v) in enumerate(self.kv):
            if k is key:
                return i
        for i, (k, v) in enumerate(self.kv):
            if real_isinstance(k, type) or real_isinstance(key, type) or real_isinstance(k, str) or real_isinstance(key, str):
                if type(k) is type(key) and k == key:
                    return i
                continue
            r = (k == key)
            if r is NotImplemented:
                continue
            if bool(r):
                return i
        return None

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        return self.kv[i][1]

    def __setitem__(self, key, v):
        i = self._find(key)
        if i is None:
            self.kv.append((key, v))
        else:
            self.kv[i] = (self.kv[i][0], v)

    def __delitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self.kv[i]

    def __contains__(self, key): return self._find(key) is not None
    def __iter__(self): return iter([k for k, _ in self.kv])
    def __len__(self): return real_len(self.kv)
    def __bool__(self): return bool(self.kv)
    def keys(self): return _Keys(k for k, _ in self.kv)
    def values(self): return [v for _, v in self.kv]
    def items(self): return list(self.kv)
    def copy(self): return SDict(self.kv)

    def get(self, key, d=None):
        i = self._find(key)
        return d if i is None else self.kv[i][1]

    def setdefault(self, key, d=None):
        i = self._find(key)
        if i is None:
            self.kv.append((key, d))
            return d
        return self.kv[i][1]

    def update(self, o=(), **k):
        for a, b in (o.items() if hasattr(o, 'items') else o):
            self[a] = b
        for a, b in k.items():
            self[a] = b

    def __eq__(self, o): raise Unsupported('dict equality')
    __hash__ = None
    def __repr__(self): return 'SDict(%r)' % (self.kv,)


class _Keys(list):
    """key view: compares as a set"""

    def _d(self):
        return SDict((k, True) for k in self)

    def __eq__(self, o):
        if real_len(o) != real_len(self):
            return False
        d = self._d()
        return all(k in d for k in o)

    def __ne__(self, o): return not self == o
    __hash__ = None
    def __and__(self, o): return SSet(k for k in self if k in _Keys(o)._d())
    def __sub__(self, o): return SSet(k for k in self if k not in _Keys(o)._d())
    def __or__(self, o): return SSet(list(self) + list(o))
    def __le__(self, o): return all(k in _Keys(o)._d() for k in self)
    def __ge__(self, o): return all(k in self._d() for k in o)


class SSet:
    """set whose members are compared with == only"""

    def __init__(self, it=()):
        self.d = SDict()
        for x in it:
            self.add(x)

    def add(self, x): self.d[x] = True
    def __contains__(self, x): return x in self.d
    def __iter__(self): return iter(self.d.keys())
    def __len__(self): return real_len(self.d)
    def update(self, it):
        for x in it:
            self.add(x)


# ---------------------------------------------------------------- abstract ISA types
class AbsMeta(type):
    """An arbitrary ISA type known only through the assembler contract:

      width >= 0
      asm  : instance -> bit string with no bit at or above width
      valid: bit string of that width -> Bool
      dsm  : valid bit string -> instance
      valid(asm(x)),  dsm(asm(x)) == x,  asm(dsm(b)) == b

    i.e. instances are exactly the valid bit strings (induction hypothesis of
    the structural induction over ISA types)."""
    def __repr__(cls):
        return cls.__name__


class AbsVal:
    pass


def make_abs(name, width=None):
    """fresh arbitrary ISA type; width symbolic unless given"""
    if width is None:
        w = SInt(z3.Int('w_' + name))
    else:
        w = width
    return AbsMeta(name, (AbsVal,), {'width': w, '__init__': lambda s, fn: setattr(s, 'fn', fn)})


def abs_axioms(c, *Ts):
    for T in Ts:
        if real_isinstance(T.width, SInt):
            c.assume(T.width.e >= 0)


def abs_value(c, T, name='v'):
    f = c.fresh_fn(name)
    wz = z(T.width)
    v = T(lambda k: z3.And(k >= 0, k < wz, f(k)))
    c.valid_tab.setdefault(T, []).append((v.fn, z3.BoolVal(True)))
    return v


def abs_valid(T, bv):
    """the uninterpreted validity predicate of T on a payload (congruent)"""
    c = ctx()
    if bool(bv.size != T.width):
        raise Anomaly('payload width differs from the field width')
    for fn, b in c.valid_tab.setdefault(T, []):
        if c.proves(same_bits(fn, bv.fn, 0, T.width)):
            return SBit(b)
    b = c.fresh_bool('valid_' + T.__name__)
    c.valid_tab[T].append((bv.fn, b))
    return SBit(b)


def abs_dsm(T, bv):
    if bool(bv.size != T.width):
        raise Anomaly('payload width differs from the field width')
    c = ctx()
    ok = abs_valid(T, bv)
    if not c.proves(ok.e):
        raise Anomaly('disassembling a payload not known to be valid')
    return T(bv.fn)
