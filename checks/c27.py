"""Operations of the float library under every rounding mode.

The operations are run on opaque operands with the floating point vectors of hwtypes known by their contract: a class
per (exponent, mantissa, mode, compliance), values made from bits, methods named fp_*.  The result is the term the
contract requires.  Conversions of rounding modes are run on a free symbolic mode and on every mode."""
import itertools
import random
import warnings
import z3
from vc import smt as vsmt

LEVEL = 'proof'
#name of the operation, number of operands, is the result a bit
OPS = {'fp_abs': (1, 0), 'fp_neg': (1, 0), 'fp_add': (2, 0), 'fp_sub': (2, 0), 'fp_mul': (2, 0), 'fp_div': (2, 0), 'fp_fma': (3, 0),
       'fp_sqrt': (1, 0), 'fp_rem': (2, 0), 'fp_round_to_integral': (1, 0), 'fp_min': (2, 0), 'fp_max': (2, 0), 'fp_leq': (2, 1),
       'fp_lt': (2, 1), 'fp_geq': (2, 1), 'fp_gt': (2, 1), 'fp_eq': (2, 1), 'fp_is_normal': (1, 1), 'fp_is_subnormal': (1, 1),
       'fp_is_zero': (1, 1), 'fp_is_infinite': (1, 1), 'fp_is_NaN': (1, 1), 'fp_is_negative': (1, 1), 'fp_is_positive': (1, 1)}
MODES = {'RNE': 'RNE', 'RTZ': 'RTZ', 'RDN': 'RTN', 'RUP': 'RTP', 'RMM': 'RNA'}
CODES = {'RNE': 0, 'RTZ': 1, 'RDN': 2, 'RUP': 3, 'RMM': 4}


def member(n):
    from peak.float import RoundingMode
    return getattr(RoundingMode, n)


def standard(n):
    from hwtypes import RoundingMode
    return getattr(RoundingMode, MODES[n])


def fc_of(lib, op):
    return getattr(lib, op[3].upper() + op[4:].lower() + '_fc')


class Opaque:
    """operand: only passed on"""

    def __init__(self, name):
        self.name = name


class FakeFP:
    """floating point vectors by their contract"""

    def __init__(self, fmt=None):
        self.fmt = fmt

    def __getitem__(self, fmt):
        assert self.fmt is None and isinstance(fmt, tuple) and len(fmt) == 4
        return FakeFP(fmt)

    def reinterpret_from_bv(self, v):
        assert self.fmt is not None
        return FakeValue(self.fmt, ('from', self.fmt, v))


class FakeValue:
    def __init__(self, fmt, term):
        self.fmt, self.term = fmt, term

    def reinterpret_as_bv(self):
        return ('bv', self.term)

    def __getattr__(self, name):
        if name not in OPS:
            raise AttributeError(name)

        def method(*args):
            assert len(args) == OPS[name][0] - 1 and all(isinstance(a, FakeValue) for a in args)
            t = (name, self.term) + tuple(a.term for a in args)
            return t if OPS[name][1] else FakeValue(self.fmt, t)
        return method


class library:
    """the library of a format, made with the vectors replaced by their contract"""

    def __init__(self, e, f, ieee):
        self.fmt = e, f, ieee

    def __enter__(self):
        import peak.float as L
        self.saved = L, L.FPVector
        L.FPVector = FakeFP()
        gen = getattr(L.float_lib_gen, '__wrapped__', L.float_lib_gen)
        return gen(*self.fmt)

    def __exit__(self, *a):
        self.saved[0].FPVector = self.saved[1]


def required(op, e, f, ieee, mode, xs):
    fmt = (e, f, standard(mode), ieee)
    t = (op,) + tuple(('from', fmt, x) for x in xs)
    return t if OPS[op][1] else ('bv', t)


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a is b or not isinstance(a, Opaque) and not isinstance(b, Opaque) and a == b


def symbolic(ck, e, f, ieee):
    from peak import family as F
    fam = F.PyFamily()
    cases = []
    with library(e, f, ieee) as lib:
        for op, (n, bit) in OPS.items():
            for mode in MODES:
                for const in (False, True):
                    L = 'format %d,%d,%s: %s under %s, %s' % (e, f, ieee, op, mode, 'fixed' if const else 'dynamic')
                    xs = [Opaque('x%d' % i) for i in range(n)]
                    try:
                        cls = fc_of(lib.const_rm(member(mode)) if const else lib, op)(fam)
                        got = cls()(*(xs if const else [member(mode)] + xs))
                    except Exception as x:
                        ck.obl(L, 'undecided', 'engine', repr(x))
                        cases.append(('value', op, mode, const, e, f, ieee, 0))
                        continue
                    ok = alike(got, required(op, e, f, ieee, mode, xs))
                    ck.obl(L, 'proved' if ok else 'refuted', 'symbolic execution', repr(got)[:300])
                    if not ok:
                        cases.extend(('value', op, mode, const, e, f, ieee, s) for s in range(6))
    #on the real library
    for c in cases:
        ck.case(*c)


# ---- the operations on values
def operands(e, f, n, seed):
    w = 1 + e + f
    rnd = random.Random('%s %s %s' % (e, f, seed))
    special = [0, 1 << (w - 1), ((1 << e) - 1) << f, (((1 << e) - 1) << f) | 1, ((1 << e) - 1) << f | 1 << (w - 1), 1, 1 << f, (1 << f) - 1, ((1 << (e - 1)) - 1) << f, (1 << (w - 1)) - 1]

    def one():
        r = rnd.random()
        return rnd.choice(special) if r < .15 else rnd.randrange(1 << w) if r < .5 else rnd.randrange(1 << w) & ~(3 << (w - 3)) | 1 << (w - 3 if rnd.random() < .5 else w - 2)
    return [one() for _ in range(n)]


def exact(x, e, f, ieee):
    """hwtypes gives NaN, and the infinity it becomes where the format has none, an unspecified sign"""
    inf = ((1 << e) - 1) << f
    return x & inf != inf or ieee and not x & ((1 << f) - 1)


def result(fn):
    try:
        r = fn()
    except Exception as x:
        return type(x)
    return type(r), int(r)


def value(op, mode, const, e, f, ieee, seed):
    """the operation on values is the operation of hwtypes in that mode"""
    import peak.float as L
    from peak import family as F
    from hwtypes import FPVector, BitVector
    fam = F.PyFamily()
    lib = L.float_lib_gen(e, f, ieee)
    n, bit = OPS[op]
    cls = fc_of(lib.const_rm(member(mode)) if const else lib, op)(fam)
    T = FPVector[e, f, standard(mode), ieee]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(12):
            xs = operands(e, f, n, (seed, i))
            if not ieee:
                xs = [x if exact(x, e, f, False) else x & ~((1 << f) - 1) for x in xs]
            xs = [BitVector[1 + e + f](x) for x in xs]

            def direct():
                r = getattr(T.reinterpret_from_bv(xs[0]), op)(*[T.reinterpret_from_bv(x) for x in xs[1:]])
                return r if bit else r.reinterpret_as_bv()
            want = result(direct)
            got = result(lambda: cls()(*(xs if const else [member(mode)] + xs)))
            if got is AttributeError or got is NameError or got is TypeError:
                cls()(*(xs if const else [member(mode)] + xs))
            if isinstance(want, tuple) and not bit and not exact(want[1], e, f, ieee):
                got, want = [(t[0], t[1] & ~(1 << (e + f))) if isinstance(t, tuple) else t for t in (got, want)]
            assert got == want, '%s%s in %s (%s): %s, expected %s' % (op, tuple(map(int, xs)), mode, 'fixed' if const else 'dynamic', got, want)


def boxes(op, mode, const, e, f):
    """in the symbolic family operations are black boxes that see their operands in order"""
    import peak.float as L
    from peak import family as F
    from peak.black_box import BlackBox, get_black_boxes
    fam = F.SMTFamily()
    lib = L.float_lib_gen(e, f)
    n, bit = OPS[op]
    obj = fc_of(lib.const_rm(member(mode)) if const else lib, op)(fam)()
    (p, box), = get_black_boxes(obj).items()
    xs = [fam.BitVector[1 + e + f]() for _ in range(n)]
    out = fam.Bit() if bit else fam.BitVector[1 + e + f]()
    box._set_outputs(out)
    rm = fam.get_constructor(L.RoundingMode)(member(mode))
    r = obj(*(xs if const else [rm] + xs))
    assert vsmt.to_z3(r).eq(vsmt.to_z3(out))
    got = box._get_inputs()
    assert [vsmt.to_z3(x).get_id() for x in got[-n:]] == [vsmt.to_z3(x).get_id() for x in xs]
    assert len(got) in (n, n + 1)
    if len(got) == n + 1:
        m = getattr(got[0], '_value_', got[0])
        m = m if not hasattr(m, 'value') or isinstance(m, type(member(mode))) else z3.simplify(vsmt.to_z3(m)).as_long()
        assert m == (CODES[mode] if isinstance(m, int) else member(mode))
    t = list(type(obj).output_t.field_dict.values())
    assert len(t) == 1


# ---- conversions
def conversions(mode):
    """of one mode, in Python"""
    import peak.float as L
    from peak import family as F
    from hwtypes import BitVector
    for fam in (F.PyFamily(), F.SMTFamily()):
        U = L.RoudningMode_utils(fam)
        m = member(mode)
        assert U.RM_to_RM_hwtypes(m) is standard(mode)
        assert U.RM_hwtypes_to_RM(standard(mode)) == m
        assert U.RM_hwtypes_to_RM(U.RM_to_RM_hwtypes(m)) == m
    U = L.RoudningMode_utils(F.PyFamily())
    assert m.value == CODES[mode]
    v = U.from_rm(m)
    assert isinstance(v, BitVector) and v.size == 3 and int(v) == CODES[mode], v
    assert U.to_rm(v) == m
    assert U.to_rm(BitVector[3](CODES[mode])) == m
    fam = F.SMTFamily()
    U = L.RoudningMode_utils(fam)
    a = fam.get_constructor(L.RoundingMode)(m)
    v = U.from_rm(a)
    assert z3.simplify(vsmt.to_z3(v)).as_long() == CODES[mode]
    assert z3.simplify(vsmt.to_z3(U.to_rm(v)._value_)).as_long() == CODES[mode]



def free_mode(ck):
    """conversions of a free symbolic mode"""
    import peak.float as L
    from peak import family as F
    fam = F.SMTFamily()
    U = L.RoudningMode_utils(fam)
    T = fam.get_adt_t(L.RoundingMode)
    bv = fam.BitVector[3]()
    x = vsmt.to_z3(bv)
    valid = z3.ULE(x, 4)
    try:
        v = vsmt.to_z3(U.from_rm(T(bv)))
        w = U.to_rm(bv)
        r = U.to_rm(U.from_rm(T(bv)))
        y = U.from_rm(U.to_rm(bv))
    except Exception as e:
        ck.obl('conversions of a free mode', 'undecided', 'engine', repr(e))
        return
    for t, f in (('from_rm is the code of the mode', z3.And(v.size() == 3, v == x) if v.size() == 3 else z3.BoolVal(False)),
                 ('to_rm is the mode of the code', vsmt.to_z3(w._value_) == x),
                 ('to_rm(from_rm(x)) is x', vsmt.to_z3(r._value_) == x),
                 ('from_rm(to_rm(v)) is v', vsmt.to_z3(y) == x)):
        c = vsmt.ZCtx(ck, timeout_ms=10000, assumptions=[valid, z3.Not(f)])
        q = c.check()
        ck.obl(t + ' for every mode', 'proved' if q == z3.unsat else 'refuted' if q == z3.sat else 'undecided', 'z3', str(f)[:300])


CASES = dict(value=value, boxes=boxes, conversions=conversions)


def run(ck):
    ck.under_contract('float.float_lib_gen', 'float.gen_unary', 'float.gen_binary', 'float.gen_binary_bit', 'float.fp_fma', 'float.const_rm', 'float.RoudningMode_utils')
    ck.trust('floating point vectors of hwtypes (a class per exponent, mantissa, mode and compliance; methods fp_*)')
    big = ck.tier == 'thorough'
    formats = [(3, 4), (7, 8), (8, 7), (5, 10), (8, 23), (11, 52), (4, 3), (2, 2)] + ([(e, f) for e in range(2, 16) for f in range(1, 40, 3)] if big else [])
    tasks = []
    for e, f in dict.fromkeys(formats):
        for ieee in (False, True):
            tasks.append(('format %d,%d,%s' % (e, f, ieee), lambda e=e, f=f, ieee=ieee: symbolic(ck, e, f, ieee)))
    tasks.append(('conversions', lambda: (free_mode(ck), [ck.case('conversions', m) for m in MODES])))
    for e, f in ((3, 4), (7, 8), (8, 23)) + (((5, 10), (4, 3), (11, 52)) if big else ()):
        for op in OPS:
            tasks.append(('%s %d,%d' % (op, e, f), lambda op=op, e=e, f=f: [ck.case('value', op, m, c, e, f, i, s) for m in MODES for c in (False, True) for i in (False, True) for s in range(30 if big else 5)]))
        tasks.append(('boxes %d,%d' % (e, f), lambda e=e, f=f: [ck.case('boxes', op, m, c, e, f) for op in OPS for m in MODES for c in (False, True)]))
    ck.bound('operands opaque, every operation and mode; %d formats (the library does not inspect the format)' % len(dict.fromkeys(formats)))
    ck.bound('values: %d operand tuples for each operation, mode, variant and compliance of %d formats' % (12 * (30 if big else 5), 6 if big else 3))
    ck.parallel(tasks)
