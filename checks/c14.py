"""Declared interfaces match the annotations and are enforced.

The real PeakMeta / gen_input_t / gen_output_t / name_outputs / typecheck are run on classes whose
annotated types are opaque (parametric), with every subset of missing or surplus annotations; the
type check is run on results whose membership in the declared types is symbolic."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.sym import SBool
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from hwtypes.adt import Product, Tuple, Enum

LEVEL = 'proof'
PARAMS = ['a', 'b', 'c', 'd', 'e']


class InstMeta(type):
    """an opaque type: whether a value is an instance is symbolic"""

    def __instancecheck__(cls, x):
        if isinstance(x, Val):
            return bool(SBool(cls.inst(x)))
        return type.__instancecheck__(cls, x)

    def inst(cls, x):
        return z3.Function('isinstance', tok.K, tok.V, z3.BoolSort())(cls.key, x.e)


class Val:
    """an opaque result"""

    def __init__(self):
        self.e = z3.Const('res!%d' % next(tok._n), tok.V)

    def __bool__(self):
        return True


def opaque(name):
    return InstMeta(name, (), {'key': z3.Const('%s!%d' % (name, next(tok._n)), tok.K)})


def mkcall(params, ann, ret, body=None, name='__call__'):
    """a function `name`(self, *params) with the given annotations"""
    ns = {'_body': body or (lambda *a: None)}
    exec('def %s(%s):\n    return _body(%s)' % (name, ', '.join(['self'] * (name == '__call__') + list(params)), ', '.join(params)), ns)
    f = ns[name]
    f.__annotations__ = dict(ann)
    if ret is not Ellipsis:
        f.__annotations__['return'] = ret
    return f


def fields(t):
    return [] if t is None else list(t.field_dict.items())


def interface(n, m, style, order):
    """n parameters, m results; style single/tuple/named/none; order: the order annotations are written in"""
    from peak import Peak, name_outputs
    T = {p: opaque(p) for p in PARAMS[:n]}
    R = [opaque('r%d' % i) for i in range(m)]
    ann = {p: T[p] for p in order}
    if style == 'named':
        f = name_outputs(**{'o%d' % i: R[i] for i in range(m)})(mkcall(PARAMS[:n], ann, Ellipsis))
        want_out = [('o%d' % i, R[i]) for i in range(m)]
    elif style == 'none':
        f = mkcall(PARAMS[:n], ann, None)
        want_out = []
    elif style == 'single':
        f = mkcall(PARAMS[:n], ann, R[0])
        want_out = [(0, R[0])]
    else:
        f = mkcall(PARAMS[:n], ann, tuple(R))
        want_out = [(i, R[i]) for i in range(m)]
    C = type(Peak)('C', (Peak,), {'__call__': f})
    got = fields(C.input_t)
    assert [k for k, _ in got] == PARAMS[:n] and all(t is T[k] for k, t in got), 'input type %r' % (got,)
    assert (C.input_t is None) == (n == 0)
    got = fields(C.output_t)
    assert [k for k, _ in got] == [k for k, _ in want_out], 'output type %r' % (got,)
    assert all(a[1] is b[1] for a, b in zip(got, want_out)), 'output type %r' % (got,)
    if style == 'named':
        assert issubclass(C.output_t, Product)
    elif style != 'none':
        assert issubclass(C.output_t, Tuple)
    # what is inherited is the same interface
    D = type(Peak)('D', (C,), {})
    assert D.input_t is C.input_t and D.output_t is C.output_t


def bad_annotations(n, present, surplus, ret):
    """parameters without annotation / annotations without parameter / no return annotation"""
    from peak import Peak
    ann = {p: opaque(p) for p in PARAMS[:n] if p in present}
    ann.update({s: opaque(s) for s in surplus})
    good = set(present) >= set(PARAMS[:n]) and not surplus
    f = mkcall(PARAMS[:n], ann, opaque('r') if ret else Ellipsis)
    try:
        C = type(Peak)('C', (Peak,), {'__call__': f})
    except ValueError:
        assert not (good and ret), 'a complete signature was rejected'
        return
    assert good and ret, 'parameters %r with annotations %r gave input type %r' % (PARAMS[:n], list(ann), fields(C.input_t))


def functions(n):
    """the decorators used directly on functions and methods of other names"""
    from peak.features import gen_input_t, gen_output_t
    T = [opaque(p) for p in PARAMS[:n]]
    f = gen_output_t(gen_input_t(mkcall(PARAMS[:n], dict(zip(PARAMS, T)), opaque('r'), name='fun')))
    assert [k for k, _ in fields(f._input_t)] == PARAMS[:n] and all(a is b for (_, a), b in zip(fields(f._input_t), T))


def switched_off():
    from peak import Peak
    f = mkcall(['a', 'b'], {}, Ellipsis)
    C = type(Peak)('C', (Peak,), {'__call__': f}, gen_input_t=False, gen_output_t=False)
    assert not hasattr(C.__call__, '_input_t') and not hasattr(C.__call__, '_output_t')
    D = type(Peak)('D', (Peak,), {'__call__': mkcall(['a'], {'a': opaque('a')}, Ellipsis)}, gen_output_t=False)
    assert [k for k, _ in fields(D.input_t)] == ['a'] and not hasattr(D.__call__, '_output_t')
    E = type(Peak)('E', (Peak,), {'__call__': mkcall(['a'], {}, opaque('r'))}, gen_input_t=False)
    assert len(fields(E.output_t)) == 1 and not hasattr(E.__call__, '_input_t')
    type(Peak)('F', (Peak,), {})


def locals_do_not_count(n):
    """local variables of the call are no inputs; defaults do not matter"""
    from peak import Peak
    ns = {}
    exec('def __call__(self, %s):\n    x = 1\n    y = x\n    return y' % ', '.join(PARAMS[:n - 1] + [PARAMS[n - 1] + '=0']), ns)
    f = ns['__call__']
    f.__annotations__ = {p: opaque(p) for p in PARAMS[:n]}
    f.__annotations__['return'] = opaque('r')
    C = type(Peak)('C', (Peak,), {'__call__': f})
    assert [k for k, _ in fields(C.input_t)] == PARAMS[:n]


def real_types(kind):
    """real families keep the interface of what they assemble"""
    from peak import Peak, Const, name_outputs
    from peak import family as F
    fam = {'py': F.PyFamily, 'pyx': F.PyXFamily, 'smt': F.SMTFamily}[kind]()

    class Op(Enum):
        x = 0
        y = 1

    class I(Product):
        op = Op
        imm = BitVector[3]
    D = fam.BitVector[8]
    CI = Const(I)
    B = fam.Bit
    for named in (False, True):
        deco = name_outputs(p=D, q=B) if named else (lambda f: f)

        class C(Peak):
            @deco
            def __call__(self, inst: CI, a: D, b: B) -> (D, B):
                return a, b
        i0, o0 = C.input_t, C.output_t
        A = fam.assemble(locals(), globals())(C)
        assert A.input_t is i0 and A.output_t is o0
        assert fields(i0) == [('inst', CI), ('a', D), ('b', B)]
        assert fields(o0) == ([('p', D), ('q', B)] if named else [(0, D), (1, B)])
        r = A()(None, D(5), B(1))
        assert len(r) == 2


def checked(n, m, kinds, tup, style, kw):
    """typecheck with real types: kinds[i]: 'ok', 'bad' or 'missing' for result i"""
    from peak import Peak, name_outputs
    Ts = [BitVector[4], Bit, BitVector[8], SMTBit][:m]
    good = [BitVector[4](3), Bit(1), BitVector[8](200), SMTBit(1)]
    bad = [BitVector[5](3), 1, Bit(0), Bit(1)]
    res = [good[i] if k == 'ok' else bad[i] for i, k in enumerate(kinds) if k != 'missing']
    result = tuple(res) if tup else (res[0] if res else None)
    seen = []

    def body(*a):
        seen.append(a)
        return result
    ann = {p: opaque(p) for p in PARAMS[:n]}
    if style == 'named':
        f = name_outputs(**{'o%d' % i: t for i, t in enumerate(Ts)})(mkcall(PARAMS[:n], ann, Ellipsis, body))
    else:
        f = mkcall(PARAMS[:n], ann, (tuple(Ts) if m != 1 else Ts[0]) if m else None, body)
    C = type(Peak)('C', (Peak,), {'__call__': f}, typecheck=True)
    assert [k for k, _ in fields(C.input_t)] == PARAMS[:n] and [t for _, t in fields(C.output_t)] == Ts
    args = [object() for _ in range(n)]
    ok = all(k == 'ok' for k in kinds)
    try:
        r = C()(**dict(zip(PARAMS, args))) if kw else C()(*args)
    except TypeError:
        assert not ok, 'results of the declared types were rejected'
    else:
        assert ok, 'results %r were accepted for %r' % (result, Ts)
        assert r is result or (isinstance(r, tuple) and isinstance(result, tuple) and len(r) == len(result) and all(x is y for x, y in zip(r, result))), \
            'returned %r, not %r' % (r, result)
    assert len(seen) == 1 and all(x is y for x, y in zip(seen[0], args)), 'arguments changed'


CASES = dict(interface=interface, bad_annotations=bad_annotations, functions=functions, switched_off=switched_off,
             locals_do_not_count=locals_do_not_count, real_types=real_types, checked=checked)


def typecheck_sym(ck, n, m, style):
    """any results: accepted exactly when each is an instance of its type; arguments and result untouched"""
    from peak import Peak, name_outputs
    label = 'typecheck, %d arguments, %d results, %s' % (n, m, style)

    def go(c):
        T = [opaque('t%d' % i) for i in range(m)]
        res = [Val() for _ in range(m)]
        result = tuple(res) if style == 'tuple' or (style == 'named' and m != 1) else res[0] if m else None
        seen = []

        def body(*a):
            seen.append(a)
            return result
        ann = {p: opaque(p) for p in PARAMS[:n]}
        if style == 'named':
            f = name_outputs(**{'o%d' % i: t for i, t in enumerate(T)})(mkcall(PARAMS[:n], ann, Ellipsis, body))
        else:
            f = mkcall(PARAMS[:n], ann, tuple(T) if style == 'tuple' else T[0] if m else None, body)
        C = type(Peak)('C', (Peak,), {'__call__': f}, typecheck=True)
        args = [Val() for _ in range(n)]
        ok = z3.And([t.inst(r) for t, r in zip(T, res)] + [z3.BoolVal(True)])
        try:
            r = C()(*args)
        except TypeError:
            ck.prove(label + ': TypeError only when a result has another type', c, z3.Not(ok))
        else:
            ck.prove(label + ': a result is passed on only when all have their types', c, ok)
            same = r is result or (isinstance(r, tuple) and isinstance(result, tuple) and len(r) == len(result) and all(x is y for x, y in zip(r, result)))
            ck.prove(label + ': the result is returned unchanged', c, same)
        ck.prove(label + ': the function is called once with the arguments', c, len(seen) == 1 and len(seen[0]) == n and all(x is y for x, y in zip(seen[0], args)))
    try:
        for c, (k, r) in sym.explore(go, stats=ck.stats):
            if k == 'raise':
                ck.obl(label + ': no exception', 'undecided', 'engine', repr(r)[:500])
    except Exception as e:
        ck.obl(label, 'undecided', 'engine', repr(e)[:500])


def obligation(ck, name, kind, *args):
    """a parametric execution: holds for all types because the types are opaque"""
    n0 = len(ck.failures)
    ok = ck.case(kind, *args)
    ck.obl(name, 'proved' if ok and len(ck.failures) == n0 else 'refuted', 'evaluation (types opaque)', repr((kind, args)))


def run(ck):
    ck.under_contract('peak.features.gen_input_t', 'peak.features.gen_output_t', 'peak.features.name_outputs', 'peak.features.typecheck',
                      'peak.peak.PeakMeta.__new__/input_t/output_t', 'peak.family._StdMix.assemble and SMTFamily.assemble (interface kept)')
    ck.assume('call parameters are ordinary (not keyword-only, *args or **kwargs)', 'more results than declared are passed on unchecked', 'name_outputs names at least one output (hwtypes has no empty Product)')
    top = 5 if ck.thorough else 4
    ck.bound('number of parameters and results enumerated (0-%d); types unbounded' % top)
    for n in range(top + 1):
        orders = list(itertools.permutations(PARAMS[:n])) if n < 4 else [tuple(PARAMS[:n]), tuple(reversed(PARAMS[:n]))]
        for order in orders:
            for style in ('single', 'tuple', 'named', 'none'):
                for m in ({'single': [1], 'none': [0]}.get(style) or range(1, top + 1)):
                    obligation(ck, 'interface of %d parameters, %d results (%s): names, types and order' % (n, m, style), 'interface', n, m, style, order)
        for r in range(n + 1):
            for present in itertools.combinations(PARAMS[:n], r):
                for surplus in ((), ('z',), ('self',)):
                    for ret in (True, False):
                        obligation(ck, '%d parameters, missing or surplus annotations raise ValueError' % n, 'bad_annotations', n, present, surplus, ret)
        obligation(ck, 'function of %d parameters' % n, 'functions', n)
        if n:
            obligation(ck, 'local variables of a call of %d parameters' % n, 'locals_do_not_count', n)
    obligation(ck, 'interface generation switched off', 'switched_off')
    for k in ('py', 'pyx', 'smt'):
        obligation(ck, 'assembling in the %s family keeps the interface' % k, 'real_types', k)
    for n in range(3):
        for m in range(top + 1):
            for style in ('single', 'tuple', 'named'):
                if (style == 'single' and m > 1) or (style != 'single' and m == 0):
                    continue
                typecheck_sym(ck, n, m, style)
    for n in range(3):
        for m in range(5):
            for kinds in itertools.product(('ok', 'bad'), repeat=m):
                for style in ('plain', 'named')[:2 if m else 1]:
                    for kw in (False, True):
                        for tup in ((False, True) if m == 1 else (m > 1,)):
                            ck.case('checked', n, m, kinds, tup, style, kw)
            if m:
                ck.case('checked', n, m, ('ok',) * (m - 1) + ('missing',), True, 'plain', False)
