"""A family closure is evaluated once per family and never confuses families.

The real family_closure and the real families are called with arguments and options whose equality is
symbolic (an equality test forks the execution; all hashes collide), so every pattern of equal and
different arguments among the calls of a history is one path.  Family equality is proved to be
"same kind and equal options", with != its negation and hashes consistent."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.tok import EqVal
from hwtypes import BitVector

LEVEL = 'proof'


def eqf(a, b):
    return z3.BoolVal(True) if a is b else a.key == b.key


def run_sym(ck, label, go):
    try:
        n = 0
        for c, (k, r) in sym.explore(go, stats=ck.stats, max_paths=3000):
            if k == 'ok':
                n += 1
            elif k == 'raise':
                ck.obl(label + ': no exception', 'undecided', 'engine', repr(r)[:600])
        ck.obl(label + ': paths reached', 'proved' if n else 'undecided', 'coverage', '%d' % n)
    except Exception as e:
        ck.obl(label, 'undecided', 'engine', repr(e)[:600])


def kinds():
    """family kinds: real ones and user-defined subclasses"""
    from peak import family as F

    class MyPy(F.PyFamily):
        pass

    class MySMT(F.SMTFamily):
        pass

    class MySMT2(MySMT):
        pass

    class MyX(F.PyXFamily):
        pass
    return {'Py': F.PyFamily, 'PyX': F.PyXFamily, 'SMT': F.SMTFamily, 'Magma': F.MagmaFamily,
            'MyPy': MyPy, 'MyX': MyX, 'MySMT': MySMT, 'MySMT2': MySMT2}


HAS_OPT = ('PyX', 'SMT', 'Magma', 'MyX', 'MySMT', 'MySMT2')


def histories(ck):
    from peak import family_closure
    K = kinds()

    def closure(results=None):
        made, seen = [], []

        @family_closure
        def fc(*a, **k):
            r = results[len(made) % len(results)] if results else object()
            made.append(r)
            seen.append((a, k))
            return r
        return fc, made, seen

    def check(c, label, calls, fc, made, seen, distinct=True):
        outs = []
        for a, k in calls:
            before = len(made)
            outs.append(fc(*a, **k))
            if len(made) > before:
                ok = len(made) == before + 1 and all(x is y for x, y in zip(seen[-1][0], a)) and seen[-1][1].keys() == k.keys() \
                    and all(seen[-1][1][n] is k[n] for n in k) and len(seen[-1][0]) == len(a)
                ck.prove(label + ': the body gets the arguments of the call, once', c, ok)
                if distinct:
                    ck.prove(label + ': the result of the evaluation is returned', c, outs[-1] is made[-1])
        eqs = {}
        for i, j in itertools.combinations(range(len(calls)), 2):
            (a, k), (b, l) = calls[i], calls[j]
            if len(a) != len(b) or k.keys() != l.keys():
                e = z3.BoolVal(False)
            else:
                e = z3.And([arg_eq(x, y) for x, y in zip(a, b)] + [arg_eq(k[n], l[n]) for n in k])
            eqs[i, j] = e
            if distinct:
                ck.prove(label + ': one object exactly for equal arguments', c, e == z3.BoolVal(outs[i] is outs[j]))
        # number of evaluations: the number of calls equal to no earlier one
        count = z3.Sum([z3.If(z3.Or([eqs[i, j] for i in range(j)] + [z3.BoolVal(False)]), 0, 1) for j in range(len(calls))])
        ck.prove(label + ': the body is evaluated once per distinct argument', c, count == len(made))

    def arg_eq(x, y):
        from peak.family import AbstractFamily
        if isinstance(x, AbstractFamily):
            return z3.BoolVal(type(x) is type(y)) if not (hasattr(x, 'opt') and hasattr(y, 'opt')) else \
                z3.And(z3.BoolVal(type(x) is type(y)), eqf(x.opt, y.opt))
        return eqf(x, y)

    def fam(c, kind):
        if kind in HAS_OPT:
            o = EqVal(c, 'opt')
            f = K[kind](assembler=o)
            f.opt = o
            return f
        return K[kind]()

    for ks in [('Py',) * 3, ('PyX',) * 3, ('SMT',) * 3, ('Magma',) * 2, ('Py', 'PyX', 'Py'), ('SMT', 'MySMT', 'MySMT'),
               ('MySMT2', 'MySMT', 'SMT'), ('Py', 'MyPy', 'Py'), ('PyX', 'MyX', 'PyX'), ('SMT', 'PyX', 'Magma')]:
        label = 'calls with families %s' % (ks,)

        def go(c):
            fc, made, seen = closure()
            check(c, label, [((fam(c, k),), {}) for k in ks], fc, made, seen)
        run_sym(ck, label, go)

    def val(c):
        return EqVal(c, 'a')
    shapes = {
        'one more argument': lambda c, f: (f, [((f, val(c)), {}) for _ in range(3)]),
        'one keyword': lambda c, f: (f, [((f,), {'x': val(c)}) for _ in range(3)]),
        'two arguments': lambda c, f: (f, [((f, val(c), val(c)), {}) for _ in range(2)]),
        'two keywords in either order': lambda c, f: (f, [((f,), dict(x=val(c), y=val(c))), ((f,), dict([('y', val(c)), ('x', val(c))]))]),
        'swapped arguments': lambda c, f: (f, (lambda a, b: [((f, a, b), {}), ((f, b, a), {})])(val(c), val(c))),
        'swapped keywords': lambda c, f: (f, (lambda a, b: [((f,), dict(x=a, y=b)), ((f,), dict(x=b, y=a))])(val(c), val(c))),
        'keyword or not': lambda c, f: (f, [((f,), {}), ((f,), dict(x=val(c))), ((f,), {})]),
        'different keywords': lambda c, f: (f, (lambda a: [((f,), dict(x=a)), ((f,), dict(y=a)), ((f,), dict(x=a))])(val(c))),
        'more or fewer arguments': lambda c, f: (f, (lambda a: [((f, a), {}), ((f, a, a), {}), ((f,), {}), ((f, a), {})])(val(c))),
    }
    for name, mk in shapes.items():
        label = 'calls: ' + name

        def go(c):
            fc, made, seen = closure()
            f, calls = mk(c, K['Py']())
            check(c, label, calls, fc, made, seen)
        run_sym(ck, label, go)
    for res in ([None], [0], [False, None], [()]):
        label = 'calls whose result is %r' % (res[0],)

        def go(c):
            fc, made, seen = closure(res)
            check(c, label, [((fam(c, 'SMT'),), {}) for _ in range(3)], fc, made, seen, distinct=False)
        run_sym(ck, label, go)
    label = 'two closures'

    def go(c):
        fc, made, seen = closure()
        gc, made2, seen2 = closure()
        f, g = fam(c, 'SMT'), fam(c, 'SMT')
        x = fc(f)
        y = gc(g)
        ck.prove(label + ': never share a result', c, x is made[0] and y is made2[0] and len(made) == len(made2) == 1 and fc(f) is x and gc(g) is y)
    run_sym(ck, label, go)


def equality(ck):
    K = kinds()
    from peak import family as F

    class Asm(F._AsmFamily, F.PyFamily):
        pass

    def asm(c):
        o = [EqVal(c, 'asm'), EqVal(c, 'aadt'), EqVal(c, 'extra')]
        f = Asm(o[0], o[1], o[2])
        return f, o

    class Rew(F._RewriterFamily, F.PyFamily):
        pass

    def rew(c):
        o = [EqVal(c, 'passes')]
        return Rew(passes=o[0]), o

    class Own(F.PyFamily):
        """a user family with an option of its own"""

        def __init__(self, opt):
            super().__init__()
            self.opt = opt

        def __eq__(self, o):
            return self.opt == o.opt if type(self) is type(o) else NotImplemented

        def __hash__(self):
            return hash(self.opt)
        __ne__ = F.AbstractFamily.__ne__

    def own(c):
        o = [EqVal(c, 'opt')]
        return Own(o[0]), o

    def std(kind):
        def mk(c):
            if kind in HAS_OPT:
                o = [EqVal(c, 'assembler')]
                return K[kind](assembler=o[0]), o
            return K[kind](), []
        return mk
    makers = dict([(k, std(k)) for k in K], Asm=asm, Rewriter=rew, Own=own)
    for a, b in itertools.product(makers, repeat=2):
        label = 'families %s and %s' % (a, b)

        def go(c):
            (f, o), (g, p) = makers[a](c), makers[b](c)
            same = z3.BoolVal(type(f) is type(g))
            spec = z3.And([same] + [x.key == y.key for x, y in zip(o, p)]) if a == b else same
            eq = f == g
            ck.prove(label + ': equal exactly when of one kind with equal options', c, spec == z3.BoolVal(bool(eq)))
            ck.prove(label + ': equality is symmetric', c, bool(g == f) == bool(eq))
            ck.prove(label + ': != is the negation of ==', c, bool(f != g) == (not eq))
            ck.prove(label + ': equal families hash alike', c, not eq or hash(f) == hash(g))
            ck.prove(label + ': reflexive', c, bool(f == f) and not (f != f))
            ck.prove(label + ': differs from other objects', c, not (f == 1) and f != 1 and not (f == None) and f != 'x')  # noqa
        run_sym(ck, label, go)


# ---- concrete --------------------------------------------------------------

def fam_pool():
    import peak.assembler as a1
    import peak.assembler2 as a2
    K = kinds()

    class Other(a1.Assembler):
        pass
    pool = []
    for k in K:
        pool.append((k, 'default', K[k]))
        if k in HAS_OPT:
            pool.append((k, 'default', lambda k=k: K[k](assembler=a1.Assembler)))
            pool.append((k, 'other', lambda k=k: K[k](assembler=Other)))
    return pool


def sequence(order, extra):
    """families in the order given; extra[i]: (args, kwargs) beside the family"""
    from peak import family_closure
    pool = fam_pool()
    n = [0]

    @family_closure
    def fc(family, *a, **k):
        n[0] += 1
        return (object(), family, a, k)
    memo = {}
    for i, e in zip(order, extra):
        kind, opt, mk = pool[i % len(pool)]
        a, k = e
        key = (kind, opt, tuple(a), frozenset(k.items()))
        r = fc(mk(), *a, **k)
        if key in memo:
            assert r is memo[key], 'equal arguments, another object: %r' % (key,)
        else:
            assert all(r is not v for v in memo.values()), 'different arguments share a result: %r' % (key,)
            memo[key] = r
        assert n[0] == len(memo), 'the body was evaluated %d times for %d different arguments' % (n[0], len(memo))


def shortcuts(order):
    from peak import family_closure
    from peak import family as F
    n = [0]

    @family_closure
    def fc(family):
        n[0] += 1
        return (type(family).__name__, object())
    full = {'Py': F.PyFamily, 'PyX': F.PyXFamily, 'SMT': F.SMTFamily, 'Magma': F.MagmaFamily}
    seen = set()
    for name, direct in order:
        x = fc(full[name]()) if direct else getattr(fc, name)
        assert x[0] == full[name].__name__, 'the %s shortcut used %s' % (name, x[0])
        assert x is fc(full[name]()) and x is getattr(fc, name)
        seen.add(name)
        assert n[0] == len(seen)
    assert fc.family is F


def custom():
    """a closure bound to a user's families"""
    from peak import family_closure
    from peak import family as F
    import types

    class P(F.PyFamily):
        pass

    class S(F.SMTFamily):
        pass
    ns = types.SimpleNamespace(PyFamily=P, SMTFamily=S, MagmaFamily=F.MagmaFamily, PyXFamily=F.PyXFamily)

    @family_closure(ns)
    def fc(family):
        return (type(family), object())
    assert fc.family is ns
    assert fc.Py is fc(P()) and fc.Py[0] is P and fc.SMT is fc(S()) and fc.SMT[0] is S
    assert fc(F.PyFamily()) is not fc.Py and fc(F.SMTFamily())[0] is F.SMTFamily
    assert fc.PyX[0] is F.PyXFamily and fc.Magma[0] is F.MagmaFamily


def ast_classes():
    """closures that make Peak classes"""
    from peak import family_closure, Peak, Const
    from peak import family as F

    @family_closure
    def fc(family):
        BV = family.BitVector[4]

        @family.assemble(locals(), globals())
        class Add(Peak):
            def __call__(self, a: BV, b: BV) -> BV:
                return a + b
        return Add
    assert fc.Py is fc(F.PyFamily()) and fc.Py()(BitVector[4](3), BitVector[4](4)) == 7
    assert fc.SMT is not fc.Py and fc.PyX is not fc.Py and fc.SMT is not fc.PyX


def falsy():
    """results that are false or None are cached like any other"""
    from peak import family_closure
    n = [0]

    @family_closure
    def fc(family, a=0):
        n[0] += 1
        return [None, [], BitVector[4](0), 0, ()][a]
    K = kinds()
    for name in sorted(K):
        if name == 'Magma':
            continue
        for a in range(5):
            n[0] = 0
            rs = [fc(K[name](), a) for _ in range(3)]
            assert n[0] == 1 and all(r is rs[0] for r in rs), '%s: body evaluated %d times for result %r' % (name, n[0], rs[0])


CASES = dict(falsy=falsy, sequence=sequence, shortcuts=shortcuts, custom=custom, ast_classes=ast_classes)


def run(ck):
    import gc
    gc.disable()
    ck.under_contract('peak.features.family_closure (__init__, _bind, __call__, shortcuts)',
                      'peak.family.AbstractFamily.__eq__/__ne__/__hash__', 'peak.family._AsmFamily.__eq__/__hash__/__ne__',
                      'peak.family._RewriterFamily.__eq__/__hash__/__ne__', 'peak.family._StdMix.__init__')
    ck.trust('CPython dict: lookup by identity, hash and ==; the arguments have a consistent == and hash')
    ck.assume('an argument given by position and one given by name count as different')
    histories(ck)
    equality(ck)
    rnd = random.Random(ck.seed)
    n = len(fam_pool())
    for i, j in itertools.product(range(n), repeat=2):
        ck.case('sequence', [i, j, i], [((), {})] * 3)
    extras = [((), {}), ((1,), {}), ((), {'x': 1}), ((2,), {'x': 1, 'y': 2}), ((2,), {'y': 2, 'x': 1}), ((2,), {'x': 2, 'y': 1}), ((1, 2), {}), ((2, 1), {})]
    for _ in range(300 if not ck.thorough else 3000):
        m = rnd.randrange(2, 10)
        ck.case('sequence', [rnd.randrange(n) for _ in range(m)], [rnd.choice(extras) for _ in range(m)])
    names = [(a, b) for a in ('Py', 'PyX', 'SMT', 'Magma') for b in (0, 1)]
    for s in itertools.product(names, repeat=2):
        ck.case('shortcuts', list(s))
    ck.case('custom')
    ck.case('ast_classes')
    ck.bound('histories of up to 4 calls with symbolic equality (a cache entry is independent of the others); longer ones sampled')
    ck.case('falsy')
