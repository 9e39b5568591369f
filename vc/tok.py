"""Opaque values: proofs parametric in the type stored (Mode T).

A Tok is an element of an uninterpreted sort; code that only moves it around is
proved for every type at once.  Any operation on a Tok is outside the fragment
(the proof is undecided).  TokBit is a Boolean: branching on it forks the
execution, `ite` builds a z3 If.

State of an object is whatever is reachable from its attributes: `slots(obj)`
walks it, so no attribute name is written down here.  The class invariant is
inferred (Houdini): of the equations "slot == ghost value" that hold after
construction, the largest subset every operation preserves."""
import itertools
import types
import weakref
import z3
from . import sym
from .sym import SBool, Unsupported

V = z3.DeclareSort('V')
K = z3.DeclareSort('K')
_n = itertools.count()


class Tok:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        raise Unsupported('truth of an opaque value')

    def __eq__(self, o):
        raise Unsupported('comparison of an opaque value')

    def __hash__(self):
        raise Unsupported('hash of an opaque value')

    def __repr__(self):
        return 'Tok(%s)' % self.e


def tok(c, name='v'):
    return Tok(z3.Const('%s!%d' % (name, next(c.fresh_n)), V))


class TokBit:
    """a symbolic Boolean with the operations of hwtypes.Bit"""

    def __init__(self, e=False):
        if isinstance(e, TokBit):
            e = e.e
        self.e = e if z3.is_expr(e) else z3.BoolVal(bool(e))

    def __bool__(self):
        return bool(SBool(self.e))

    def ite(self, t, f):
        if isinstance(t, tuple) and isinstance(f, tuple):
            return tuple(self.ite(a, b) for a, b in zip(t, f))
        if t is f:
            return t
        if isinstance(t, Tok) and isinstance(f, Tok):
            return Tok(z3.If(self.e, t.e, f.e))
        if isinstance(t, TokBit) and isinstance(f, TokBit):
            return TokBit(z3.If(self.e, t.e, f.e))
        raise Unsupported('ite of %s and %s' % (type(t), type(f)))

    def __and__(self, o): return TokBit(z3.And(self.e, TokBit(o).e))
    def __or__(self, o): return TokBit(z3.Or(self.e, TokBit(o).e))
    def __xor__(self, o): return TokBit(z3.Xor(self.e, TokBit(o).e))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return TokBit(z3.Not(self.e))
    def __eq__(self, o): return TokBit(self.e == TokBit(o).e)
    def __ne__(self, o): return TokBit(z3.Xor(self.e, TokBit(o).e))
    __hash__ = None


def tokbit(c, name='b'):
    return TokBit(c.fresh_bool(name))


def mk_type(name='T'):
    """an opaque type: T(x) is an uninterpreted conversion of x, the identity on values of T"""
    class T(Tok):
        def __init__(self, x):
            if isinstance(x, Tok):
                e = x.e
            elif isinstance(x, Init):
                e = x.conv(name)
            else:
                e = z3.Const('%s_%r' % (name, x), V)
            super().__init__(e)
    T.__name__ = T.__qualname__ = name
    return T


class Init:
    """an opaque initial value of some other type"""

    def __init__(self, name):
        self.name = name

    def conv(self, t):
        return z3.Const('%s(%s)' % (t, self.name), V)


class EqMeta(type):
    """types equal under a symbolic condition (all hashes collide)"""

    def __eq__(a, b):
        if a is b:
            return True
        if isinstance(b, EqMeta) and a.grp is b.grp is sym.CUR:
            return bool(SBool(a.key == b.key))
        return False

    def __ne__(a, b):
        return not a == b

    def __hash__(a):
        return 7


def eq_type(c, name):
    return EqMeta(name, (Tok,), {'grp': c, 'key': z3.Const('%s!%d' % (name, next(_n)), K), '__init__': lambda s, x: Tok.__init__(s, z3.Const('x', V))})


class EqVal:
    """a value equal to others under a symbolic condition (all hashes collide)"""

    def __init__(self, c, name):
        self.grp = c
        self.key = z3.Const('%s!%d' % (name, next(_n)), K)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, EqVal) and self.grp is o.grp is sym.CUR:
            return bool(SBool(self.key == o.key))
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


# ---- object state ---------------------------------------------------------

ATOM = (type(None), bool, int, str, float, bytes, type, types.FunctionType, types.MethodType, types.BuiltinFunctionType)


def slots(obj, mods=('peak',), depth=0, seen=None, path=''):
    """[(path, get(), set(v))] of the leaves of the mutable state reachable from obj"""
    seen = seen if seen is not None else set()
    out = []
    if id(obj) in seen or depth > 8:
        return out
    seen.add(id(obj))

    def leaf(p, val, put):
        if isinstance(val, (list, dict)) or is_obj(val, mods):
            out.extend(slots(val, mods, depth + 1, seen, p))
        else:
            out.append((p, val, put))
    if isinstance(obj, list):
        for i, x in enumerate(obj):
            leaf('%s[%d]' % (path, i), x, lambda v, i=i: obj.__setitem__(i, v))
    elif isinstance(obj, dict):
        for k, x in list(obj.items()):
            leaf('%s[%r]' % (path, k), x, lambda v, k=k: obj.__setitem__(k, v))
    else:
        d = object.__getattribute__(obj, '__dict__')
        for k, x in list(d.items()):
            leaf('%s.%s' % (path, k), x, lambda v, k=k: d.__setitem__(k, v))
    return out


def is_obj(v, mods):
    t = type(v)
    if isinstance(v, ATOM) or isinstance(v, (Tok, TokBit)):
        return False
    m = getattr(t, '__module__', '') or ''
    return any(m == x or m.startswith(x + '.') for x in mods) and hasattr(v, '__dict__')


def shape(obj, mods=('peak',)):
    return [p for p, _, _ in slots(obj, mods)]


# ---- class invariants by Houdini ------------------------------------------

class Machine:
    """make(c) -> (object, {ghost: Tok});  ops: {name: f(c, object, ghosts) -> (ghosts', [(what, formula)])}

    Obligations: after make every ghost has its initial value; every op, from every state the
    inferred invariant allows, meets its formulas, keeps the invariant and leaves another
    object of the same construction and all class attributes alone."""

    def __init__(self, ck, label, make, ops, mods=('peak',), raises=()):
        self.ck, self.label, self.make, self.ops, self.mods, self.raises = ck, label, make, ops, mods, raises

    def state(self, obj):
        return slots(obj, self.mods)

    def fresh_like(self, c, v, e=None):
        if isinstance(v, TokBit):
            return TokBit(c.fresh_bool('s') if e is None else e)
        n = v.__class__.__new__(v.__class__)
        n.e = z3.Const('s!%d' % next(c.fresh_n), V) if e is None else e
        return n

    def havoc(self, c, obj, ghosts, inv):
        G = {}
        for g, v in ghosts.items():
            G[g] = self.fresh_like(c, v)
        for p, v, put in self.state(obj):
            if isinstance(v, (Tok, TokBit)):
                gs = sorted(inv.get(p, ()))
                gs = [g for g in gs if G[g].e.sort() == v.e.sort()]
                n = self.fresh_like(c, v, G[gs[0]].e if gs else None)
                for g in gs[1:]:
                    c.assume(G[g].e == n.e)
                put(n)
        return G

    @staticmethod
    def classes(obj):
        return [(k, n, v) for k in type(obj).__mro__ for n, v in list(k.__dict__.items())]

    def step(self, op, inv, collect):
        """runs op from every state of inv; collect(c, obj, before, G', checks, frame ok)"""
        def go(c):
            obj, g0 = self.make(c)
            obj2, g2 = self.make(c)
            G = self.havoc(c, obj, g0, inv)
            G2 = self.havoc(c, obj2, g2, {})
            before = self.state(obj)
            before2 = self.state(obj2)
            cl = self.classes(obj)
            G1, checks = self.ops[op](c, obj, G)
            after = self.state(obj)
            after2 = self.state(obj2)
            frame = [p for p, _, _ in before2] == [p for p, _, _ in after2] and all(
                same(a[1], b[1]) for a, b in zip(before2, after2))
            now = self.classes(obj)
            frame2 = len(cl) == len(now) and all(a[2] is b[2] for a, b in zip(cl, now))
            collect(c, before, after, G1, checks, frame, frame2)
        return sym.explore(go, stats=self.ck.stats, max_paths=2000)

    def run(self):
        ck, label = self.ck, self.label
        try:
            return self._run()
        except Exception as e:
            import traceback
            ck.obl(label, 'undecided', 'engine', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))

    def _run(self):
        ck, label = self.ck, self.label
        inv, ghosts = {}, []

        def init(c):
            obj, G = self.make(c)
            ghosts[:] = list(G)
            for p, v, _ in self.state(obj):
                if isinstance(v, (Tok, TokBit)):
                    inv[p] = {g for g, t in G.items() if t.e.sort() == v.e.sort() and c.proves(t.e == v.e)}
        res = sym.explore(init, stats=ck.stats)
        for c, (k, r) in res:
            if k == 'raise':
                ck.obl(label + ': construction', 'undecided', 'engine', repr(r))
                return
        first = {p: set(s) for p, s in inv.items()}
        rounds = 0
        while True:
            rounds += 1
            drop = []

            def collect(c, before, after, G1, checks, frame, frame2):
                if [p for p, _, _ in before] != [p for p, _, _ in after]:
                    raise Unsupported('the operation changes the shape of the state: %r' % ([p for p, _, _ in after],))
                for (p, b, _), (_, a, _) in zip(before, after):
                    if isinstance(b, (Tok, TokBit)) != isinstance(a, (Tok, TokBit)):
                        raise Unsupported('slot %s changes kind' % p)
                    if isinstance(a, (Tok, TokBit)):
                        for g in list(inv.get(p, ())):
                            if not c.proves(a.e == G1[g].e):
                                drop.append((p, g))
                    elif not same(a, b):
                        raise Unsupported('slot %s holds a value that is not opaque and changes' % p)
            for op in self.ops:
                for c, (k, r) in self.step(op, inv, collect):
                    if k == 'raise' and isinstance(r, Unsupported):
                        raise r
            if not drop:
                break
            for p, g in drop:
                inv[p].discard(g)
        lost = [g for g in ghosts if not any(g in s for s in inv.values())]
        ck.obl('%s: invariant (%s) holds initially and is kept by every operation' % (
            label, ', '.join(str(g) for g in ghosts[:4])), 'proved' if not lost else 'refuted', 'z3 (Houdini)',
            'no slot keeps %r; initial candidates %r' % (lost, first))

        def final(c, before, after, G1, checks, frame, frame2):
            for what, f in checks:
                ck.prove('%s: %s: %s' % (label, op, what), c, f)
            ck.prove('%s: %s: other objects unchanged' % (label, op), c, frame)
            ck.prove('%s: %s: no class attribute changed' % (label, op), c, frame2)
        for op in self.ops:
            n = 0
            for c, (k, r) in self.step(op, inv, final):
                if k == 'ok':
                    n += 1
                elif k == 'raise':
                    ck.obl('%s: %s: no exception' % (label, op), 'undecided', 'engine', repr(r)[:800])
            ck.obl('%s: %s: paths reached' % (label, op), 'proved' if n else 'undecided', 'coverage', '%d paths' % n)
        return inv


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Tok, TokBit)) and isinstance(b, (Tok, TokBit)):
        return a.e.eq(b.e)
    if isinstance(a, ATOM) and type(a) is type(b):
        return a == b
    return False


def clear_caches(mod):
    """empty dict-like and lru caches held by a module or by the classes and functions it defines"""
    def one(n, v):
        if n.startswith('__') and n.endswith('__'):
            return
        if isinstance(v, (dict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            v.clear()
        elif type(v).__name__ == '_lru_cache_wrapper':
            v.cache_clear()
    for n, v in list(vars(mod).items()):
        one(n, v)
        if isinstance(v, (type, types.FunctionType)) and type.__getattribute__(v, '__module__') == mod.__name__ if isinstance(v, type) \
                else isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
            for n2, v2 in list(vars(v).items()):
                one(n2, v2)
