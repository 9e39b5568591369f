"""Attribute registers read and write through the stored value only.

Objects of real Peak subclasses holding registers from the current gen_attr_register are executed on
opaque values of opaque types.  The invariant "some slot of the register equals its ghost value" is
inferred and shown inductive over every read, accepted assignment, rejected assignment and every
operation on ordinary attributes, so all interleavings are covered; other objects, other attributes
and class attributes are shown unchanged by each operation."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.tok import Tok, TokBit, Machine, mk_type, Init
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product

LEVEL = 'proof'

NAMES = ['r', '_r', '__r', 'value', 'r_', 'r__', '__r_', '_value_', '___r___', '__', '____', '_____', 'mem', '_____r', 'init', 'cls', '_', '__a_', '_peak', '_poke']


def fams():
    from peak import family as F
    return {'py': F.PyFamily, 'pyx': F.PyXFamily, 'smt': F.SMTFamily}


def machine(ck, fam, name1, name2, sametype, where):
    """an object with two attribute registers and two ordinary attributes"""
    from peak import Peak
    F = fams()[fam]()
    label = '%s family, attributes %r and %r%s, registers held by the %s' % (fam, name1, name2, ' of one type' if sametype else '', where)
    T1 = mk_type('T1')
    T2 = T1 if sametype else mk_type('T2')
    i1 = Init('i1')
    i2 = i1 if sametype else Init('i2')

    def val(T, n='v'):
        v = T.__new__(T)
        v.e = z3.Const('%s!%d' % (n, next(tok._n)), tok.V)
        return v
    other = val(mk_type('Plain'), 'plain')

    def make(c):
        R1, R2 = F.gen_attr_register(T1, i1), F.gen_attr_register(T2, i2)
        if where == 'class':        # each object gets a class of its own, or the class register would be shared
            C = type('P', (Peak,), {name1: R1()})
        elif where == 'base class':
            B = type('B', (Peak,), {name1: R1()})
            C = type('P', (B,), {})
        else:
            C = type('P', (Peak,), {})
        o = C()
        if where == 'object':
            setattr(o, name1, R1())
        else:
            object.__setattr__(o, 'keep', type.__getattribute__(C, name1) if name1 in vars(C) else vars(B)[name1])
        setattr(o, name2, R2())
        o.plain = val(T1, 'plain')
        return o, {'r1': Tok(i1.conv('T1')), 'r2': Tok(i2.conv('T1' if sametype else 'T2')), 'plain': o.plain}

    def unchanged(o, G, *skip):
        return [('reading %s afterwards gives its value' % g, getattr(o, n).e == G[g].e)
                for g, n in (('r1', name1), ('r2', name2), ('plain', 'plain')) if g not in skip]

    def read(c, o, G):
        a, b, p = getattr(o, name1), getattr(o, name2), o.plain
        return G, [('reads the first register', a.e == G['r1'].e), ('reads the second register', b.e == G['r2'].e),
                   ('reads an ordinary attribute', p.e == G['plain'].e)] + unchanged(o, G)

    def write(g, name, T):
        def op(c, o, G):
            v = val(T)
            setattr(o, name, v)
            G1 = dict(G)
            G1[g] = v
            return G1, unchanged(o, G1)
        return op

    def write_sub(c, o, G):
        v = val(type('Sub', (T1,), {}))
        setattr(o, name1, v)
        G1 = dict(G, r1=v)
        return G1, [('a value of a subtype is taken as it is', getattr(o, name1) is v)] + unchanged(o, G1)

    def reject(g, name):
        def op(c, o, G):
            bad = val(mk_type('Other'))
            try:
                setattr(o, name, bad)
                ok = False
            except TypeError:
                ok = True
            return G, [('a value of another type raises TypeError', ok)] + unchanged(o, G)
        return op

    def plain(c, o, G):
        v = val(T1, 'plain')
        o.plain = v
        return dict(G, plain=v), [('an ordinary attribute holds what was assigned', o.plain is v)] + unchanged(o, dict(G, plain=v))

    def add_and_delete(c, o, G):
        v = val(T1)
        miss = not hasattr(o, 'fresh')
        o.fresh = v
        got = o.fresh is v
        del o.fresh
        return G, [('a new attribute can be set, read and deleted', miss and got and not hasattr(o, 'fresh'))] + unchanged(o, G)
    Machine(ck, label, make, {
        'read': read, 'write first': write('r1', name1, T1), 'write second': write('r2', name2, T2), 'write plain': plain, 'write a subtype': write_sub,
        'reject first': reject('r1', name1), 'reject second': reject('r2', name2), 'add and delete': add_and_delete}).run()


# ---- concrete --------------------------------------------------------------

class Col(Enum):
    red = 0
    blue = 1


def script(fam, names, ops):
    """ops: (object 0/1, attribute number, kind) with kind value number, 'bad' or 'read'"""
    from peak import Peak
    F = fams()[fam]()
    Ts = [F.BitVector[4], F.BitVector[8], F.Bit]

    class P(Peak):
        def __init__(self):
            for i, n in enumerate(names):
                setattr(self, n, F.gen_attr_register(Ts[i % 3], i % 2)())
            self.plain = 0
    objs = [P(), P()]
    model = [[Ts[i % 3](i % 2) for i in range(len(names))] for _ in objs]
    for w, i, k in ops:
        T = Ts[i % 3]
        if k == 'bad':
            bad = {0: F.BitVector[8](3), 1: 7, 2: True}[i % 3]
            try:
                setattr(objs[w], names[i], bad)
            except TypeError:
                pass
            else:
                raise AssertionError('a value of another type was accepted')
        elif k == 'sub' and i % 3 != 2:
            v = (F.Signed[4], F.Unsigned[8])[i % 3](3)
            setattr(objs[w], names[i], v)
            model[w][i] = v
        elif k not in ('read', 'sub'):
            v = T(k % (2 if i % 3 == 2 else 16))
            setattr(objs[w], names[i], v)
            model[w][i] = v
        for x in (0, 1):
            for j, n in enumerate(names):
                got = getattr(objs[x], n)
                assert got is model[x][j] or str(got) == str(model[x][j]) and type(got) is type(model[x][j]), (x, n, got, model[x][j])
            assert objs[x].plain == 0


def ordinary(ops):
    """a Peak object and a plain Python object with the same class body behave alike"""
    from peak import Peak, family
    import types
    Reg = family.PyFamily().gen_attr_register(BitVector[4], 0)

    def body(base):
        class C(base):
            shared = [1]
            const = 5
            RegClass = Reg

            def __init__(self):
                self.a = 1
                self.kls = Reg
                self.none = None
                self._h = 0

            def meth(self, x=0):
                return ('meth', x, self.a)

            @property
            def ro(self):
                return ('ro', self.a)

            @property
            def rw(self):
                return self._h

            @rw.setter
            def rw(self, v):
                self._h = v

            @property
            def unset(self):
                return self._missing

            @staticmethod
            def st(x):
                return x

            @classmethod
            def cm(cls, x):
                return x

            def __getattr__(self, n):
                if n == 'magic':
                    return 'by __getattr__'
                raise AttributeError(n)
        return C
    objs = [body(Peak)(), body(object)()]
    for op, name, v in ops:
        outs = []
        for o in objs:
            try:
                if op == 'get':
                    r = getattr(o, name)
                    r = r(3) if isinstance(r, (types.MethodType, types.FunctionType)) else r
                elif op == 'set':
                    r = setattr(o, name, v)
                else:
                    r = delattr(o, name)
                outs.append(('ok', r))
            except Exception as e:
                outs.append(('raise', type(e)))
        assert outs[0] == outs[1], (op, name, outs)
        d = [dict(vars(o)) for o in objs]
        assert d[0] == d[1], (op, name, d)


def nested():
    """registers of nested components, and registers replaced by deletion"""
    from peak import Peak, family
    F = family.PyFamily()
    R = F.gen_attr_register(BitVector[4], 3)

    class In(Peak):
        def __init__(self):
            self.x = R()

    class Out(Peak):
        def __init__(self):
            self.i, self.j = In(), In()
            self.x = R()
    o = Out()
    o.i.x = BitVector[4](9)
    assert (o.i.x, o.j.x, o.x) == (BitVector[4](9), BitVector[4](3), BitVector[4](3))
    o.x = BitVector[4](1)
    assert (o.i.x, o.j.x, o.x) == (BitVector[4](9), BitVector[4](3), BitVector[4](1))
    held = vars(o)['x']
    o.x = BitVector[4](2)
    assert vars(o)['x'] is held, 'the register was replaced'
    del o.x
    assert 'x' not in vars(o)
    o.x = 5
    assert o.x == 5


CASES = dict(script=script, ordinary=ordinary, nested=nested)


def run(ck):
    ck.under_contract('peak.peak.Peak.__getattribute__', 'peak.peak.Peak.__setattr__', 'peak.peak._is_dunder',
                      'peak.family._RegFamily.gen_attr_register.Register (__init__, _poke_, _peak_)')
    ck.assume('attribute names of the form __name__ are reserved by Python and not registers',
              'property getters of the class have no side effects (an assignment looks at the current value first)')
    ck.bound('attribute names enumerated: %s' % ', '.join(NAMES))
    for fam in ('py', 'pyx', 'smt'):
        machine(ck, fam, 'r', 's', False, 'object')
        machine(ck, fam, 'r', 's', True, 'object')
        machine(ck, fam, 'r', 's', True, 'class')
        machine(ck, fam, 'r', 's', False, 'base class')
    for n in NAMES:
        machine(ck, 'py', n, 'second', True, 'object')
    rnd = random.Random(ck.seed)
    for fam in ('py', 'pyx', 'smt'):
        for a in itertools.product((0, 1), range(3), (3, 'bad', 'sub')):
            for b in itertools.product((0, 1), range(3), (6, 'bad')):
                ck.case('script', fam, ['r', '_s', 'value'], [a, b])
        for _ in range(6 if not ck.thorough else 60):
            ck.case('script', fam, rnd.sample(NAMES, 6), [(rnd.randrange(2), rnd.randrange(6), rnd.choice([1, 4, 7, 'bad', 'read', 'sub'])) for _ in range(25)])
    names = ['a', 'none', 'kls', 'RegClass', 'const', 'shared', 'meth', 'ro', 'rw', 'unset', 'st', 'cm', 'magic', 'new', '_priv', '__d__']
    steps = [(op, n, v) for op in ('get', 'set', 'del') for n in names for v in ((7,) if op == 'set' else (None,))]
    for s in itertools.product(steps, repeat=2) if ck.thorough else zip(steps, steps[7:] + steps[:7]):
        ck.case('ordinary', list(s) + [('get', s[0][1], None), ('get', s[1][1], None)])
    for _ in range(200):
        ck.case('ordinary', [rnd.choice(steps) for _ in range(12)])
    ck.case('nested')
