"""Black boxes expose their inputs and outputs faithfully under their path.

The call the symbolic family installs is executed on opaque values.  Its specification is a two-bit
state machine with ghost inputs and outputs; each operation is executed from the state every other
history leads to, and the object it leaves is shown to be in the state of the specification (same
contents as an object brought there directly), so all histories are covered by induction.
The search for black boxes is decided on every component tree up to a size bound."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.srcmod import run_source
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector

LEVEL = 'proof'
NAMES = ['x', 'y', 'a', 'value', 'k']


class Obj:
    """an opaque value"""

    def __bool__(self):
        raise sym.Unsupported('truth of an opaque value')

    def __eq__(self, o):
        raise sym.Unsupported('comparison of an opaque value')
    __hash__ = None


def bb_class(nin, nout, named, how):
    """how: assemble (symbolic family) or create_call; subclass"""
    from peak import family as F, Peak, name_outputs
    from peak.black_box import BlackBox
    ins = NAMES[:nin]
    src = 'class BB(Peak, BlackBox):\n'
    if named:
        src += '    @name_outputs(%s)\n' % ', '.join('o%d=D' % i for i in range(nout))
    src += '    def __call__(self, %s)%s:\n' % (', '.join(n + ': D' for n in ins), '' if named else ' -> ' + (
        'D' if nout == 1 else '(%s)' % ', '.join(['D'] * nout)))
    src += '        return %s\n' % ', '.join(['D(0)'] * nout)
    ns = dict(Peak=Peak, BlackBox=BlackBox, name_outputs=name_outputs, D=BitVector[8])
    run_source(src, ns)
    C = ns['BB']
    i0, o0 = C.input_t, C.output_t
    if how == 'assemble':
        C = F.SMTFamily().assemble({'D': BitVector[8]}, ns)(C)
    elif how == 'twice':
        C.create_call()
        C.create_call()
    else:
        C.create_call()
        if how == 'subclass':
            C = type(Peak)('Sub', (C,), {})
    assert C.input_t is i0 and C.output_t is o0, 'the interface changed'
    return C


def snap(o, ids):
    """contents of the state reachable from o, opaque values numbered by ids"""
    if isinstance(o, Obj):
        return ('obj', ids.setdefault(id(o), len(ids)))
    if isinstance(o, (tuple, list)):
        return (type(o).__name__,) + tuple(snap(x, ids) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((k, snap(v, ids)) for k, v in o.items())
    if isinstance(o, tok.ATOM):
        return o
    if hasattr(o, '__dict__'):
        return ('object', type(o).__name__) + snap(dict(object.__getattribute__(o, '__dict__')), ids)
    raise sym.Unsupported('state holds a %s' % type(o))


class Spec:
    """expected state of a black box: outputs and inputs, each unset or a list of opaque values"""

    def __init__(self, outs=None, ins=None):
        self.outs, self.ins = outs, ins


def bring(C, outs, ins):
    o = C()
    if ins is not None:
        o._set_outputs(*[Obj() for _ in C.output_t.field_dict])
        o(*ins)
    if outs is not None:
        o._set_outputs(*outs)
    return o


def states(C):
    """(inputs set, outputs set): inputs are only ever recorded after outputs were set"""
    nin, nout = len(C.input_t.field_dict), len(C.output_t.field_dict)

    def f(n):
        return [Obj() for _ in range(n)]
    return [('nothing set', None, None), ('outputs set', f(nout), None), ('called', f(nout), f(nin))]


def value(outs):
    return outs[0] if len(outs) == 1 else tuple(outs)


def eqv(a, b):
    if isinstance(b, tuple):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return a is b


def machine(ck, nin, nout, named, how):
    label = 'black box of %d inputs and %d outputs (%s%s)' % (nin, nout, 'named, ' if named else '', how)
    try:
        C = bb_class(nin, nout, named, how)
    except Exception as e:
        ck.obl(label, 'undecided', 'engine', repr(e))
        return
    names = NAMES[:nin]

    def ob(name, ok, detail=''):
        ck.obl('%s: %s' % (label, name), 'proved' if ok else 'refuted', 'evaluation (values opaque)', detail)

    def raises(f):
        try:
            f()
        except ValueError:
            return True
        return False

    def observe(o, sname, what, outs, ins):
        """the object is in the specified state: same contents as one brought there directly"""
        ids = {}
        want = snap(bring(C, outs, ins), ids)
        got = snap(o, ids)
        ck.obl('%s: %s from %r leaves the specified state' % (label, what, sname), 'proved' if got == want else 'undecided', 'evaluation (values opaque)',
               '%r instead of %r' % (got, want))
        if ins is None:
            ob('_get_inputs before any call raises ValueError', raises(o._get_inputs), '%s, %s' % (sname, what))
        else:
            ob('_get_inputs gives the inputs of the last call in interface order', eqv(o._get_inputs(), tuple(ins)), '%s, %s' % (sname, what))
    for sname, outs, ins in states(C):
        def fresh():
            return bring(C, outs, ins), [Obj() for _ in range(nin)], [Obj() for _ in range(nout)]
        other, oin, oout = bring(C, states(C)[2][1], states(C)[2][2]), None, None
        before = snap(other, {})
        o, a, r = fresh()
        observe(o, sname, 'nothing', outs, ins)
        # set outputs
        o._set_outputs(*r)
        observe(o, sname, 'setting the outputs', r, ins)
        # wrong number of outputs
        for k in range(nout + 2):
            if k != nout:
                o, a, r = fresh()
                ob('a wrong number of outputs raises ValueError', raises(lambda: o._set_outputs(*[Obj() for _ in range(k)])), sname)
                observe(o, sname, 'setting %d outputs' % k, outs, ins)
        # calls
        calls = [('by position', lambda o, a: o(*a))]
        for p in itertools.permutations(range(nin)):
            calls.append(('by keyword', lambda o, a, p=p: o(**{names[i]: a[i] for i in p})))
        for how_, call in calls:
            o, a, r = fresh()
            if outs is None:
                ob('a call before the outputs are set raises ValueError', raises(lambda: call(o, a)), sname)
                observe(o, sname, 'a call %s' % how_, outs, ins)
            else:
                got = call(o, a)
                ob('a call %s returns exactly the outputs set' % how_, eqv(got, value(outs)), '%s: %r' % (sname, got))
                observe(o, sname, 'a call %s' % how_, outs, a)
        # wrong calls
        wrong = [('no inputs', lambda o, a: o()), ('one input too many', lambda o, a: o(*a, Obj())),
                 ('an unknown keyword', lambda o, a: o(**dict(zip(names, a)), zz=Obj())),
                 ('positions and keywords', lambda o, a: o(a[0], **dict(zip(names, a))))]
        if nin > 1:
            wrong += [('one input too few', lambda o, a: o(*a[1:])), ('a missing keyword', lambda o, a: o(**dict(list(zip(names, a))[1:]))),
                      ('a renamed keyword', lambda o, a: o(**dict(list(zip(names, a))[1:]), zz=a[0]))]
        for w, call in wrong:
            o, a, r = fresh()
            ob('a call with %s raises ValueError' % w, raises(lambda: call(o, a)), sname)
            observe(o, sname, 'a call with %s' % w, outs, ins)
        ob('other black boxes are unchanged', snap(other, {}) == before, sname)


# ---- concrete --------------------------------------------------------------

def protocol(nin, nout, named, how, ops):
    """a history of operations against the specification"""
    C = bb_class(nin, nout, named, how)
    bbs = [C(), C()]
    model = [[None, None], [None, None]]
    names = NAMES[:nin]
    S = SMTBitVector[8]
    for w, op in ops:
        o, m = bbs[w], model[w]
        a = [S() for _ in range(nin)]
        raised = False
        try:
            if op == 'set':
                r = [S() for _ in range(nout)]
                o._set_outputs(*r)
                m[0] = r
            elif op == 'set wrong':
                o._set_outputs(*[S() for _ in range(nout + 1)])
                raise AssertionError('a wrong number of outputs was accepted')
            elif op in ('call', 'call kw'):
                got = o(*a) if op == 'call' else o(**dict(reversed(list(zip(names, a)))))
                assert m[0] is not None, 'a call before the outputs are set was accepted'
                assert eqv(got, value(m[0])), 'a call returned %r' % (got,)
                m[1] = a
            elif op == 'few':
                o(*a[1:])
                raise AssertionError('a call with too few inputs was accepted')
            elif op == 'kw wrong':
                o(**dict(zip(names[1:] + ['zz'], a)))
                raise AssertionError('a call with a wrong keyword was accepted')
            elif op == 'both':
                o(a[0], **dict(zip(names, a)))
                raise AssertionError('a call with both positions and keywords was accepted')
        except ValueError:
            assert op not in ('set',) and (op not in ('call', 'call kw') or m[0] is None), '%s raised ValueError' % op
        for x, mm in zip(bbs, model):
            try:
                got = x._get_inputs()
            except ValueError:
                assert mm[1] is None, '_get_inputs raised ValueError after a call'
            else:
                assert mm[1] is not None and eqv(got, tuple(mm[1])), '_get_inputs gave %r' % (got,)


def py_runs():
    """outside the symbolic family a black box computes its function"""
    from peak import family as F, Peak, family_closure
    from peak.black_box import BlackBox

    @family_closure
    def fc(family):
        D = family.BitVector[8]

        @family.assemble(locals(), globals())
        class BB(Peak, BlackBox):
            def __call__(self, x: D, y: D) -> D:
                return x - y
        return BB
    for k in (fc.Py, fc.PyX):
        assert k()(BitVector[8](9), BitVector[8](4)) == 5
    o = fc.SMT()
    try:
        o(SMTBitVector[8](1), SMTBitVector[8](2))
    except ValueError:
        pass
    else:
        raise AssertionError('a symbolic black box ran without outputs')


def build(tree, reg):
    """tree: 'b' black box, 'o' other value, 'r' register, 'a' attribute register, ('p', {name: tree}) component"""
    from peak import Peak
    from peak import family as F
    from peak.black_box import BlackBox
    BB, BB2, P, Q = reg
    if tree == 'b':
        return BB()
    if tree == 'c':
        return BB2()
    if tree == 'o':
        return [BB()]
    if tree == 'n':
        return None
    if tree == 'r':
        return F.PyFamily().gen_register(BitVector[4], 0)()
    if tree == 'a':
        return F.PyFamily().gen_attr_register(BitVector[4], 0)()
    o = (P if len(tree[1]) % 2 else Q)()
    for n, t in tree[1].items():
        setattr(o, n, build(t, reg))
    return o


def boxes(tree, obj, path=()):
    """independent specification"""
    if tree in ('b', 'c'):
        return {path: obj}
    if isinstance(tree, str):
        return {}
    out = {}
    for n, t in tree[1].items():
        out.update(boxes(t, vars(obj)[n], path + (n,)))
    return out


def find(tree, again=None):
    from peak import Peak
    from peak.black_box import BlackBox, get_black_boxes, get_black_box

    class BB(Peak, BlackBox):
        def __call__(self, x: Bit) -> Bit:
            return x

    class BB2(Peak, BlackBox):
        def __init__(self):
            super().__init__()
            self.inner = BB()       # inside a black box nothing is looked for

        def __call__(self, x: Bit, y: Bit) -> (Bit, Bit):
            return x, y

    class P(Peak):
        pass

    class Q(Peak):
        def __call__(self, x: Bit) -> Bit:
            return x
    reg = (BB, BB2, P, Q)
    objs = [build(tree, reg), build(again if again is not None else tree, reg)]
    for _ in range(2):
        for o, t in zip(objs, (tree, again if again is not None else tree)):
            want = boxes(t, o)
            got = get_black_boxes(o)
            assert set(got) == set(want), 'black boxes under %r, not %r' % (sorted(got), sorted(want))
            for p in want:
                assert got[p] is want[p], 'another instance under %r' % (p,)
                assert get_black_box(o, p) is want[p], 'looking up %r gives another instance' % (p,)
            for p in paths(t):
                x = o
                for f in p:
                    x = vars(x)[f]
                if isinstance(x, Peak) and not has_attr_reg(t, p):
                    assert get_black_box(o, p) is x
            for p in list(paths(t)) + [()]:
                try:
                    get_black_box(o, p + ('nosuch',))
                except ValueError:
                    pass
                else:
                    raise AssertionError('a path that does not exist was found')


def has_attr_reg(tree, path):
    for f in path:
        tree = tree[1][f]
    return tree in ('a', 'n', 'o')


def paths(tree, p=()):
    if isinstance(tree, str):
        return
    for n, t in tree[1].items():
        yield p + (n,)
        yield from paths(t, p + (n,))


def trees(size, leaves, names):
    """all trees with at most `size` nodes below the root"""
    def forests(k):
        if k == 0:
            yield {}
            return
        yield {}
        for first in range(1, k + 1):
            for t in sub(first):
                for rest in forests(k - first):
                    yield dict([(names[len(rest)], t)] + list(rest.items()))

    def sub(k):
        if k == 1:
            yield from leaves
            return
        for f in forests(k - 1):
            if nodes(f) == k - 1:
                yield ('p', f)
    seen = []
    for f in forests(size):
        if f not in seen:
            seen.append(f)
            yield ('p', f)


def nodes(f):
    return sum(1 + (0 if isinstance(t, str) else nodes(t[1])) for t in f.values())


def not_peak():
    from peak.black_box import get_black_boxes
    for x in (3, 'a', Obj):
        try:
            get_black_boxes(x)
        except ValueError:
            pass
        else:
            raise AssertionError('%r has no black boxes' % (x,))


def isolated(tree):
    """what a caller does to a result does not change later answers"""
    from peak import Peak
    from peak.black_box import BlackBox, get_black_boxes

    class BB(Peak, BlackBox):
        def __call__(self, x: Bit) -> Bit:
            return x

    class P(Peak):
        pass
    o = build(tree, (BB, BB, P, P))
    want = boxes(tree, o)
    got = get_black_boxes(o)
    assert got == want


CASES = dict(protocol=protocol, py_runs=py_runs, find=find, not_peak=not_peak, isolated=isolated)


def run(ck):
    ck.under_contract('peak.black_box.BlackBox.__init__/create_call/_get_inputs/_set_outputs', 'peak.family._BBFamily.assemble',
                      'peak.family.SMTFamily.assemble', 'peak.black_box.get_black_boxes (bounded)', 'peak.black_box.get_black_box (bounded)')
    ck.assume('black boxes have at least one input and one output and call BlackBox.__init__', 'components form a tree and are not changed after the first query')
    top = 4 if ck.thorough else 3
    ck.bound('number of inputs and outputs enumerated (1-%d)' % top)
    for nin in range(1, top + 1):
        for nout in range(1, top + 1):
            for named in (False, True):
                for how in ('assemble', 'create_call', 'subclass', 'twice')[:4 if nin + nout < 5 else 1]:
                    ck.section('black box %d %d' % (nin, nout), machine, ck, nin, nout, named, how)
    ops = ['set', 'set wrong', 'call', 'call kw', 'few', 'kw wrong', 'both']
    for s in itertools.product(ops, repeat=2):
        ck.case('protocol', 2, 1, False, 'assemble', [(0, s[0]), (0, s[1]), (0, 'set'), (1, s[1]), (0, s[0]), (0, s[1])])
    rnd = random.Random(ck.seed)
    for i in range(30):
        ck.case('protocol', rnd.randrange(1, 4), rnd.randrange(1, 4), bool(i % 2), ('assemble', 'create_call', 'subclass')[i % 3],
                [(rnd.randrange(2), rnd.choice(ops)) for _ in range(14)])
    ck.case('py_runs')
    ck.case('not_peak')
    size = 4 if ck.thorough else 3
    ck.bound('component trees: all with up to %d components of 3 kinds of leaves, deeper and wider ones sampled' % size)
    names = ['f', '_g', 'BB1', 'inner', 'x']
    for t in trees(size, ['b', 'c', 'o', ('p', {})], names):
        ck.case('find', t)

    def rtree(d):
        if d == 0 or rnd.random() < .25:
            return rnd.choice(['b', 'c', 'o', 'n', 'r', 'a'])
        return ('p', {n: rtree(d - 1) for n in rnd.sample(names + ['y', 'z'], rnd.randrange(4))})
    for _ in range(150 if not ck.thorough else 1500):
        a, b = [('p', {n: rtree(4) for n in rnd.sample(names, 3)}) for _ in range(2)]
        ck.case('find', a, b)
    ck.case('isolated', ('p', {'f': 'b', 'x': ('p', {'f': 'b'})}))
