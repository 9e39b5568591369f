"""Binding enumeration is complete, duplicate free and type respecting.

create_bindings is executed on opaque types whose equality is symbolic: every pattern of equal and
different types among the paths is one path of the execution, and its result is compared with the
specified set of assignments."""
import gc
import itertools
import random
from hwtypes import BitVector, Bit
from vc import sym
from vc.tok import EqVal

LEVEL = 'proof'


def spec(arch, ir, eq):
    """all assignments arch path -> ir path of an equal type or None using each ir path exactly once"""
    out = []

    def go(todo, left, acc):
        if not todo:
            if not left:
                out.append(tuple(acc))
            return
        p = todo[0]
        for q in left:
            if eq(arch[p], ir[q]):
                go(todo[1:], [r for r in left if r != q], acc + [(p, q)])
        if len(todo) > len(left):
            go(todo[1:], left, acc + [(p, None)])
    go(list(arch), list(ir), [])
    return out


def norm(b, arch):
    """binding as a tuple in the order of the architecture paths"""
    from peak.mapper.utils import Unbound
    d = {}
    for q, p in b:
        assert p in arch, 'unknown architecture path %r' % (p,)
        assert p not in d, 'path %r occurs twice' % (p,)
        d[p] = None if q is Unbound else q
    assert len(d) == len(arch), 'binding of %r only' % (sorted(d),)
    return tuple((p, d[p]) for p in arch)


def compare(arch, ir, eq):
    from peak.mapper.utils import create_bindings
    a, i = dict(arch), dict(ir)
    got = [norm(b, arch) for b in create_bindings(a, i)]
    assert a == arch and i == ir, 'the arguments were changed'
    want = spec(arch, ir, eq)
    assert len(set(got)) == len(got), 'repeated binding'
    assert set(got) == set(want), 'missing %r, surplus %r' % (sorted(set(want) - set(got), key=repr)[:2], sorted(set(got) - set(want), key=repr)[:2])


def symbolic(ck, na, ni):
    L = '%d architecture and %d IR paths' % (na, ni)
    names = [('a',), ('a', 'x'), ('b', 0), ('b', 1), ('i', 'y', 'z'), ('q',)]

    def go(c):
        arch = {p: EqVal(c, 'T') for p in names[:na]}
        # IR and architecture paths may coincide
        ir = {p: EqVal(c, 'T') for p in names[:ni]}
        try:
            compare(arch, ir, lambda x, y: bool(x == y))
            ck.prove(L + ': exactly the specified bindings', c, True)
        except AssertionError as e:
            ck.obl(L + ': exactly the specified bindings', 'refuted', 'evaluation', '%s on path %r' % (e, c.trace))
        return True
    n = 0
    for c, (k, r) in sym.explore(go, stats=ck.stats, max_paths=20000):
        n += k == 'ok'
        if k == 'raise':
            ck.obl(L + ': no exception', 'refuted', 'evaluation', repr(r)[:500])
    ck.obl(L + ': patterns of equal types', 'proved' if n else 'undecided', 'coverage', '%d' % n)


# ---- concrete --------------------------------------------------------------

def real_types():
    from peak import Const
    from hwtypes.adt import Enum

    class E(Enum):
        a = 0
        b = 1

    class E2(Enum):
        a = 0
        b = 1
    return [Bit, BitVector[1], BitVector[4], BitVector[5], Const(BitVector[4]), E, E2, Const(E), Const(Bit)]


TYPES = None


def concrete(arch, ir):
    """arch, ir: sequences of type numbers"""
    global TYPES
    TYPES = TYPES or real_types()
    a = {('f%d' % k,) if k % 2 else ('g', k): TYPES[t] for k, t in enumerate(arch)}
    i = {('f%d' % k,): TYPES[t] for k, t in enumerate(ir)}
    compare(a, i, lambda x, y: x is y)


CASES = dict(concrete=concrete)


def run(ck):
    gc.disable()
    ck.under_contract('peak.mapper.utils.create_bindings', 'peak.mapper.utils._sort_by_t')
    ck.trust('CPython itertools, dict and list (equality of types symbolic, all hashes collide)')
    top = [(na, ni) for na in range(1, 5) for ni in range(0, 4) if na + ni <= (7 if ck.thorough else 6)] + [(5, 1), (5, 2), (1, 4), (2, 4)]
    ck.bound('number of paths: %s; all patterns of type equality' % (top,))
    tasks = [('%d/%d paths' % t, lambda t=t: symbolic(ck, *t)) for t in sorted(set(top), key=lambda t: -sum(t))]
    rnd = random.Random(ck.seed)

    def cases():
        for a, i in [((0,), (0,)), ((0, 0), (0,)), ((0, 0), (0, 0)), ((0, 1), (1, 0)), ((0,), (1,)), ((0,), ()), ((2, 4), (2,)), ((2, 4), (4,)),
                     ((5, 6), (6,)), ((0, 0, 0), (0, 0)), ((0,), (0, 0)), ((2, 2, 2, 0), (2, 2, 0)), ((7, 5), (5, 7)), ((0, 1, 2), (2, 3))]:
            ck.case('concrete', a, i)
        for _ in range(600 if ck.thorough else 150):
            k = rnd.randrange(1, 5)
            ck.case('concrete', tuple(rnd.randrange(k) for _ in range(rnd.randrange(1, 6))), tuple(rnd.randrange(k) for _ in range(rnd.randrange(0, 4))))
    tasks.append(('concrete', cases))
    ck.parallel(tasks)
