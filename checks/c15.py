"""IR instructions implement exactly the given function and interface.

The real IR.add_peak_instruction generates and executes a class from source text.  It is run with
opaque types whose equality is symbolic (the generator shares one name between equal types, so every
pattern of equal types is a path), an opaque function and opaque inputs and family; the class it
makes is then called.  Names and the number of fields are enumerated."""
import itertools
import random
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.tok import eq_type
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from hwtypes.adt import Product, Enum

LEVEL = 'proof'
NAMES = ['in0', 'x', 'y', '_u', 'Data', 'z9']
HARD = ['family', 'fun', 'args', 't0', '_t0', 't1', '_t1', 'peak_fc', 'inputs', 'out', 'tab', 'Output', 'Input', 'name', 'print', '_family']
BAD_PRE = ('_family_', '_self_', '_fun_', '_family_closure', 'Peak', 'name_outputs')
CLS = ['Add', 'family', 'self', 'fun', 'T0', 'IR', 'x', 'Product', 'out0']


class Obj:
    """an opaque value"""


def make(ir, name, ins, outs, fun, cls_name=None):
    I = Product.from_fields('In', dict(ins))
    O = Product.from_fields('Out', dict(outs))
    if cls_name is None:
        ir.add_peak_instruction(name, I, O, fun)
    else:
        ir.add_peak_instruction(name, I, O, fun, cls_name)
    return ir.instructions[name]


def symbolic(ck, nin, nout, innames, outnames, cls_name=None, name='Inst'):
    from peak.ir import IR
    label = 'instruction with %d inputs and %d outputs' % (nin, nout)

    def go(c):
        T = [eq_type(c, 'A') for i in range(nin)]
        R = [eq_type(c, 'A') for i in range(nout)]
        ins, outs = list(zip(innames, T)), list(zip(outnames, R))
        calls = []
        results = [Obj(), Obj()]

        def fun(*a, **k):
            calls.append((a, k))
            return results[len(calls) - 1]
        ir = IR()
        fc = make(ir, name, ins, outs, fun, cls_name)
        fam = Obj()
        C = fc(fam)

        def typ(t, u):
            return z3.BoolVal(True) if t is u else t.key == u.key
        gi, go_ = list(C.input_t.field_dict.items()), list(C.output_t.field_dict.items())
        ck.prove(label + ': input names and order', c, [k for k, _ in gi] == list(innames))
        ck.prove(label + ': output names and order', c, [k for k, _ in go_] == list(outnames))
        ck.prove(label + ': input types', c, z3.And([typ(t, u) for (_, t), u in zip(gi, T)]))
        ck.prove(label + ': output types', c, z3.And([typ(t, u) for (_, t), u in zip(go_, R)]))
        args = [Obj() for _ in range(nin)]
        o = C()
        r = o(*args)
        r2 = o(**dict(reversed(list(zip(innames, args)))))
        for i, rr in enumerate((r, r2)):
            ck.prove(label + ': the result of the function is returned', c, rr is results[i])
        ck.prove(label + ': the function gets the family and the inputs in interface order', c, len(calls) == 2 and all(
            not k and len(a) == nin + 1 and a[0] is fam and all(x is y for x, y in zip(a[1:], args)) for a, k in calls))
        fam2 = Obj()
        calls.clear()
        fc(fam2)()(*args)
        ck.prove(label + ': the family given is the family passed', c, calls[0][0][0] is fam2)
    try:
        n = 0
        for c, (k, r) in sym.explore(go, stats=ck.stats, max_paths=3000):
            n += k == 'ok'
            if k == 'raise':
                ck.obl(label + ': no exception', 'undecided', 'engine', repr(r)[:500])
        ck.obl(label + ': paths reached', 'proved' if n else 'undecided', 'coverage', '')
    except Exception as e:
        ck.obl(label, 'undecided', 'engine', repr(e)[:500])


# ---- concrete --------------------------------------------------------------

def named(innames, outnames, name, cls_name):
    """unusual field, instruction and class names"""
    from peak.ir import IR
    T = [BitVector[i + 1] for i in range(len(innames))]
    ins = list(zip(innames, T))
    outs = list(zip(outnames, [Bit] + T))
    seen = []

    def fun(family, *a):
        seen.append((family, a))
        return 'result'
    fc = make(IR(), name, ins, outs, fun, cls_name)
    fam = Obj()
    C = fc(fam)
    assert list(C.input_t.field_dict.items()) == ins, list(C.input_t.field_dict.items())
    assert list(C.output_t.field_dict.items()) == outs
    args = [Obj() for _ in innames]
    assert C()(*args) == 'result' and C()(**dict(zip(innames, args))) == 'result'
    for f, a in seen:
        assert f is fam and len(a) == len(args) and all(x is y for x, y in zip(a, args)), 'the function was called with other arguments'
    assert C.__name__ == (cls_name or name)


def sequence(adds):
    """adds: (name, kind) ; a name twice raises ValueError and changes nothing"""
    from peak.ir import IR
    ir, other = IR(), IR()
    shared = object()
    model = {}
    kinds = [([('a', BitVector[4])], [('o', BitVector[4])], lambda f, a: a + 1),
             ([('a', BitVector[4]), ('b', BitVector[4])], [('o', BitVector[4])], lambda f, a, b: a - b),
             ([('b', BitVector[4]), ('a', BitVector[4])], [('o', BitVector[4])], lambda f, b, a: a - b),
             ([('a', Bit), ('b', BitVector[4])], [('o', BitVector[4]), ('p', Bit)], lambda f, a, b: (a.ite(b, ~b), ~a))]
    for name, k in adds:
        ins, outs, fun = kinds[k % 4]
        before = dict(ir.instructions)
        if k >= 4:
            fc = shared if k == 5 else object()
            act = lambda: ir.add_instruction(name, fc)   # noqa
        else:
            act = lambda: make(ir, name, ins, outs, fun)  # noqa
        try:
            act()
        except ValueError:
            assert name in model, 'a new name was rejected'
            assert ir.instructions == before and list(ir.instructions) == list(before), 'a rejected addition changed the IR'
        else:
            assert name not in model, 'the name %r was accepted twice' % name
            model[name] = (k, ir.instructions[name])
            if k >= 4:
                assert ir.instructions[name] is fc
        assert list(ir.instructions) == list(model)
        assert not other.instructions
        for n, (kk, f) in model.items():
            assert ir.instructions[n] is f
            if kk < 4:
                check_kind(kinds[kk], f)


def check_kind(kind, fc):
    ins, outs, fun = kind
    from peak import family as F
    C = fc(F.PyFamily())
    assert list(C.input_t.field_dict.items()) == ins and list(C.output_t.field_dict.items()) == outs
    vals = [t(9 % (2 if t is Bit else 16)) for _, t in ins]
    vals[0] = ins[0][1](1)
    assert C()(*vals) == fun(None, *vals)


def families(w):
    """the same function in every family, also with symbolic inputs"""
    from peak.ir import IR
    from peak import family as F
    from vc.smt import to_z3, valid

    def fun(family, a, b, c):
        BV = family.BitVector
        return c.ite(a + b, a ^ BV[w](1)), a.bvult(b)
    D = BitVector[w]
    fc = make(IR(), 'Mix', [('a', D), ('b', D), ('c', Bit)], [('r', D), ('lt', Bit)], fun)
    for kind in ('Py', 'PyX', 'SMT'):
        C = getattr(fc, kind)
        assert C is fc(getattr(F, kind + 'Family')())
        assert list(C.input_t.field_dict) == ['a', 'b', 'c'] and list(C.output_t.field_dict) == ['r', 'lt']
    S = SMTBitVector[w]
    a, b, c = S(), S(), SMTBit()
    r, lt = fc.SMT()(a, b, c)
    za, zb, zc = to_z3(a), to_z3(b), to_z3(c)
    assert valid(to_z3(r) == z3.If(zc, za + zb, za ^ 1))[0] == 'proved'
    assert valid(to_z3(lt) == z3.ULT(za, zb))[0] == 'proved'
    for x, y, s in ((3, 1, 0), (1, 3, 1), (0, 0, 1)):
        r, lt = fc.Py()(D(x), D(y), Bit(s))
        assert r == (D(x) + D(y) if s else D(x) ^ 1) and lt == (x % (1 << w) < y % (1 << w))


def alike(order):
    """different types of the same name"""
    from peak.ir import IR

    def mk(k):
        class E(Enum):
            a = 0
            b = k
        return E
    T = [mk(1), mk(2), mk(3)]
    ins = [('x%d' % i, T[k]) for i, k in enumerate(order)]
    fc = make(IR(), 'I', ins, [('o', T[order[0]]), ('p', T[1])], lambda f, *a: a)
    C = fc.Py
    assert [(k, id(t)) for k, t in C.input_t.field_dict.items()] == [(k, id(t)) for k, t in ins]
    assert [id(t) for t in C.output_t.field_dict.values()] == [id(T[order[0]]), id(T[1])]


CASES = dict(alike=alike, named=named, sequence=sequence, families=families)


def run(ck):
    import gc
    gc.disable()
    ck.under_contract('peak.ir.IR.__init__', 'peak.ir.IR.add_instruction', 'peak.ir.IR.add_peak_instruction (and the class it generates)',
                      'peak.features.name_outputs', 'peak.features.family_closure')
    ck.trust('CPython exec of the generated source')
    ck.assume('field names are Python identifiers other than %s; class names are identifiers other than Peak, name_outputs, peak_fc, t<n> and _t<n>' % ', '.join(BAD_PRE[:4]),
              'interfaces have at least one field (hwtypes has no empty Product)')
    top = 3 if ck.thorough else 2
    ck.bound('number of fields enumerated; names enumerated (%d unusual ones)' % len(HARD))
    for nin in range(1, top + 2):
        for nout in range(1, top + 1):
            symbolic(ck, nin, nout, NAMES[:nin], ['o%d' % i for i in range(nout)])
    symbolic(ck, 2, 1, ['y', 'x'], ['y'], 'Cls')
    symbolic(ck, 4, 1, NAMES[2:6], ['out'])
    for h in HARD:
        ck.case('named', [h], ['o'], 'I', None)
        ck.case('named', ['x', h, 'y'], [h, 'o'], 'I', None)
        ck.case('named', ['x', 'y'], [h], 'I', 'K')
    for a, b in itertools.permutations(HARD[:8], 2):
        ck.case('named', [a, b], ['o'], 'I', None)
    for cn in CLS:
        ck.case('named', ['x', 'y'], ['o'], cn, None)
        ck.case('named', ['x', 'family'], ['o', 'p'], 'some-name 1', cn)
    rnd = random.Random(ck.seed)
    for s in itertools.product((('a', 0), ('a', 1), ('b', 2), ('b', 5), ('a', 5)), repeat=3):
        ck.case('sequence', list(s))
    for _ in range(60 if not ck.thorough else 600):
        ck.case('sequence', [(rnd.choice('abcdef'), rnd.randrange(7)) for _ in range(7)])
    for o in itertools.product(range(3), repeat=3):
        ck.case('alike', o)
    for w in (1, 3, 8, 16):
        ck.case('families', w)
