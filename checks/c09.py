"""A generated register returns its previous value and changes only when enabled.

The class made by the current `gen_register` (after the family's rewriting) is executed on opaque
values: the stored type is an uninterpreted sort, the enable a Boolean.  The class invariant
"some attribute equals the ghost value" is inferred, so all call sequences are covered by induction.
Requests: the real gen_register is called on types, initial values, enables and families whose
equality is symbolic, with the caches in every state three earlier requests can leave."""
import itertools
import warnings
import z3
from vc.harness import Skip
from vc import sym, tok
from vc.sym import Unsupported
from vc.tok import Tok, TokBit, Init, Machine, mk_type, eq_type, EqVal
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product

LEVEL = 'proof'


class E3(Enum):
    a = 0
    b = 1
    c = 2


class Pair(Product):
    x = BitVector[3]
    y = Bit


def fams():
    from peak import family as F
    return {'py': F.PyFamily, 'pyx': F.PyXFamily, 'smt': F.SMTFamily}


def tokfam(name):
    """a family of the real kind whose Bit is a symbolic Boolean"""
    base = fams()[name]
    return type('Tok' + base.__name__, (base,), {'Bit': property(lambda s: TokBit)})


def machine(ck, fam, has_enable):
    F = tokfam(fam)
    label = '%s register %s' % (fam, 'with enable' if has_enable else 'without enable')
    T = mk_type()
    init = Init('init')

    def make(c):
        R = F().gen_register(T, init, has_enable)
        return R(), {'value': Tok(init.conv('T'))}

    def val(c):
        v = T.__new__(T)
        v.e = z3.Const('v!%d' % next(c.fresh_n), tok.V)
        return v

    def call(c, r, G):
        v = val(c)
        m = G['value'].e
        if has_enable:
            en = tok.tokbit(c, 'en')
            out = r(v, en)
            new = z3.If(en.e, v.e, m)
        else:
            out = r(v)
            new = v.e
        return {'value': Tok(new)}, [('returns the previous value', out.e == m)]

    def prev(c, r, G):
        return G, [('prev returns the value held', r.prev().e == G['value'].e)]

    def kw(c, r, G):
        v = val(c)
        m = G['value'].e
        if has_enable:
            en = tok.tokbit(c, 'en')
            out = r(value=v, en=en)
            return {'value': Tok(z3.If(en.e, v.e, m))}, [('returns the previous value', out.e == m)]
        out = r(value=v)
        return {'value': Tok(v.e)}, [('returns the previous value', out.e == m)]
    Machine(ck, label, make, {'call': call, 'call by keyword': kw, 'prev': prev}).run()


def machine2(ck, fam):
    """the older interface of peak.register"""
    from peak import register
    T = mk_type()
    F = tokfam(fam)()

    def make(c):
        v = T.__new__(T)
        v.e = z3.Const('init', tok.V)
        return register.gen_register2(F, T, v)(), {'value': Tok(v.e)}

    def call(c, r, G):
        v = T.__new__(T)
        v.e = z3.Const('v!%d' % next(c.fresh_n), tok.V)
        en = tok.tokbit(c, 'en')
        out = r(v, en)
        return {'value': Tok(z3.If(en.e, v.e, G['value'].e))}, [('returns the previous value', out.e == G['value'].e)]
    Machine(ck, 'gen_register2 (%s)' % fam, make, {'call': call}).run()


def requests(ck, fam, n, attr=False):
    """n requests from an empty cache; equality of all the parts is symbolic"""
    F0 = fams()[fam]
    what = 'attribute register' if attr else 'register'
    label = '%s %s classes over %d requests' % (fam, what, n)
    import peak.family as pf

    class F(F0):
        def __init__(self, key):
            F0.__init__(self)
            self.key = key

        def __eq__(self, o):
            return self.key == o.key if isinstance(o, F) else NotImplemented

        def __hash__(self):
            return 7

        Bit = property(lambda s: TokBit)

    # only one part varies per scenario, plus one where all do: keeps the number of paths small
    def go(c, vary):
        reset(pf)
        reqs = []
        T0, i0, f0 = eq_type(c, 'T'), EqVal(c, 'i'), F(EqVal(c, 'f'))
        for j in range(n):
            T = eq_type(c, 'T') if 'T' in vary else T0
            i = EqVal(c, 'i') if 'i' in vary else i0
            f = F(EqVal(c, 'f')) if 'f' in vary else f0
            en = (j % 2 == 0) if 'e' in vary else True
            reqs.append((f, T, i, en))
        out = [r[0].gen_attr_register(r[1], r[2]) if attr else r[0].gen_register(r[1], r[2], r[3]) for r in reqs]
        for a in range(n):
            for b in range(a + 1, n):
                x, y = reqs[a], reqs[b]
                eq = z3.And(x[0].key.key == y[0].key.key, x[1].key == y[1].key, x[2].key == y[2].key, z3.BoolVal(x[3] == y[3] or attr))
                ck.prove('%s (varying %s): the same class exactly for equal requests' % (label, vary), c, eq == z3.BoolVal(out[a] is out[b]))
    for vary in (['T', 'i', 'f'] if attr else ['T', 'i', 'f', 'e', 'Te', 'ie', 'fe']) + (['Tif'] if n == 2 else []):
        try:
            for c, (k, r) in sym.explore(lambda c: go(c, vary), stats=ck.stats, max_paths=3000):
                if k == 'raise':
                    ck.obl(label + ': no exception', 'undecided', 'engine', repr(r)[:500])
        except Exception as e:
            ck.obl('%s (varying %s)' % (label, vary), 'undecided', 'engine', repr(e)[:500])
        finally:
            reset(pf)


def reset(pf):
    """empty the caches of a module: dicts, weak dicts and lru_caches of the module and its classes"""
    from vc.tok import clear_caches
    clear_caches(pf)


# ---- concrete cases --------------------------------------------------------

def types_of(fam):
    F = fams()[fam]()
    BV = F.BitVector
    d = {'bv1': (BV[1], 1), 'bv4': (BV[4], 5), 'bv9': (BV[9], 0), 'bit': (F.Bit, 1), 'sint': (F.Signed[4], 3), 'uint': (F.Unsigned[5], 7)}
    if fam == 'py':
        d['enum'] = (E3, E3.b)
        d['product'] = (Pair, None)
    else:
        d['aadt'] = (F.get_adt_t(Pair), None)
        d['aenum'] = (F.get_adt_t(E3), None)
    return F, d


def values(T, F, k):
    """the k-th value"""
    if T is E3:
        return list(E3.enumerate())[k % 3]
    if T is Pair:
        return Pair(BitVector[3](k % 8), Bit(k % 2))
    if hasattr(T, 'adt_t'):
        w = T.assembler_t(T.adt_t).width
        return T(F.BitVector[w]((k * 5 + 1) % (1 << w) % (3 if T.adt_t is E3 else 1 << w)))
    if issubclass(T, hwtypes.AbstractBit):
        return T(k % 2)
    return T((k * 3 + 1) % (1 << T.size))


def plain(v):
    from vc.smt import to_z3
    if isinstance(v, (hwtypes.SMTBit, hwtypes.SMTBitVector)):
        return str(z3.simplify(to_z3(v)))
    if hasattr(v, '_value_') and hasattr(type(v), 'assembler_t'):
        return plain(v._value_)
    return repr(v)


def sequence(fam, tname, has_enable, seq, twice=False):
    """seq: list of (value number, enable); against the list model"""
    F, d = types_of(fam)
    T, init = d[tname]
    if init is None:
        init = values(T, F, 2)
        if fam == 'smt' or T is Pair:
            class TT(object):
                pass
            init_arg = init
            try:
                hash(init)
            except TypeError:
                raise Skip
        if T is Pair:
            raise Skip
    R = F.gen_register(T, init, has_enable)
    assert F.gen_register(T, init, has_enable) is R, 'same request, other class'
    assert F.gen_register(T, init, not has_enable) is not R, 'other enable, same class'
    a, b = R(), R()
    for i, (k, en) in enumerate(seq):
        pass
    models = [T(init), T(init)]
    regs = [a, b]
    for i, (k, en) in enumerate(seq):
        w = i % 2 if twice else 0
        r = regs[w]
        v = values(T, F, k)
        assert plain(r.prev()) == plain(models[w]), 'prev before call %d' % i
        out = r(v, F.Bit(en)) if has_enable else r(v)
        assert plain(out) == plain(models[w]), 'call %d returned %s, not %s' % (i, plain(out), plain(models[w]))
        if en or not has_enable:
            models[w] = v
        for x, m in zip(regs, models):
            assert plain(x.prev()) == plain(m), 'after call %d a register holds %s, not %s' % (i, plain(x.prev()), plain(m))
    c = R()
    assert plain(c.prev()) == plain(T(init)), 'a new register starts at another value'


def smt_symbolic(width, has_enable, n):
    """n calls with symbolic values and enables; z3 decides equality with the model for all of them"""
    from vc.smt import to_z3, valid
    F = fams()['smt']()
    T = F.BitVector[width]
    r = F.gen_register(T, 1, has_enable)()
    m = z3.BitVecVal(1, width)
    for i in range(n):
        v, en = T(), F.Bit()
        out = r(v, en) if has_enable else r(v)
        st, model = valid(to_z3(out) == m)
        assert st == 'proved', 'call %d: %s' % (i, model)
        m = z3.If(to_z3(en), to_z3(v), m) if has_enable else to_z3(v)
    assert valid(to_z3(r.prev()) == m)[0] == 'proved'


def old(fam, seq, rom=False):
    from peak import register
    F = fams()[fam]()
    T = F.BitVector[4]
    r, s = [register.gen_register2(F, T, T(3))() for _ in range(2)]
    m = T(3)
    for k, en in seq:
        out = r(T(k), F.Bit(en))
        assert plain(out) == plain(m)
        if en:
            m = T(k)
    assert plain(s(T(0), F.Bit(0))) == plain(T(3))


def closure(fam, tname):
    """peak.register.gen_register through the family closure"""
    from peak import register
    F, d = types_of('py')
    T, init = d[tname]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fc = register.gen_register(T, init)
    G = fams()[fam]()
    R = fc(G)
    assert fc(G) is R and fc(fams()[fam]()) is R
    from hwtypes.adt_util import rebind_type
    Tf = rebind_type(T, G)
    r = R()
    assert plain(r.prev()) == plain(Tf(init))
    v = values(Tf, G, 3)
    r(v, G.Bit(0))
    assert plain(r.prev()) == plain(Tf(init))
    r(v, G.Bit(1))
    assert plain(r.prev()) == plain(v)


def request_pairs(fam):
    """requests that differ in one part never share"""
    F, d = types_of(fam)
    from peak import family as pf
    reqs = []
    for G in (F, fams()['py'](), fams()['pyx'](), fams()['smt']()):
        for T, init in ((G.BitVector[4], 0), (G.BitVector[4], 1), (G.BitVector[5], 0), (G.Unsigned[4], 0), (G.Bit, 0)):
            for en in (True, False):
                reqs.append((G, T, init, en))
    out = [G.gen_register(T, i, e) for G, T, i, e in reqs]
    for a in range(len(reqs)):
        for b in range(a + 1, len(reqs)):
            same = reqs[a] == reqs[b]
            assert (out[a] is out[b]) == same, (reqs[a], reqs[b])
    for (G, T, i, e), R in zip(reqs, out):
        r = R()
        assert plain(r.prev()) == plain(T(i)), (T, i)


def options(kind):
    """families that differ in their options"""
    from peak import family as pf
    import peak.assembler as a1
    import peak.assembler2 as a2
    F = fams()[kind]

    class Other(a1.Assembler):
        pass
    f, g = F(assembler=a1.Assembler), F(assembler=Other)
    assert f != g
    T = f.BitVector[4]
    assert f.gen_register(T, 0) is not g.gen_register(T, 0), 'families with different options share a register class'
    assert f.gen_attr_register(T, 0) is not g.gen_attr_register(T, 0), 'families with different options share an attribute register class'
    assert f.gen_register(T, 0) is F(assembler=a1.Assembler).gen_register(T, 0)


CASES = dict(sequence=sequence, smt_symbolic=smt_symbolic, old=old, closure=closure, request_pairs=request_pairs, options=options)


def run(ck):
    import gc
    gc.disable()      # no finaliser may compare symbolic keys in the middle of an execution
    ck.under_contract('peak.family._RegFamily.gen_register (both Register classes, as rewritten by each family)',
                      'peak.register.gen_register', 'peak.register.gen_register2', 'peak.family._RegFamily.gen_attr_register (class cache)')
    ck.trust('ast_tools passes produce the code that is executed here (their output, not their input, is proved)',
             'CPython dict: lookup by identity, hash and ==')
    ck.assume('initial values are hashable (symbolic SMT values are not)')
    for fam in ('py', 'pyx', 'smt'):
        for en in (True, False):
            machine(ck, fam, en)
    machine2(ck, 'py')
    for fam in ('py', 'pyx', 'smt'):
        requests(ck, fam, 2)
        requests(ck, fam, 2, attr=True)
    requests(ck, 'py', 3)
    requests(ck, 'py', 3, attr=True)
    ck.bound('concrete: all enable sequences of 5 calls on one register, 6 on two; 3-5 symbolic calls at widths 1-32')
    for fam in ('py', 'pyx', 'smt'):
        F, d = types_of(fam)
        for t in d:
            for en in (True, False):
                for s in itertools.product((0, 1), repeat=4 if fam != 'smt' or ck.thorough else 3):
                    ck.case('sequence', fam, t, en, [(i + 1, e) for i, e in enumerate(s)])
                    ck.case('sequence', fam, t, en, [(3 * i + 2, e) for i, e in enumerate(s)], True)
        ck.case('request_pairs', fam)
        for t in ('bv4', 'bit', 'sint'):
            ck.case('closure', fam, t)
    for k in ('pyx', 'smt'):
        ck.case('options', k)
    for w in (1, 8, 32):
        for en in (True, False):
            ck.case('smt_symbolic', w, en, 6 if ck.thorough else 4)
    for s in itertools.product((0, 1), repeat=4):
        ck.case('old', 'py', [(i + 1, e) for i, e in enumerate(s)])
