"""Writing the bindings of a rule and reading them back gives the same bindings.

serialize_bindings() and read_serialized_bindings() are run on rules whose constants have opaque values, whose widths are
every width up to a bound and whose paths are opaque; vectors and bits are known by their contract (a vector made from
the width and value of another equals it).  RewriteRule() keeping leaf constants is covered by rules over the designs of
vc/mapcorpus.py, with every constant of narrow leaves."""
import copy
import itertools
import json
import random
from vc import mapcorpus as mc, ruleproofs as rp
from vc.isa import width, enum_codes
from vc.mapproofs import const_int
from checks import mapcommon as cm

LEVEL = 'proof'


# ---- opaque constants
class Token:
    """value of a constant: only passed on"""

    def __init__(self, name):
        self.name = name


class FakeVectors(type):
    def __getitem__(cls, w):
        if not isinstance(w, int) or isinstance(w, bool):
            raise NotImplementedError('width %r' % (w,))
        return lambda v=None: FakeVector(w, v)


class FakeVector(metaclass=FakeVectors):
    def __init__(self, w, v):
        self.size, self._v = w, v.value if isinstance(v, FakeVector) and v.size == w else v

    value = property(lambda self: self._v)
    _value = value

    num_bits = property(lambda self: self.size)

    def as_uint(self):
        return self._v

    def __len__(self):
        return self.size


class FakeBit:
    def __init__(self, v):
        self._v = v._v if isinstance(v, FakeBit) else v

    _value = property(lambda self: self._v)
    value = _value


class Fields:
    """a path that is only copied"""


def abstract(kinds, outs, w, extra):
    """(rule, expected bindings) of entries by kind, constants opaque"""
    from peak.mapper import mapper as M

    class Rule(M.RewriteRule):
        def __init__(self, ib, ob, ir, arch):
            self.ibinding, self.obinding, self.ir_fc, self.arch_fc = ib, ob, ir, arch
    U = M.Unbound
    ib = []
    for i, k in enumerate(kinds):
        p = ('x%d' % i, i, Fields)[:1 + (i + extra) % 3]
        if k == 'v':
            ib.append((FakeVector(w + i, Token(i)), p))
        elif k == 'b':
            ib.append((FakeBit(Token(i)), p))
        elif k == 'u':
            ib.append((U, p))
        else:
            ib.append((('y%d' % i, 0, 'unbound')[:1 + i % 3] if k == 'p' else ('unbound',), p))
    ob = [(U if k == 'u' else ('unbound',) if k == 'n' else ('o%d' % j, j)[:1 + j % 2], (j,) if extra % 2 else ('q%d' % j, 'r')) for j, k in enumerate(outs)]
    return Rule, ib, ob, U


def known(ib):
    return [(('v', x.size, x.value) if isinstance(x, FakeVector) else ('b', x._v) if isinstance(x, FakeBit) else x, p) for x, p in ib]


def roundtrip(kinds, outs, w, extra):
    """read(serialize(rule)) has the entries of the rule, for opaque constants"""
    from peak.mapper import mapper as M
    Rule, ib, ob, U = abstract(kinds, outs, w, extra)
    ir, arch = object(), object()
    r = Rule(list(ib), list(ob), ir, arch)
    saved = M.BitVector, M.Bit, M.RewriteRule
    M.BitVector, M.Bit, M.RewriteRule = FakeVector, FakeBit, Rule
    try:
        s = r.serialize_bindings()
        kept = r.ibinding == ib and r.obinding == ob
        q = M.read_serialized_bindings(s, ir, arch)
    finally:
        M.BitVector, M.Bit, M.RewriteRule = saved
    yield 'the rule is not changed', kept and r.ir_fc is ir and r.arch_fc is arch
    yield 'the rule read has the given IR and architecture', q.ir_fc is ir and q.arch_fc is arch
    yield 'same input binding', list(map(tuple, known(q.ibinding))) == known(ib) and all(type(p) is tuple and (type(x) is tuple or not isinstance(x, (list, tuple))) for x, p in q.ibinding)
    yield 'same output binding', [tuple(e) for e in q.obinding] == ob and all(type(p) is tuple for x, p in q.obinding)


# ---- real rules
def plain(b):
    return [(('const', x.size if hasattr(x, 'size') else 'bit', const_int(x)) if not isinstance(x, (tuple, type)) else x, p) for x, p in b]


def jsonable(b):
    return all(isinstance(e, (str, int)) for x, p in b for e in p + (x if isinstance(x, tuple) else ()))


def same(r, ir, arch):
    """the rule comes back through its serialised form and, where paths are names and positions, through JSON"""
    from peak.mapper import RewriteRule, read_serialized_bindings
    from peak.mapper.utils import Unbound
    ib, ob = plain(r.ibinding), list(map(tuple, r.obinding))
    s = r.serialize_bindings()
    assert (plain(r.ibinding), list(map(tuple, r.obinding))) == (ib, ob), 'serialising changes the rule'
    ways = [('directly', s), ('a copy', copy.deepcopy(s))]
    if jsonable(r.ibinding) and jsonable([e for e in r.obinding if e[0] is not Unbound]):
        ways.append(('JSON', json.loads(json.dumps(s))))
    for how, d in ways:
        q = read_serialized_bindings(d, ir, arch)
        assert isinstance(q, RewriteRule) and q.ir_fc is ir and q.arch_fc is arch
        assert plain(q.ibinding) == ib, '%s: input binding %r, expected %r' % (how, plain(q.ibinding), ib)
        assert list(map(tuple, q.obinding)) == ob, '%s: output binding %r, expected %r' % (how, q.obinding, ob)
        assert all(isinstance(p, tuple) for x, p in list(q.ibinding) + list(q.obinding)), how
        t = q.serialize_bindings()
        assert json.dumps(t, default=repr) == json.dumps(s, default=repr), '%s: serialised again' % how
    return ways


def corpus(spec, n, seed, j):
    p = mc.named_pair(spec)
    fi, b, ob = rp.choices(p, n, seed)[j]
    same(rp.rule(p, fi, b, ob, j), p.ir.fc, p.arch.fc)


def constants(spec, fi, path, mode):
    """each constant of one leaf; the others unbound or zero"""
    from peak.mapper import RewriteRule
    from peak.mapper.utils import Unbound
    p = mc.named_pair(spec)
    lv = dict(p.arch.forms(None)[fi][1])
    d = lv[path]
    w = width(d)
    codes = enum_codes(d) if d[0] == 'enum' else range(1 << w) if w <= 5 else sorted({0, 1, (1 << w) - 1, 1 << (w - 1)} | {random.Random(w).randrange(1 << w) for _ in range(12)})
    for c in codes:
        v = rp.constant(d, c)
        if mode == 'int' and d[0] != 'enum':
            v = bool(c) if d[0] == 'bit' else c
        elif mode == 'typed' and d[0] != 'bit':
            T = p.arch.B(d)
            v = next(m for m in T.enumerate() if mc_code(m, d) == c) if d[0] == 'enum' else T(c)
        ib = [(v if q == path else rp.constant(e, (enum_codes(e)[0] if e[0] == 'enum' else 0)) if p.arch.const(q) else Unbound, q) for q, e in lv.items()]
        r = RewriteRule(ib, [], p.ir.fc, p.arch.fc)
        got = dict((q, x) for x, q in r.ibinding)[path]
        assert const_int(got) == c and (w == 1 and d[0] == 'bit' or got.size == w)
        same(r, p.ir.fc, p.arch.fc)


def mc_code(m, d):
    from hwtypes import BitVector
    from peak.assembler import Assembler
    return int(Assembler(type(m)).assemble(m, bv_type=BitVector))


def wide(w, c, how):
    """constants of any width"""
    from peak.mapper import RewriteRule
    arch, ir = designs(w)
    from hwtypes import BitVector, Bit, SIntVector, UIntVector
    v = {'bv': BitVector, 's': SIntVector, 'u': UIntVector}[how][w](c % (1 << w))
    r = RewriteRule([(v, ('a', 0)), (Bit(c % 2), ('a', 1)), (('x',), ('b',))], [((0,), ('o', ))], ir, arch)
    assert const_int(r.ibinding[0][0]) == c % (1 << w)
    same(r, ir, arch)


_designs = {}


def designs(w):
    if w not in _designs:
        from vc.srcmod import run_source
        _designs[w] = run_source("""from peak import Peak, family_closure, name_outputs
from hwtypes import BitVector, Bit
from hwtypes.adt import Tuple
@family_closure
def arch(family):
    W = family.BitVector[%d]
    A = Tuple[BitVector[%d], Bit]
    @family.assemble(locals(), globals())
    class Arch(Peak):
        @name_outputs(o=W)
        def __call__(self, a: A, b: W) -> W:
            return b
    return Arch

@family_closure
def ir(family):
    W = family.BitVector[%d]
    @family.assemble(locals(), globals())
    class IR(Peak):
        def __call__(self, x: W) -> W:
            return x
    return IR
""" % (w, w, w), {})
    return _designs[w]['arch'], _designs[w]['ir']


def mapped(a, i, constraints, simple, ivar):
    """rules found by the mapper with the real solver"""
    from vc.harness import Skip
    p = mc.pair(a, i, constraints)
    r = cm.solve(a, i, constraints, simple, ivar, False)
    if r is None:
        raise Skip
    same(r, p.ir.fc, p.arch.fc)


def opaque(kinds, outs, w, extra):
    """the obligations on opaque constants, on a particular rule with real ones"""
    import random
    from hwtypes import BitVector, Bit
    from peak.mapper import mapper as M
    Rule, ib, ob, U = abstract(kinds, outs, w, extra)
    rnd = random.Random(repr((kinds, w)))
    for _ in range(4):
        real = [(BitVector[x.size](rnd.randrange(1 << x.size)) if isinstance(x, FakeVector) else Bit(rnd.randrange(2)) if isinstance(x, FakeBit) else x, p) for x, p in ib]
        saved = M.RewriteRule
        M.RewriteRule = Rule
        try:
            q = M.read_serialized_bindings(Rule(list(real), list(ob), 0, 1).serialize_bindings(), 0, 1)
        finally:
            M.RewriteRule = saved
        assert plain(q.ibinding) == plain(real), (plain(q.ibinding), plain(real))
        assert [tuple(e) for e in q.obinding] == ob


CASES = dict(corpus=corpus, constants=constants, wide=wide, mapped=mapped, opaque=opaque)


def lemmas(ck, n, ws):
    for m in range(n + 1):
        for kinds in itertools.product('vbupn', repeat=m):
            for outs in itertools.product('upn', repeat=2) if m < n else ('', 'u', 'p'):
                for w in ws if m == 1 and not outs[1:] else ws[:1] + (ws[7:9] if m < 3 else []):
                    for extra in range(2):
                        L = 'binding of %s and %s, width %d, paths %d' % (''.join(kinds) or '-', ''.join(outs) or '-', w, extra)
                        args = (''.join(kinds), ''.join(outs), w, extra)
                        try:
                            obls = list(roundtrip(*args))
                        except Exception as e:
                            ck.obl(L, 'undecided', 'engine', repr(e))
                            ck.case('opaque', *args)
                            continue
                        for t, ok in obls:
                            ck.obl('%s: %s' % (L, t), 'proved' if ok else 'refuted', 'symbolic execution', '')
                        if not all(ok for _, ok in obls):
                            ck.case('opaque', *args)


def rules(ck, spec, n, seed):
    p = mc.named_pair(spec)
    for j in range(len(rp.choices(p, n, seed))):
        ck.case('corpus', spec, n, seed, j)
    for fi, (ch, lv) in enumerate(p.arch.forms(None)):
        for path, d in lv:
            for mode in ('bv', 'int', 'typed'):
                ck.case('constants', spec, fi, path, mode)


def run(ck):
    ck.under_contract('mapper.RewriteRule.serialize_bindings', 'mapper.read_serialized_bindings', 'mapper.RewriteRule.__init__')
    ck.trust('hwtypes vectors and bits (a vector made of the width and value of another equals it), json')
    big = ck.tier == 'thorough'
    n, g, seed = (40, 250, ck.seed) if big else (10, 60, 1)
    ws = list(range(1, 257 if big else 130))
    tasks = [('any constants', lambda: lemmas(ck, 4 if big else 3, ws)),
             ('wide', lambda: [ck.case('wide', w, c, how) for w in (ws if big else ws[:70] + [128]) for c in (0, 1, 5, (1 << w) - 1, (1 << w) // 3) for how in ('bv', 's', 'u')])]
    for boxes, names in ((False, mc.pair_names()), (True, mc.box_names())):
        for spec in mc.specs(names) + mc.specs(mc.generated(g, seed, boxes), g, seed, boxes):
            tasks.append(('%s' % (spec,), lambda spec=spec: rules(ck, spec, n, seed)))
        for a, i, c in names:
            tasks.append(('mapped %s %s' % (a, i), lambda a=a, i=i, c=c, boxes=boxes: ck.case('mapped', a, i, c, boxes, 'Binary')))
    ck.bound('opaque values, widths 1-%d, entries of 5 kinds in bindings of up to %d input and 2 output entries' % (ws[-1], 4 if big else 3))
    ck.bound('rules over the interfaces of vc/mapcorpus.py (%d generated): %d drawn for each, and every constant of every leaf of up to 5 bits' % (2 * g, n))
    ck.parallel(tasks)
