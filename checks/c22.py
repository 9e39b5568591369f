"""Inputs built from a rule carry each bound value to its place.

build_inputs() is run in the symbolic family on free values of every leaf; z3 proves every leaf, tag and field of the
inputs it returns equal to what the rule binds there.  SimplifyBinding is run on bindings whose constants are free
symbolic values and whose instruction paths are opaque; the result is compared leaf by leaf with an independent
definition of grouping."""
import itertools
import random
import z3
from vc import mapcorpus as mc, mapproofs as mp, ruleproofs as rp, smt as vsmt
from vc.isa import width, subs, tag_width, enum_codes
from checks import mapcommon as cm

LEVEL = 'translation_validation'


def parts(B, S, d, path, choices, off=0):
    """[(path, offset, descriptor | tag value)] of a value of a form"""
    if d[0] in mc.LEAF:
        return [(path, off, d)]
    out = []
    if d[0] in ('prod', 'tup'):
        for m, x in subs(d):
            out += parts(B, S, x, path + (m,), choices, off)
            off += width(x)
        return out
    k = choices[path]
    i = next(i for i in range(len(d[1])) if mc.key(B, d, i) == k)
    tw = tag_width(d)
    return [(path + ('tag',), off, ('tag', tw, S.tags(d)[i]))] + parts(B, S, subs(d)[i][1], path + (k,), choices, off + tw)


def vector(v):
    """value of any family -> z3 vector"""
    v = getattr(v, '_value_', v)
    from hwtypes import Bit, BitVector
    if isinstance(v, (Bit, BitVector)):
        n = 1 if isinstance(v, Bit) else v.size
        return z3.BitVecVal(mp.const_int(v), n)
    return mp.bv(vsmt.to_z3(v))


def expected(p, D, fi, leaf):
    """{field: [(path, offset, width, vector)]}"""
    ch, _ = D.forms(None)[fi]
    out = {}
    for n, _, d in D.inputs:
        out[n] = [(q, o, x[1] if x[0] == 'tag' else width(x), z3.BitVecVal(x[2], x[1]) if x[0] == 'tag' and x[1] else None if x[0] == 'tag' else leaf(q, x))
                  for q, o, x in parts(D.B, mp.SPEC, d, (n,), ch)]
    return out


def compare(D, got, want):
    """[(path, formula)] that holds if the built inputs are the expected ones"""
    yield 'fields', z3.BoolVal(list(got) == [n for n, _, _ in D.inputs])
    for n, _, d in D.inputs:
        v = vector(got[n])
        yield (n,), z3.BoolVal(v.size() == width(d))
        for q, o, w, x in want[n]:
            if w:
                yield q, z3.Extract(o + w - 1, o, v) == x


def built(p, fi, b, ob, family, leaf, seed):
    """build_inputs of the rule on leaf(side, path, descriptor) -> (value for the code, vector)"""
    r = rp.rule(p, fi, b, ob, seed)
    at = dict(p.arch.forms(None)[fi][1])
    it = dict(p.ir.forms(None)[0][1])
    iv = {q: leaf('I', q, d) for q, d in it.items()}
    av = {q: leaf('A', q, at[q]) for q, x in b.items() if x is None}
    ii, ai = r.build_inputs({q: v for q, (v, _) in iv.items()}, {q: v for q, (v, _) in av.items()}, family)

    def arch(q, d):
        x = b[q]
        return z3.BitVecVal(x[1], width(d)) if isinstance(x, tuple) and x[0] == 'const' else iv[x][1] if x is not None else av[q][1]
    return (list(compare(p.ir, ii, expected(p, p.ir, 0, lambda q, d: iv[q][1])))
            + list(compare(p.arch, ai, expected(p, p.arch, fi, arch))))


def smt_leaf(side, q, d):
    from peak import family as F
    fam = F.SMTFamily()
    v = fam.Bit() if d[0] == 'bit' else fam.BitVector[width(d)]()
    return v, mp.bv(vsmt.to_z3(v))


def proofs(ck, spec, n, seed):
    from peak import family as F
    p = mc.named_pair(spec)
    for j, (fi, b, ob) in enumerate(rp.choices(p, n, seed)):
        L = '%s: rule %d' % (p.name, j)
        try:
            got = built(p, fi, b, ob, F.SMTFamily(), smt_leaf, j)
        except Exception as e:
            ck.obl(L + ': inputs are built', 'undecided', 'engine', repr(e))
            ck.case('inputs', spec, n, seed, j)
            continue
        c = vsmt.ZCtx(ck, timeout_ms=10000, assumptions=[z3.Not(z3.And([f for _, f in got]))])
        r = c.check()
        ck.obl(L + ': every part of the inputs is what the rule binds there', 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', 'z3',
               repr([q for q, f in got if not z3.is_true(z3.simplify(f))])[:400])
        if r == z3.sat:
            ck.case('inputs', spec, n, seed, j)
        ck.case('inputs', spec, n, seed, j)
        ck.case('refused', spec, n, seed, j)


def inputs(spec, n, seed, j):
    """the same with values, in both families"""
    from peak import family as F
    from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
    p = mc.named_pair(spec)
    fi, b, ob = rp.choices(p, n, seed)[j]
    rnd = random.Random(j)
    for order in range(3):
        def leaf(side, q, d, smt=False):
            x = rnd.choice(enum_codes(d)) if d[0] == 'enum' else rnd.randrange(1 << width(d))
            T = (SMTBit if d[0] == 'bit' else SMTBitVector[width(d)]) if smt else (Bit if d[0] == 'bit' else BitVector[width(d)])
            return T(x), z3.BitVecVal(x, width(d))
        for fam, lf in ((F.PyFamily(), leaf), (F.SMTFamily(), lambda s, q, d: leaf(s, q, d, True))):
            for q, f in built(p, fi, b, ob, fam, lf, order):
                assert z3.is_true(z3.simplify(f)), 'part %r of the inputs: %s' % (q, z3.simplify(f))


def refused(spec, n, seed, j):
    """wrong sets of paths raise ValueError"""
    from peak import family as F
    p = mc.named_pair(spec)
    fi, b, ob = rp.choices(p, n, seed)[j]
    r = rp.rule(p, fi, b, ob, 0)
    at = dict(p.arch.forms(None)[fi][1])
    it = dict(p.ir.forms(None)[0][1])
    fam = F.SMTFamily()
    iv = {q: smt_leaf('I', q, d)[0] for q, d in it.items()}
    av = {q: smt_leaf('A', q, at[q])[0] for q, x in b.items() if x is None}
    some = next(iter(iv.values()))
    wrong = [({k: v for k, v in iv.items() if k != q}, av) for q in iv] + [(iv, {k: v for k, v in av.items() if k != q}) for q in av]
    wrong += [({**iv, ('no such',): some}, av), (iv, {**av, ('no such',): some}), ({**iv, ('a', 'b', 'c'): some}, av)]
    wrong += [(iv, {**av, q: some}) for q in b if q not in av]
    wrong += [({**{k: v for k, v in iv.items() if k != q}, ('no such',): some}, av) for q in iv]
    for i, a in wrong:
        try:
            r.build_inputs(i, a, fam)
        except ValueError:
            continue
        raise AssertionError('accepted: %r %r' % (sorted(map(str, i)), sorted(map(str, a))))


# ---------------------------------------------------------------- SimplifyBinding
def merged(B, S, d, path, choices, at):
    """independent definition: {path: entry}; entry = ('is', vector) or the unchanged object"""
    if d[0] in mc.LEAF:
        x = at[path]
        return {path: x}
    if d[0] in ('prod', 'tup'):
        ms = [(path + (m,), x) for m, x in subs(d)]
    else:
        k = choices[path]
        i = next(i for i in range(len(d[1])) if mc.key(B, d, i) == k)
        ms = [(path + (k,), subs(d)[i][1])]
    rs = [(q, x, merged(B, S, x, q, choices, at)) for q, x in ms]
    if all(list(r) == [q] and isinstance(r[q], Const) for q, x, r in rs):
        return {path: Const(sum([r[q].leaves for q, x, r in rs], []))}
    out = {}
    for q, x, r in rs:
        out.update(r)
    return out


class Const:
    def __init__(self, leaves):
        self.leaves = leaves        # [(path, vector)]


def simplified(spec, fi, mask, seed, py):
    """obligations [(what, formula)] of SimplifyBinding on the inputs of a design"""
    from peak import family as F
    from peak.mapper.utils import Unbound, SimplifyBinding
    from peak.mapper.mapper import _input_aadt_t
    from hwtypes import Bit, BitVector
    p = mc.named_pair(spec)
    D = p.arch
    ch, lv = D.forms(None)[fi]
    fam = F.PyFamily() if py else F.SMTFamily()
    rnd = random.Random('%s %s' % (mask, seed))
    at, b = {}, []
    for k, (q, d) in enumerate(lv):
        m = mask[k % len(mask)]
        if m == 'c':
            if py:
                x = rnd.choice(enum_codes(d)) if d[0] == 'enum' else rnd.randrange(1 << width(d))
                v, z = (Bit(x) if d[0] == 'bit' else BitVector[width(d)](x)), z3.BitVecVal(x, width(d))
            else:
                v, z = smt_leaf('A', q, d)
            at[q] = Const([(q, z)])
        else:
            at[q] = v = ('ir', k) if m == 'p' else Unbound
        b.append((v, q))
    rnd.shuffle(b)
    given = list(b)
    t = _input_aadt_t(D.fc, fam)
    res = SimplifyBinding()(t, b)
    out = [('argument unchanged', z3.BoolVal(len(b) == len(given) and all(x is y for x, y in zip(b, given))))]
    want = {}
    top = [merged(D.B, mp.SPEC, d, (n,), ch, at) for n, _, d in D.inputs]
    if all(list(r) == [(n,)] and isinstance(r[(n,)], Const) for r, (n, _, _) in zip(top, D.inputs)):
        want[()] = Const(sum([r[(n,)].leaves for r, (n, _, _) in zip(top, D.inputs)], []))
    else:
        for r in top:
            want.update(r)
    paths = [q for _, q in res]
    out.append(('entries', z3.BoolVal(sorted(map(str, paths)) == sorted(map(str, want)) and len(set(map(str, paths))) == len(paths))))
    for v, q in res:
        w = want.get(q)
        if w is None and q not in want:
            continue
        if isinstance(w, Const):
            if isinstance(v, tuple) or v is Unbound:
                out.append((q, z3.BoolVal(False)))
                continue
            vec = vector(v)
            pos = positions(D, ch, q)
            out.append((q, z3.BoolVal(vec.size() == pos['width'])))
            vals = dict(w.leaves)
            for path, o, x in pos['parts']:
                if x[0] == 'tag':
                    if x[1]:
                        out.append((path, z3.Extract(o + x[1] - 1, o, vec) == x[2]))
                else:
                    out.append((path, z3.Extract(o + width(x) - 1, o, vec) == vals[path]))
        else:
            out.append((q, z3.BoolVal(v is w or v == w)))
    return out


def positions(D, ch, q):
    """parts of the value at path q, offsets relative to it"""
    if q == ():
        out, off = [], 0
        for n, _, d in D.inputs:
            out += parts(D.B, mp.SPEC, d, (n,), ch, off)
            off += width(d)
        return dict(width=off, parts=out)
    d = mp.desc_at(D, q)
    return dict(width=width(d), parts=parts(D.B, mp.SPEC, d, q, ch))


def grouping(spec, fi, mask, seed, py):
    """SimplifyBinding with values"""
    for q, f in simplified(spec, fi, mask, seed, py):
        f = z3.simplify(f)
        if not z3.is_true(f):
            s = z3.Solver()
            s.add(z3.Not(f))
            assert s.check() == z3.unsat, '%s: %s' % (q, f)


_inside = {}


def inside(shape):
    """(architecture with a sum of types of the family, instruction): the paths of its rules have Python types"""
    from peak import Peak, family_closure, Const
    from vc.srcmod import run_source
    if not _inside:
        src = """from peak import Peak, family_closure, Const
from hwtypes.adt import Sum, Product, Tuple, TaggedUnion
from hwtypes import BitVector, Bit
from hwtypes.modifiers import strip_modifiers


def mk(shape):
    @family_closure
    def arch(family):
        W, B = family.BitVector[4], family.Bit
        P = Product.from_fields('ZP', dict(s=W, t=B))  # the same place in the order of both families' variants
        S = {'wb': lambda: Sum[W, B], 'wp': lambda: Sum[W, P], 'tup': lambda: Tuple[Sum[W, B], W], 'bw': lambda: Sum[B, family.BitVector[2], family.BitVector[4]],
             'prod': lambda: Product.from_fields('Q', dict(u=Sum[B, W], v=B)), 'tu': lambda: TaggedUnion.from_fields('U', dict(a=Sum[W, B], b=W))}[shape]()
        @family.assemble(locals(), globals())
        class Arch(Peak):
            def __call__(self, c: Const(family.BitVector[1]), m: S, x: W) -> W:
                return x
        return Arch

    @family_closure
    def ir(family):
        W = family.BitVector[4]
        @family.assemble(locals(), globals())
        class IR(Peak):
            def __call__(self, i: W) -> W:
                return i
        return IR
    return arch, ir
"""
        _inside['mk'] = run_source(src, {})['mk']
    if shape not in _inside:
        _inside[shape] = _inside['mk'](shape)
    return _inside[shape]


def leaves(T, path=()):
    """[(path, type, choices)] by form: [[(path, leaf type)]]"""
    from hwtypes.adt import Sum, Product, Tuple, TaggedUnion
    if not hasattr(T, 'field_dict') or not issubclass(T, (Sum, Product, Tuple, TaggedUnion)):
        return [[(path, T)]]
    if issubclass(T, TaggedUnion):
        return [f for k, x in T.field_dict.items() for f in leaves(x, path + (k,))]
    if issubclass(T, Sum):
        return [f for x in sorted(T.fields, key=str) for f in leaves(x, path + (x,))]
    return [sum(fs, []) for fs in itertools.product(*[leaves(x, path + (k,)) for k, x in T.field_dict.items()])]


def value_of(T, vals, path=()):
    """value of type T with the given leaves {path: value}"""
    from hwtypes.adt import Sum, Product, Tuple, TaggedUnion
    if path in vals:
        return vals[path]
    n = len(path)
    if issubclass(T, (Sum, TaggedUnion)):
        k = next(p[n] for p in vals if p[:n] == path)
        return T(**{k: value_of(T.field_dict[k], vals, path + (k,))}) if issubclass(T, TaggedUnion) else T(value_of(k, vals, path + (k,)))
    if issubclass(T, Product):
        return T(**{k: value_of(x, vals, path + (k,)) for k, x in T.field_dict.items()})
    return T(*[value_of(x, vals, path + (k,)) for k, x in T.field_dict.items()])


def family_types(shape, form, mask):
    """rules over sums of types of the family, in both families"""
    from peak import family as F
    from peak.assembler import Assembler
    from peak.mapper import RewriteRule
    from peak.mapper.utils import Unbound
    from hwtypes import BitVector, Bit
    from hwtypes.modifiers import strip_modifiers
    from vc.harness import Skip
    arch, ir = inside(shape)
    T = strip_modifiers(arch.Py.input_t.field_dict['m'])
    fs = leaves(T)
    if form >= len(fs):
        raise Skip
    rnd = random.Random('%s %s %s' % (shape, form, mask))
    ib, vals, given = [(BitVector[1](0), ('c',)), (('i',), ('x',))], {}, {}
    iv = BitVector[4](rnd.randrange(16))
    for j, (p, t) in enumerate(fs[form]):
        v = t(rnd.randrange(2 if t is Bit else 1 << t.size))
        k = mask[j % len(mask)]
        if k == 'p' and t is BitVector[4]:
            ib.append((('i',), ('m',) + p))
            v = iv
        elif k == 'u':
            ib.append((Unbound, ('m',) + p))
            given[('m',) + p] = v
        else:
            ib.append((v, ('m',) + p))
        vals[p] = v
    want = int(Assembler(T).assemble(value_of(T, vals)))
    for o in range(2):
        rnd.shuffle(ib)
        r = RewriteRule(ib, [((0,), (0,))], ir, arch)
        for fam in (F.PyFamily(), F.SMTFamily()):
            def to(v):
                return fam.Bit(bool(v)) if isinstance(v, Bit) else fam.BitVector[v.size](int(v))
            ii, ai = r.build_inputs({('i',): to(iv)}, {q: to(v) for q, v in given.items()}, fam)
            assert z3.simplify(vector(ii['i'])).as_long() == int(iv) and z3.simplify(vector(ai['x'])).as_long() == int(iv)
            got = z3.simplify(vector(ai['m'])).as_long()
            assert got == want, 'built %d, expected %d in %r' % (got, want, fam)
        assert r.verify() is None


CASES = dict(family_types=family_types, inputs=inputs, refused=refused, grouping=grouping)


def masks(n, big, rnd):
    """which leaves are constants (c), instruction paths (p) or unbound (u)"""
    if 3 ** n <= (243 if big else 27):
        return [''.join(m) for m in itertools.product('cpu', repeat=n)]
    out = {'c' * n}
    for i in range(n):
        out |= {'c' * i + x + 'c' * (n - i - 1) for x in 'pu'}
    while len(out) < (120 if big else 24):
        out.add(''.join(rnd.choice('cccpu') for _ in range(n)))
    return sorted(out)


def groups(ck, spec, big):
    p = mc.named_pair(spec)
    rnd = random.Random(str(spec))
    for fi, (ch, lv) in enumerate(p.arch.forms(None)):
        for mask in masks(len(lv), big, rnd):
            L = '%s: form %d, binding %s' % (p.name, fi, mask)
            try:
                got = simplified(spec, fi, mask, 0, False)
            except Exception as e:
                ck.obl(L + ' is simplified', 'undecided', 'engine', repr(e))
                ck.case('grouping', spec, fi, mask, 0, False)
                continue
            c = vsmt.ZCtx(ck, timeout_ms=10000, assumptions=[z3.Not(z3.And([f for _, f in got]))])
            r = c.check()
            ck.obl(L + ': constants merged, nothing else changed', 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', 'z3',
                   repr([q for q, f in got if not z3.is_true(z3.simplify(f))])[:400])
            if r == z3.sat:
                ck.case('grouping', spec, fi, mask, 0, False)
            ck.case('grouping', spec, fi, mask, 1, True)


def run(ck):
    ck.under_contract('mapper.RewriteRule.build_inputs', 'mapper.RewriteRule.get_input_paths', 'mapper.RewriteRule.__init__', 'utils.rebind_binding',
                      'utils.rebind_value', 'utils.SimplifyBinding', 'utils.aadt_product_to_dict', 'mapper._input_aadt_t')
    ck.trust('hwtypes vectors of both families, pysmt (conversion to z3)')
    big = ck.tier == 'thorough'
    n, g, seed = (12, 250, ck.seed) if big else (4, 60, 1)
    tasks, shapes = [], set()
    for boxes, names in ((False, mc.pair_names()), (True, mc.box_names())):
        for spec in mc.specs(names) + mc.specs(mc.generated(g, seed, boxes), g, seed, boxes):
            tasks.append(('%s' % (spec,), lambda spec=spec: proofs(ck, spec, n, seed)))
            shape = tuple(mc.named_pair(spec).arch.inputs) if spec[0] == 'any' else spec
            if shape not in shapes:
                shapes.add(shape)
                tasks.append(('group %s' % (spec,), lambda spec=spec: groups(ck, spec, big)))
    ck.bound('interfaces: %d written by hand, %d generated, %d rules of each; all values of all leaves' % (len(mc.specs(mc.pair_names())) + len(mc.specs(mc.box_names())), 2 * g, n))
    ck.bound('bindings: every assignment of constant, path and unbound for up to 3 (thorough 5) leaves, sampled beyond; shuffled order')
    for shape in ('wb', 'wp', 'tup', 'bw', 'prod', 'tu'):
        tasks.append(('sums of family types: ' + shape, lambda shape=shape: [ck.case('family_types', shape, f, m) for f in range(4) for m in ('c', 'p', 'u', 'cu', 'uc')]))
    ck.parallel(tasks)
