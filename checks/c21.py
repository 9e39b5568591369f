"""Forms of a type.

The real SMTForms is run in the symbolic family, with free variables and on a free value.  Its forms, variables, tags and
match conditions are compared with the forms of the type descriptor (vc/mapcorpus.py, dforms), z3 deciding every
statement about bits.  The step of an induction over types is proved separately: a constructor is run with the recursive
call replaced by its contract (any number of forms of each component, with any values, variables and choices)."""
import itertools
import z3
from vc import mapcorpus as mc, smt as vsmt
from vc.isa import *
from checks.aadtcommon import aadt
from checks.asmcommon import _B, observed_tags

LEVEL = 'proof'
GEN = 'assembler'
SPEC = Spec(observed_tags(GEN))


def vec(x):
    """bits of a value of the symbolic family"""
    x = getattr(x, '_value_', x)
    t = vsmt.to_z3(x)
    return z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(t) else t


def true(x):
    t = vsmt.to_z3(x)
    return t if z3.is_bool(t) else t == 1


def ext(v, lo, w):
    return z3.Extract(lo + w - 1, lo, v)


def places(d, ch, path=(), off=0):
    """leaves and tags of a form: [(path, offset, width, tag code or None)]; the tag of a sum has the path of the sum"""
    if d[0] in mc.LEAF:
        return [(path, off, width(d), None)]
    out = []
    if d[0] in ('prod', 'tup'):
        for m, x in subs(d):
            out += places(x, ch, path + (m,), off)
            off += width(x)
        return out
    i = next(i for i in range(len(d[1])) if mc.key(_B, d, i) == ch[path])
    tw = tag_width(d)
    return [(path, off, tw, SPEC.tags(d)[i])] + places(subs(d)[i][1], ch, path + (ch[path],), off + tw)


def all_sums(d, path=(), off=0):
    """[(path, offset of its tag, descriptor)] of every sum, under any choices"""
    if d[0] in mc.LEAF:
        return []
    out = []
    if d[0] in ('prod', 'tup'):
        for m, x in subs(d):
            out += all_sums(x, path + (m,), off)
            off += width(x)
        return out
    out.append((path, off, d))
    for i, (m, x) in enumerate(subs(d)):
        out += all_sums(x, path + (mc.key(_B, d, i),), off + tag_width(d))
    return out


def fresh_value(A, d):
    from hwtypes import SMTBitVector, SMTBit
    if d[0] in ('bit', 'bv', 's', 'u'):
        return A()
    return A(SMTBitVector[width(d)]())


def one(x):
    """is the value a variable of its own"""
    v = getattr(x, 'value', None)
    return v is not None and v.is_symbol()


def facts(d, given):
    """[(label, formula)]: what must hold of SMTForms on the type"""
    from peak.mapper.utils import SMTForms, Match, _TAG
    A = aadt(GEN, 'smt', _B(d))
    v = fresh_value(A, d) if given else None
    forms, varmap, value = SMTForms()(A, value=v)
    want = mc.dforms(_B, d, ())
    got = [f.path_dict for f in forms]
    yield 'forms are the combinations of choices', len(got) == len(want) and all(c in got for c, _ in want)
    leaves, sums = {}, {p: (o, e) for p, o, e in all_sums(d)}
    for ch, lv in want:
        for p, e in lv:
            leaves[p] = e
    keys = set(leaves) | {p + (_TAG,) for p in sums} | {p + (Match,) for p in sums}
    yield 'entries', set(varmap) == keys
    for p, (o, e) in sums.items():
        m = varmap[p + (Match,)]
        ks = [mc.key(_B, e, i) for i in range(len(e[1]))]
        yield 'variants of %s' % (p,), set(m) == set(ks) and len(m) == len(set(ks))
        tag = vec(varmap[p + (_TAG,)])
        yield 'tag of %s' % (p,), tag.size() == tag_width(e)
        for i, k in enumerate(ks):
            yield 'match of %s %s' % (p, k), true(m[k]) == (tag == SPEC.tags(e)[i])
        if given:
            yield 'tag of %s is that of the value' % (p,), tag == ext(vec(v), o, tag_width(e))
    own = [varmap[p] for p in leaves] + [varmap[p + (_TAG,)] for p in sums]
    for p, e in leaves.items():
        yield 'leaf %s' % (p,), vec(varmap[p]).size() == width(e)
    if not given:
        yield 'leaves and tags are free', all(one(x) for x in own) and len({x.value for x in own}) == len(own)
    A_w = width(d)
    for f in forms:
        ch = f.path_dict
        c = next((c for c, _ in want if c == ch), None)
        if c is None:
            continue
        lv = dict(next(l for c, l in want if c == ch))
        yield 'variables of %s' % (ch,), set(f.varmap) == set(lv) and all(varmap[p] is f.varmap[p] for p in lv)
        fv = vec(f.value)
        yield 'width of %s' % (ch,), fv.size() == A_w and vec(value).size() == A_w
        pl = places(d, ch)
        sel = z3.And([vec(varmap[p + (_TAG,)]) == t for p, o, w, t in pl if t is not None] or [z3.BoolVal(True)])
        for p, o, w, t in pl:
            if t is not None:
                yield 'choice %s of %s' % (p, ch), z3.Implies(sel, ext(fv, o, w) == t)
                yield 'choice %s of the value, %s' % (p, ch), z3.Implies(sel, ext(vec(value), o, w) == t)
                continue
            x = vec(varmap[p])
            yield 'leaf %s of %s' % (p, ch), ext(fv, o, w) == x
            yield 'leaf %s of the value, %s' % (p, ch), z3.Implies(sel, ext(vec(value), o, w) == x)
            if given:
                yield 'leaf %s is that of the given value, %s' % (p, ch), x == ext(vec(v), o, w)
        if given:
            yield 'value of %s is the given one' % (ch,), z3.And([ext(fv, o, w) == ext(vec(v), o, w) for _, o, w, _ in pl])


# ---- induction step
class Token:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Sub:
    """what the contract of the recursive call says of a component: any forms, variables and value"""

    def __init__(self, d, A, path, value, n):
        from peak.mapper.utils import Form
        self.A, self.path, self.value = A, path, value
        self.shared = {path + ('v%d' % j,): Token('%s.%d' % (path, j)) for j in range(2)}
        self.forms = []
        for j in range(n):
            self.forms.append(Form(value=value if value is not None else fresh_value(A, d), path_dict={path + ('q', k): Token('q') for k in range(j)},
                                   varmap={path + ('v%d' % k,): self.shared[path + ('v%d' % k,)] for k in range(1 + j % 2)}))
        self.result = value if value is not None else fresh_value(A, d)


def step_facts(d, counts, given):
    from peak.mapper.utils import SMTForms, Match, _TAG
    A = aadt(GEN, 'smt', _B(d))
    v = fresh_value(A, d) if given else None
    calls = []
    comps = subs(d)
    top = ('top', 0)
    keys = [mc.key(_B, d, i) if d[0] in ('sum', 'tu') else m for i, (m, _) in enumerate(comps)]

    class Step(SMTForms):
        def __call__(self, T, path=(), value=None):
            if path == top:
                return super().__call__(T, path=path, value=value)
            i = keys.index(path[len(top)])
            calls.append((i, Sub(comps[i][1], T, path, value, counts[i])))
            s = calls[-1][1]
            return list(s.forms), dict(s.shared), s.result
    forms, varmap, value = Step()(A, path=top, value=v)
    yield 'every component once', sorted(i for i, _ in calls) == list(range(len(comps)))
    by = dict(calls)
    if len(by) != len(comps):
        return
    variant = d[0] in ('sum', 'tu')
    tw = tag_width(d) if variant else 0
    off, place = tw, []
    for m, x in comps:
        place.append(off)
        if not variant:
            off += width(x)
    for i, (m, x) in enumerate(comps):
        yield 'path of %s' % m, by[i].path == top + (keys[i],)
        yield 'type of %s' % m, by[i].A is aadt(GEN, 'smt', _B(x))
        yield 'given value of %s' % m, (by[i].value is not None) == given and (not given or isinstance(by[i].value, by[i].A))
        if given:
            yield 'read of %s' % m, vec(by[i].value) == ext(vec(v), place[i], width(x))
    want = {}
    for i in range(len(comps)):
        want.update(by[i].shared)
    ks = set(want) | ({top + (_TAG,), top + (Match,)} if variant else set())
    yield 'entries', set(varmap) == ks and all(varmap[p] is want[p] for p in want)
    if variant:
        tag, match = varmap[top + (_TAG,)], varmap[top + (Match,)]
        t = vec(tag)
        yield 'tag', t.size() == tw and (given or one(tag))
        if given:
            yield 'tag of the value', t == ext(vec(v), 0, tw)
        yield 'variants', list(sorted(map(str, match))) == list(sorted(map(str, keys))) and all(k in match for k in keys)
        for i, k in enumerate(keys):
            yield 'match %s' % (k,), true(match[k]) == (t == SPEC.tags(d)[i])
            yield 'value of %s' % (k,), z3.Implies(t == SPEC.tags(d)[i], z3.And(ext(vec(value), 0, tw) == t, ext(vec(value), tw, width(comps[i][1])) == vec(by[i].result)))
        combos = [((i, f),) for i in range(len(comps)) for f in by[i].forms]
    else:
        for i, (m, x) in enumerate(comps):
            yield 'value of %s' % (m,), ext(vec(value), place[i], width(x)) == vec(by[i].result)
        combos = [tuple(enumerate(c)) for c in itertools.product(*[by[i].forms for i in range(len(comps))])]
    yield 'number of forms', len(forms) == len(combos)
    left = list(forms)
    for c in combos:
        pd, vm = ({top: keys[c[0][0]]} if variant else {}), {}
        for i, f in c:
            pd.update(f.path_dict)
            vm.update(f.varmap)
        f = next((f for f in left if f.path_dict == pd and f.varmap == vm), None)
        if f is None:
            yield 'form %s' % (c[0][0],), False
            continue
        left = [x for x in left if x is not f]
        fv = vec(f.value)
        yield 'width of a form', fv.size() == width(d)
        for i, g in c:
            yield 'form has component %d' % i, ext(fv, place[i], width(comps[i][1])) == vec(g.value)
        if variant:
            yield 'form has the tag', ext(fv, 0, tw) == vec(varmap[top + (_TAG,)])


def decide(ck, L, gen, case):
    """discharge the facts; a false one is replayed"""
    bad = None
    n = 0
    for label, f in gen:
        n += 1
        if isinstance(f, bool):
            ok = f
        else:
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(z3.Not(f))
            r = z3.unsat if z3.is_true(z3.simplify(f)) else s.check()
            if r == z3.unknown:
                ck.obl('%s: %s' % (L, label), 'undecided', 'z3')
                continue
            ok = r == z3.unsat
        ck.obl('%s: %s' % (L, label), 'proved' if ok else 'refuted', 'z3' if not isinstance(f, bool) else 'evaluation')
        if not ok and bad is None:
            bad = label
    if bad:
        ck.case(*case)


def hold(gen):
    for label, f in gen:
        if isinstance(f, bool):
            assert f, label
            continue
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(z3.Not(f))
        r = s.check()
        if r == z3.sat:
            raise AssertionError('%s: not for %s' % (label, s.model()))


def forms(d, given):
    """forms of a type, or of a value of it"""
    hold(facts(d, given))


def step(d, counts, given):
    hold(step_facts(d, counts, given))


def values_of(d, n):
    """forms taken of particular values: the parts read back are those of the value"""
    from peak.mapper.utils import SMTForms, Match, _TAG
    from hwtypes import SMTBitVector
    A = aadt(GEN, 'smt', _B(d))
    for v in values(d, n)[:n]:
        code = SPEC.enc(d, v)
        x = A(SMTBitVector[width(d)](code)) if d[0] not in ('bit',) else A(bool(code))
        fs, vm, whole = SMTForms()(A, value=x)

        def go(e, y, path):
            k = e[0]
            if k in mc.LEAF:
                c = z3.simplify(vec(vm[path]))
                assert c.as_long() == SPEC.enc(e, y), 'leaf %s of %s is %s' % (path, v, c)
                return {}
            if k in ('prod', 'tup'):
                out = {}
                for (m, z), w in zip(subs(e), y):
                    out.update(go(z, w, path + (m,)))
                return out
            i, w = y
            for j in range(len(e[1])):
                mt = z3.simplify(true(vm[path + (Match,)][mc.key(_B, e, j)]))
                assert z3.is_true(mt) == (i == j), 'match %d of %s in %s' % (j, path, v)
            return {path: mc.key(_B, e, i), **go(subs(e)[i][1], w, path + (mc.key(_B, e, i),))}
        ch = go(d, v, ())
        assert sum(f.path_dict == ch for f in fs) == 1, 'no form of %s' % (v,)
        for f in fs:
            if f.path_dict == ch:
                assert z3.simplify(vec(f.value)).as_long() == code, 'form of %s' % (v,)


CASES = dict(forms=forms, step=step, values_of=values_of)


def good(d):
    return min_width_ok(d) and len(mc.dforms(_B, d, ())) <= 64


PARTS = [('bit',), ('bv', 3), ('s', 2), ('enum', (('a', 1), ('b', 2))), ('prod', (('m', ('bv', 2)), ('n', ('bit',)))),
         ('tup', (('bv', 1), ('bv', 2))), ('sum', (('bv', 2), ('bit',))), ('tu', (('g', ('bv', 2)), ('h', ('bv', 2)))), ('u', 4)]
NAMES = ['p', 'zz', 'b', 'q']


def steps(big):
    """constructors with components of every kind, and numbers of forms of each"""
    out = []
    for n in range(1, 5):
        for rot in range(len(PARTS)):
            ds = [PARTS[(rot + 2 * j) % len(PARTS)] for j in range(n)]
            ns = [NAMES[(rot + j) % 4] for j in range(n)]
            for k in ('prod', 'tup', 'sum', 'tu'):
                d = (k, tuple(ds) if k in ('tup', 'sum') else tuple(zip(ns, ds)))
                if k in ('sum', 'tu') and n < 2 or not good(d) or not sum_ok(d):
                    continue
                for c in range(3 if big else 2):
                    out.append((d, tuple(1 + (rot + c + j * (c + 1)) % 3 for j in range(n))))
    return out


def run(ck):
    ck.under_contract('mapper.utils.SMTForms.__call__', 'mapper.utils.SMTForms.bv', 'mapper.utils.SMTForms.enum', 'mapper.utils.SMTForms.product',
                      'mapper.utils.SMTForms.tuple', 'mapper.utils.SMTForms.sum', 'mapper.utils.SMTForms.tagged_union', 'AssembledADTRecursor.__call__')
    ck.trust('hwtypes symbolic values, pysmt conversion to z3', 'tags of variants as observed (C04)',
             'induction principle: a contract proved for every constructor from the contract of its components holds for every finite type')
    big = ck.thorough
    ds = [d for d in catalogue(ck.seed if big else 1, 500 if big else 160, 40 if big else 28) if good(d)]
    ck.assume('components at least one bit wide; constructors of up to %d components in the step' % 4)
    tasks = []
    for j, d in enumerate(ds):
        for g in (False, True):
            tasks.append(('forms %s %s' % (d, g), lambda d=d, g=g: decide(ck, 'forms%s of %s' % (' of a value' if g else '', d), facts(d, g), ('forms', d, g))))
        tasks.append(('values %s' % (d,), lambda d=d: ck.case('values_of', d, 6)))
    for d, c in steps(big):
        for g in (False, True):
            tasks.append(('step %s %s %s' % (d, c, g), lambda d=d, c=c, g=g: decide(ck, 'step%s %s %s' % (' of a value' if g else '', d, c), step_facts(d, c, g), ('step', d, c, g))))
    ck.bound('%d types in full (all values); parts of particular values: 6 of each' % len(ds))
    ck.parallel(tasks)
