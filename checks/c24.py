"""Index variables and formula constructors mean what they say.

Index variables: for every number of entries of a range the real class is instantiated over symbolic
vectors; z3 proves that each index matches exactly one value (its code), that codes differ, that the
validity condition is exactly "some index matches"; decode and the range check run on a symbolic integer.
Formula constructors: structural induction; the arguments are bits or constructors known only by the
contract of to_hwtypes, and each constructor must establish that contract for itself."""
import itertools
import random
import z3
from hwtypes import SMTBit, SMTBitVector
from vc import sym, smt
from vc.harness import Skip
from vc.smt import ZCtx, to_z3

LEVEL = 'proof'


def classes():
    from peak.mapper import index_var as M
    return {'OneHot': M.OneHot, 'Binary': M.Binary}


def index_proofs(ck, cname, n):
    from peak.family import SMTFamily
    C = classes()[cname]
    L = '%s(%d)' % (cname, n)
    iv = C(n, 'x', SMT=SMTFamily())
    var = to_z3(iv.var)
    z = ZCtx(ck)
    codes = []
    for i in range(n):
        m = to_z3(iv.match_index(i))
        s = z3.Solver()
        s.add(m)
        if s.check() != z3.sat:
            ck.obl(L + ': every index has a code', 'refuted', 'z3', 'index %d is never matched' % i)
            return
        k = s.model().eval(var, model_completion=True).as_long()
        codes.append(k)
        ck.prove(L + ': an index matches exactly its code', z, m == (var == k))
    ck.obl(L + ': codes differ', 'proved' if len(set(codes)) == n else 'refuted', 'evaluation', repr(codes[:20]))
    ck.prove(L + ': validity is "some index matches"', z, to_z3(iv.is_valid()) == z3.Or([var == k for k in codes]))
    v = z3.Int('v')
    if n <= 24 or ck.thorough:
        def dec(c):
            try:
                r = iv.decode(sym.SInt(v))
            except ValueError:
                ck.prove(L + ': decode rejects only other values', c, z3.And([v != k for k in codes]))
                return True
            ck.prove(L + ': decode gives the index of the code', c, v == codes[r] if isinstance(r, int) and 0 <= r < n else z3.BoolVal(False))
            return True
        paths = 0
        for c, (k, r) in sym.explore(dec, stats=ck.stats, max_paths=1000):
            paths += 1
            if k == 'raise':
                ck.obl(L + ': decode raises ValueError or nothing', 'refuted', 'evaluation', repr(r))
        ck.obl(L + ': decode paths', 'proved' if paths == n + 1 else 'undecided', 'coverage', '%d' % paths)

    def outside(c):
        i = c.fresh_int('i')
        c.assume(z3.Or(i < 0, i >= n))
        try:
            iv.match_index(sym.SInt(i))
        except ValueError:
            return True
        except sym.Unsupported:
            raise
        ck.prove(L + ': indices out of range are rejected', c, z3.BoolVal(False))
        return True
    ok = 0
    for c, (k, r) in sym.explore(outside, stats=ck.stats):
        ok += k == 'ok'
        if k == 'raise':
            ck.obl(L + ': indices out of range are rejected', 'undecided', 'engine', repr(r))
    ck.obl(L + ': indices out of range are rejected', 'proved' if ok else 'undecided', 'z3', '%d paths' % ok)


def formula_proofs(ck):
    from peak.mapper import formula_constructor as M
    z = ZCtx(ck)

    class Abs(M.FormulaConstructor):
        """any formula: known by its contract only"""

        def __init__(self):
            self.den = SMTBit()

        def to_hwtypes(self):
            return self.den
    ops = {'And': (M.And, z3.And), 'Or': (M.Or, z3.Or)}
    for name, (C, den) in ops.items():
        for n in range(1, 7):
            for kinds in itertools.product('bf', repeat=n):
                args = [SMTBit() if k == 'b' else Abs() for k in kinds]
                want = den([to_z3(a if isinstance(a, SMTBit) else a.den) for a in args])
                for how, mk in (('list', lambda: list(args)), ('generator', lambda: (a for a in args)), ('tuple', lambda: tuple(args))):
                    f = C(mk())
                    for again in range(2):
                        ck.prove('%s of %d arguments (%s): denotes the %s' % (name, n, how, name), z, to_z3(f.to_hwtypes()) == want)
        for n in (9, 17, 40):
            args = [SMTBit() if i % 3 else Abs() for i in range(n)]
            want = den([to_z3(a if isinstance(a, SMTBit) else a.den) for a in args])
            ck.prove('%s of %d arguments: denotes the %s' % (name, n, name), z, to_z3(C(args).to_hwtypes()) == want)
        a = SMTBit()
        ck.prove('%s of repeated arguments' % name, z, to_z3(C([a, a, a]).to_hwtypes()) == to_z3(a))
        lst = [SMTBit(), SMTBit()]
        f = C(lst)
        w = den([to_z3(b) for b in lst])
        lst.append(SMTBit())
        ck.prove('%s: later changes of the argument list do not matter' % name, z, to_z3(f.to_hwtypes()) == w)
    for kp, kq in itertools.product('bf', repeat=2):
        p, q = [SMTBit() if k == 'b' else Abs() for k in (kp, kq)]
        f = M.Implies(p, q)
        zp, zq = [to_z3(a if isinstance(a, SMTBit) else a.den) for a in (p, q)]
        for again in range(2):
            ck.prove('Implies (%s, %s): denotes the implication' % (kp, kq), z, to_z3(f.to_hwtypes()) == z3.Implies(zp, zq))


# ---- concrete --------------------------------------------------------------

def index(cname, n):
    """codes, decoding, validity of an index variable, evaluated"""
    from peak.family import SMTFamily
    iv = classes()[cname](n, 'x', SMT=SMTFamily())
    w = iv.var.size
    z = to_z3(iv.var)

    def at(bit, v):
        return z3.is_true(z3.simplify(z3.substitute(to_z3(bit), (z, z3.BitVecVal(v, w)))))
    ms = [iv.match_index(i) for i in range(n)]
    pool = range(1 << w) if w <= 10 else sorted({0, 1, 2, 3, n - 1, n, n + 1, (1 << w) - 1, (1 << w) - 2} | {1 << i for i in range(w)}
                                                | {(1 << i) + 1 for i in range(w)} | {(1 << i) - 1 for i in range(w)})
    used = {}
    valid = iv.is_valid()
    for v in pool:
        if v >= 1 << w:
            continue
        hit = [i for i in range(n) if at(ms[i], v)]
        assert len(hit) <= 1, 'value %d matches indices %r' % (v, hit)
        try:
            d = iv.decode(v)
        except ValueError:
            d = None
        assert d == (hit[0] if hit else None), 'value %d matches %r and decodes to %r' % (v, hit, d)
        assert at(valid, v) == bool(hit), 'validity of %d' % v
        if hit:
            assert hit[0] not in used, 'two codes for index %d' % hit[0]
            used[hit[0]] = v
    assert sorted(used) == list(range(n)), 'codes exist only for %r' % sorted(used)
    for i in (-1, n, n + 1, 2 * n + 3, -n):
        try:
            iv.match_index(i)
        except ValueError:
            continue
        assert False, 'index %d of %d accepted' % (i, n)
    for v in (-1, 1 << w, (1 << w) + 1):
        try:
            d = iv.decode(v)
        except ValueError:
            continue
        assert False, 'decode(%d) = %r' % (v, d)


def formula(tree, nvars):
    """truth table of a nested formula"""
    from peak.mapper import formula_constructor as M
    xs = [SMTBit() for _ in range(nvars)]

    def build(t):
        if isinstance(t, int):
            return xs[t]
        if t[0] == 'implies':
            return M.Implies(build(t[1]), build(t[2]))
        C = M.And if t[0] == 'and' else M.Or
        return C([build(a) for a in t[1:]])

    def ev(t, env):
        if isinstance(t, int):
            return env[t]
        if t[0] == 'implies':
            return (not ev(t[1], env)) or ev(t[2], env)
        return (all if t[0] == 'and' else any)(ev(a, env) for a in t[1:])
    f = build(tree)
    got = to_z3(f if isinstance(f, SMTBit) else f.to_hwtypes())
    for env in itertools.product([False, True], repeat=nvars):
        g = z3.is_true(z3.simplify(z3.substitute(got, *[(to_z3(x), z3.BoolVal(e)) for x, e in zip(xs, env)])))
        assert g == ev(tree, env), 'value at %r' % (env,)


CASES = dict(index=index, formula=formula)


def run(ck):
    ck.under_contract('peak.mapper.index_var.IndexVar.__init__/match_index/decode', 'peak.mapper.index_var.OneHot', 'peak.mapper.index_var.Binary',
                      'peak.mapper.formula_constructor.And/Or/Implies.__init__/to_hwtypes', 'peak.mapper.formula_constructor.or_reduce/and_reduce/_check/_to_hwtypes')
    ck.trust('hwtypes SMT bits and vectors, pysmt to z3 conversion')
    top = 130 if ck.thorough else 70
    ck.bound('number of entries 1..%d; number of arguments of And/Or 1..6, 9, 17, 40' % top)
    tasks = []
    for cname in ('OneHot', 'Binary'):
        for n in list(range(1, 35)) + [40, 63, 64, 65, top]:
            tasks.append(('%s(%d)' % (cname, n), lambda cname=cname, n=n: (ck.case('index', cname, n), ck.section('%s(%d)' % (cname, n), lambda: index_proofs(ck, cname, n)))))
    tasks.append(('formula constructors', lambda: formula_proofs(ck)))
    ck.parallel(tasks)
    rnd = random.Random(ck.seed)

    def tree(d):
        if d == 0 or rnd.random() < .2:
            return rnd.randrange(4)
        k = rnd.choice(['and', 'or', 'implies'])
        return (k,) + tuple(tree(d - 1) for _ in range(2 if k == 'implies' else rnd.randrange(1, 5)))
    for t in [(k, *range(n)) for k in ('and', 'or') for n in (1, 2, 3, 4)] + [('implies', 0, 1), ('implies', ('implies', 0, 1), 2), ('implies', 0, ('implies', 1, 2))]:
        ck.case('formula', t, 4)
    for _ in range(300 if ck.thorough else 60):
        ck.case('formula', tree(3), 4)
