"""Obligations about verify() of a rule and about the inputs built from it.

verify() is run with a solver known by its contract; the formula it asserts and the values it reports for a model are
related for all models to the independent meaning of the rule."""
import itertools
import random
import z3
import pysmt.shortcuts as smt
from hwtypes import Bit, BitVector
from . import smt as vsmt
from .isa import width, enum_codes
from .mapcorpus import goal
from .mapproofs import SPEC, Fake, const_int, for_all, tables, bv


def choices(pair, n, seed, once=False):
    """n rules of a pair: [(form index, {arch path: ir path | ('const', value) | None}, {arch out: ir out | None})], drawn
    from the seed.  Every instruction input is used (once, or any number of times), every architecture output may be
    bound to any output of its type."""
    A, I = pair.arch, pair.ir
    rnd = random.Random('%s %s' % (seed, pair.name))
    (_, il), = I.forms(None)
    at, it = dict(A.out_leaves()), dict(I.out_leaves())
    forms = A.forms(None)
    out = []

    def value(d):
        return rnd.choice(enum_codes(d)) if d[0] == 'enum' else rnd.choice([0, (1 << width(d)) - 1, rnd.randrange(1 << width(d))])
    for _ in range(20 * n):
        if len(out) == n:
            break
        fi = rnd.randrange(len(forms))
        lv = forms[fi][1]
        b = {}
        for p, d in lv:
            can = [q for q, e in il if e == d and (not A.const(p) or I.const(q))]
            r = rnd.random()
            b[p] = rnd.choice(can) if can and r < .7 else ('const', value(d)) if A.const(p) or r > .93 else None
        left = [q for q, _ in il if q not in b.values()]
        for q in left:
            can = [p for p, d in lv if d == dict(il)[q] and not is_path(b[p]) and (not A.const(p) or I.const(q))]
            if can:
                b[rnd.choice(can)] = q
        if not all(q in b.values() for q, _ in il):
            continue
        if once and any(list(b.values()).count(q) > 1 for q, _ in il):
            continue
        ob = {}
        for p, d in at.items():
            can = [q for q, e in it.items() if e == d]
            ob[p] = rnd.choice(can) if can and rnd.random() < .85 else None
        if rnd.random() < .15:
            ob = {p: q for p, q in ob.items() if q is not None}
        if not any(q is not None for q in ob.values()):
            continue
        key = (fi, tuple(sorted(b.items(), key=str)), tuple(sorted(ob.items(), key=str)))
        if key not in [o[3] for o in out]:
            out.append((fi, b, ob, key))
    return [(fi, b, ob) for fi, b, ob, _ in out]


def is_path(q):
    return isinstance(q, tuple) and q[0] != 'const'


def constant(d, v):
    return Bit(v) if d[0] == 'bit' else BitVector[width(d)](v)


def entries(pair, fi, b, ob, seed=0):
    """bindings in the form rules take, in an order drawn from the seed"""
    from peak.mapper.utils import Unbound
    at = dict(pair.arch.forms(None)[fi][1])
    ib = [(Unbound if q is None else constant(at[p], q[1]) if q[0] == 'const' else q, p) for p, q in b.items()]
    o = [(Unbound if q is None else q, p) for p, q in ob.items()]
    random.Random(seed).shuffle(ib)
    return ib, o


def rule(pair, fi, b, ob, seed=0):
    from peak.mapper import RewriteRule
    ib, o = entries(pair, fi, b, ob, seed)
    return RewriteRule(ib, o, pair.ir.fc, pair.arch.fc)


def meaning(pair, fi, b, ob):
    """(correctness matrix, variables by ir path, by free arch path, box outputs)"""
    ch, lv = pair.arch.forms(None)[fi]
    at = dict(lv)
    const = {p: z3.BitVecVal(q[1], width(at[p])) for p, q in b.items() if isinstance(q, tuple) and q[0] == 'const'}
    eq, free, cong, env = goal(pair, SPEC, ch, {p: q for p, q in b.items() if is_path(q)}, ob, const)
    (_, il), = pair.ir.forms(None)
    iv = {q: z3.BitVec('I.%s' % (q,), width(d)) for q, d in il}
    av = {p: env.get(p, z3.BitVec('A.%s' % (p,), width(at[p]))) for p, q in b.items() if q is None}
    own = list(iv.values()) + list(av.values())
    boxes = [v for v in free if not any(v.eq(o) for o in own)]
    return z3.Implies(z3.And(cong), eq), iv, av, boxes


class Reads(Fake):
    """solver by its contract; variables are told apart by the order they are read in"""

    def __init__(self, sat, model, log):
        Fake.__init__(self, sat, model, log)

    def get_value(self, v, *a, **k):
        from .mapproofs import Node
        if v.is_constant():
            return v
        seen = self.log['seen']
        if v not in seen:
            seen.append(v)
        t = v.get_type()
        n = 1 if t.is_bool_type() else t.width
        x = self.model(seen.index(v), n)
        return Node(bool(x) if t.is_bool_type() else x)


def run(r, sat, model):
    """(result of verify(), what it asserted, variables in the order they were read)"""
    log = dict(asserted=[], solved=0, read=set(), seen=[])
    from peak.black_box import BlackBox
    saved = smt.Solver, BlackBox._set_outputs
    smt.Solver = lambda *a, **k: Reads(sat, model, log)
    log['boxes'] = {}

    def set_outputs(self, *outs):
        log['boxes'][id(self)] = (self, outs)
        return saved[1](self, *outs)
    BlackBox._set_outputs = set_outputs
    try:
        res = r.verify()
    finally:
        smt.Solver, BlackBox._set_outputs = saved
    return res, log


def matchings(pair, log):
    """[[(variable of the code, variable of the specification)]]: ways to identify the boxes of a run with those of the
    designs, by class"""
    by = {}
    for o, outs in log['boxes'].values():
        by.setdefault(type(o), ([], []))[0].append([vsmt.to_z3(x) for x in outs])
    for _, k, _, outs in pair.arch.term()[2] + pair.ir.term()[2]:
        by.setdefault(k, ([], []))[1].append(outs)
    ways = []
    for code, spec in by.values():
        ways.append([[(a, b) for x, y in zip(code, perm) for a, b in zip(x, y)] for perm in itertools.islice(itertools.permutations(spec), 24)])
    return [sum(w, []) for w in itertools.islice(itertools.product(*ways), 36)] if ways else []


def at_terms(f, pairs):
    def to(x, t):
        return t if x.sort() == t.sort() else t == 1 if z3.is_bool(x) else bv(t)
    return z3.substitute(f, *[(x, to(x, t)) for x, t in pairs]) if pairs else f


class Verified:
    """what verify() asserts, and what it reports as a function of the model"""

    def __init__(self, r, probes=14):
        self.when_unsat, log = run(r, False, lambda i, n: 0)
        self.asked = bool(log['asserted'])
        rows, cols = [], {}
        for t in range(probes):
            rnd = random.Random(t)
            row = [rnd.getrandbits(64) for _ in range(200)]
            res, log = run(r, True, lambda i, n: row[i] & (1 << n) - 1)
            self.result = res
            if not isinstance(res, tuple) or not self.asked:
                return
            rows.append(row)
            for side, ce in enumerate(res):
                for p, v in ce.items():
                    cols.setdefault((side, p), []).append(v)
        self.log = log
        self.phi = smt.And(log['asserted'])
        self.reported = ({}, {})
        for (side, p), vs in cols.items():
            ns = [const_int(v) for v in vs]
            is_bit = isinstance(vs[0], Bit)
            n = 1 if is_bit else vs[0].size
            who = [i for i, v in enumerate(log['seen']) if (1 if v.get_type().is_bool_type() else v.get_type().width) == n
                   and all(x == row[i] & (1 << n) - 1 for x, row in zip(ns, rows))]
            if who:
                self.reported[side][p] = (n, is_bit, bv(vsmt.to_z3(log['seen'][who[0]])))
            elif len(set(ns)) == 1:
                self.reported[side][p] = (n, is_bit, z3.BitVecVal(ns[0], n))
            else:
                raise AssertionError('value reported for %r is not that of a variable' % (p,))


def exact(ck, L, pair, fi, b, ob, q, case):
    """verify() returns nothing exactly when the rule is correct, else values for which it is wrong; `case(tables)`
    gives the arguments of a replay"""
    try:
        v = Verified(rule(pair, fi, b, ob))
    except Exception as e:
        ck.obl(L + ': runs', 'undecided', 'engine', repr(e))
        ck.case('verify', *case(()))
        return
    corr, iv, av, boxes = meaning(pair, fi, b, ob)
    ck.obl(L + ': nothing when unsatisfiable', 'proved' if v.when_unsat is None or not v.asked else 'refuted', 'evaluation', repr(v.when_unsat))
    if not v.asked:
        # decided without the solver
        own = list(iv.values()) + list(av.values())
        st, m = for_all(q, own + boxes, corr, [], [])
        if v.result is None:
            st, m = for_all(q, [], z3.BoolVal(True), [z3.Not(corr)], [])
        ck.obl(L + ': decided exactly', st if v.result is None else 'undecided', 'z3')
        return
    res = v.result
    at = dict(pair.arch.forms(None)[fi][1])
    it = dict(pair.ir.forms(None)[0][1])
    ok = isinstance(res, tuple) and len(res) == 2
    ok = ok and set(v.reported[0]) == set(iv) and set(v.reported[1]) == set(av)
    ok = ok and all(v.reported[s][p][:2] == (width(d[p]), d[p][0] == 'bit') for s, d in ((0, it), (1, at)) for p in v.reported[s])
    ck.obl(L + ': values of all inputs are reported', 'proved' if ok else 'refuted', 'evaluation', repr(res))
    if not ok:
        ck.case('verify', *case(()))
        return
    phi = vsmt.to_z3(v.phi)
    at_ce = [(x, v.reported[s][p][2]) for s, vs in ((0, iv), (1, av)) for p, x in vs.items()]
    ways = matchings(pair, v.log)
    right = at_terms(corr, at_ce)
    st, m = for_all(q, boxes, right, [phi], [at_terms(right, [(b, a) for a, b in w]) for w in ways])
    ck.obl(L + ': wrong for every reported value', st, 'z3', '' if m is None else str(m)[:1500])
    if st == 'refuted':
        ck.case('verify', *case(tables(z3.And(phi, corr), m)))
    # the other way
    from .mapproofs import consts
    back, used = [], []
    for x, t in at_ce:
        for y in consts(t):
            if not any(y.eq(u) for u in used):
                used.append(y)
                back.append((y, x == 1 if z3.is_bool(y) else x))
    phi2 = z3.substitute(phi, *back) if back else phi
    rest = [c for c in consts(phi2) if not any(c.eq(x) for x, _ in at_ce)]
    st, m = for_all(q, rest, z3.Not(phi2), [z3.Not(corr)], [at_terms(z3.Not(phi2), w) for w in ways])
    ck.obl(L + ': no reported value only if correct', st, 'z3', '' if m is None else str(m)[:1500])
    if st == 'refuted':
        ck.case('verify', *case(tables(z3.And(phi2, corr), m)))


def verify(pair, fi, b, ob):
    """verify() of the real rule with the real solver"""
    from .harness import Skip
    r = rule(pair, fi, b, ob)
    with vsmt.z3_limits(10):
        got = r.verify()
    corr, iv, av, boxes = meaning(pair, fi, b, ob)
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(corr))
    if got is None:
        assert s.check() != z3.sat, 'nothing was found, the rule is wrong for %s' % s.model()
        return
    ir, ar = got
    assert set(ir) == set(iv) and set(ar) == set(av), 'values for %r %r' % (sorted(map(str, ir)), sorted(map(str, ar)))
    for vs, ce in ((iv, ir), (av, ar)):
        for p, x in vs.items():
            s.add(x == const_int(ce[p]))
    assert s.check() != z3.unsat, 'the rule is right for %r %r' % (ir, ar)
