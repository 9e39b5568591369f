"""Verification of a rule is exact and its counterexamples are genuine.

verify() is run with a solver known by its contract.  For rules over any designs of given interfaces (what they compute
and what they feed their black boxes are uninterpreted functions), correct or not, z3 proves that every model of the
formula verify() asserts reports input values for which the rule is wrong, and that it has a model whenever the rule is
wrong for some values.  Which rules are refused when they are made is decided for every code of every constant."""
from vc import mapcorpus as mc, mapproofs as mp, ruleproofs as rp
from vc.harness import Skip
from checks import mapcommon as cm

LEVEL = 'translation_validation'


def verify(spec, choice, tables):
    """verify() of the real rule with the real solver"""
    fi, b, ob = choice
    rp.verify(mc.named_pair(spec, tables), fi, dict(b), dict(ob))


def verify_any(spec, n, seed, j, tables):
    """the same for rule j of those drawn for the pair"""
    p = mc.named_pair(spec, tables)
    fi, b, ob = rp.choices(mc.named_pair(spec), n, seed)[j]
    rp.verify(p, fi, b, ob)


def mapped(a, i, c, simple):
    """rules made by the mapper verify; with other constants they verify exactly if they are correct"""
    p = mc.pair(a, i, c)
    r = cm.returned_rule(p, simple, 'Binary', False)
    if r is None:
        raise Skip
    try:
        mp.check_rule(p, r.ibinding, r.obinding)
    except AssertionError:
        raise Skip                      # C18
    assert r.verify() is None, 'a correct rule does not verify'


def refused(spec, fi, path, code):
    """a rule with this code for a constant (None: unbound) is refused exactly if it is not valid"""
    from peak.mapper.utils import Unbound
    p = mc.named_pair(spec)
    ch, lv = p.arch.forms(None)[fi]
    d = dict(lv)[path]
    b = {q: ('const', code if q == path else 1 if e[0] != 'enum' else mp.enum_codes(e)[0]) if p.arch.const(q) or q == path else None for q, e in lv}
    if code is None:
        b[path] = None
    good = code is not None and (d[0] != 'enum' or code in mp.enum_codes(d))
    good = good or code is None and not p.arch.const(path)
    try:
        r = rp.rule(p, fi, b, {})
    except ValueError as e:
        assert not good, 'refused: %s' % e
        return
    assert good, 'a rule with %r for %r is accepted' % (code, path)
    if code is not None:
        (v,) = [x for x, q in r.ibinding if q == path]
        assert mp.const_int(v) == code


CASES = dict(verify_any=verify_any, mapped=mapped, refused=refused)


class With:
    """the check with the arguments of a case completed"""

    def __init__(self, ck, *pre):
        self.ck, self.pre, self.stats = ck, pre, ck.stats

    def obl(self, *a):
        self.ck.obl(*a)

    def case(self, kind, *a):
        self.ck.case('verify_any', *self.pre, *a)


def prove(ck, spec, n, seed):
    p = mc.named_pair(spec)
    q = mp.Query(ck)
    for j, (fi, b, ob) in enumerate(rp.choices(p, n, seed)):
        rp.exact(With(ck, spec, n, seed, j), '%s: rule %d' % (p.name, j), p, fi, b, ob, q, lambda t: (t,))


def corpus(ck, spec, n, seed):
    prove(ck, spec, n, seed)
    p = mc.named_pair(spec)
    for j in range(len(rp.choices(p, n, seed))):
        ck.case('verify_any', spec, n, seed, j, ())


def refusals(ck, spec):
    p = mc.named_pair(spec)
    bad = 0
    for fi, (ch, lv) in enumerate(p.arch.forms(None)):
        for path, d in lv:
            codes = [None] + (list(range(1 << mp.width(d))) if mp.width(d) <= 3 else [0, 1, (1 << mp.width(d)) - 1])
            for c in codes:
                ck.case('refused', spec, fi, path, c)


def run(ck):
    cm.trusted(ck)
    big = ck.tier == 'thorough'
    n, g, seed = (12, 200, ck.seed) if big else (4, 40, 1)
    tasks = []
    for boxes, names in ((False, mc.pair_names()), (True, mc.box_names())):
        gen = mc.specs(mc.generated(g, seed, boxes), g, seed, boxes)
        for spec in mc.specs(names) + gen:
            tasks.append(('%s' % (spec,), lambda spec=spec: prove(ck, spec, n, seed)))
        for a, i, c in names:
            spec = ('pair', a, i, c)
            tasks.append(('%s' % (spec,), lambda spec=spec: corpus(ck, spec, n, seed)))
            if not c:
                tasks.append(('refusals %s' % (spec,), lambda spec=spec: refusals(ck, spec)))
            for s in ((True,) if boxes else (True, False)):
                tasks.append(('mapped %s %s' % (spec, s), lambda a=a, i=i, c=c, s=s: ck.case('mapped', a, i, c, s)))
    ck.bound('interfaces: %d written by hand, %d generated, for each %d rules (constants concrete); any designs with them; '
             'the designs of vc/mapcorpus.py with the real solver' % (len(mc.specs(mc.pair_names())) + len(mc.specs(mc.box_names())), 2 * g, n))
    ck.parallel(tasks)
