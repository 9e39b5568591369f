"""The mapper finds a rule whenever one exists, within the constraints.

For any designs of a given interface (what they compute are uninterpreted functions), both formula constructions and
both index encodings, the bindings the formula ranges over are compared with those the property allows, and z3 proves
for each of them, for all constants: if the rule is correct, then the asserted formula has a model with these indices
and constants.  None is returned only if the solver answers unsat, or there is no binding at all."""
from vc import mapcorpus as mc, mapproofs as mp
from vc.harness import Skip
from checks import mapcommon as cm

LEVEL = 'translation_validation'


def wellformed(a, i, constraints, simple):
    """every architecture input is bound exactly once, constrained paths to allowed values"""
    p = mc.pair(a, i, constraints)
    r = cm.returned_rule(p, simple, 'Binary', False)
    if r is None:
        raise Skip
    mp.check_rule(p, r.ibinding, r.obinding)


def outputs(k, n, simple, ivar):
    """of an architecture with k outputs x, x + 1, ... the one the instruction needs is found (real solver)"""
    names = ['o%d' % i for i in range(k)]
    a = mc.design([('*c', mc.B1), ('x', mc.W)], [(o, mc.W) for o in names], 'return ' + ', '.join('x + %d' % i for i in range(k)))
    i = mc.design([('y', mc.W)], [mc.W], 'return y + %d' % n)
    p = mc.Pair('%d outputs / + %d' % (k, n), a, i, {})
    _, im = mp.mappers(p, simple, ivar)
    r = mp.real_solve(im, False, 10)
    assert r is not None, 'no rule was found but one exists'
    mp.check_rule(p, r.ibinding, r.obinding)


CASES = dict(outputs=outputs, found=cm.found, wellformed=wellformed, lost=cm.lost)


def of_corpus(ck, a, i, c, s, v):
    cm.complete(ck, ('pair', a, i, c), s, v)
    for ext in ((False, True) if v == 'OneHot' else (False,)):
        ck.case('found', a, i, c, s, v, ext)
    if v == 'Binary':
        ck.case('wellformed', a, i, c, s)


def run(ck):
    cm.trusted(ck)
    ck.bound('designs of vc/mapcorpus.py (%d pairs), also with the real solver: all constants, all inputs of each' % len(mc.pair_names()))
    tasks = cm.run_interfaces(ck, cm.complete, False)
    for a, i, c in mc.pair_names():
        for s, v in cm.configurations(ck):
            tasks.append(('%s / %s %r %s %s' % (a, i, c, s, v), lambda a=a, i=i, c=c, s=s, v=v: of_corpus(ck, a, i, c, s, v)))
    for s, v in cm.CONF:
        tasks.append(('outputs %s %s' % (s, v), lambda s=s, v=v: [ck.case('outputs', k, n, s, v) for k in range(2, 8) for n in range(k)]))
    ck.parallel(tasks)
