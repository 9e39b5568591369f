"""Every rewrite rule the mapper returns is correct.

solve() is run with a solver known by its contract (it asserts formulas, may answer sat with any model of them, or
unsat).  The designs are any designs of a given interface: what they compute are uninterpreted functions.  For both
formula constructions and both index encodings the asserted formula is recorded and the rule returned for a model is
read off as a function of the model; z3 proves, for all models and all designs of the interface, that the rule is
correct for all inputs, that its constants are valid and allowed, and that no model has indices that denote no rule.
The meaning of designs, paths and rules is computed independently of the mapper."""
from vc import mapcorpus as mc
from checks import mapcommon as cm

LEVEL = 'translation_validation'
CASES = dict(solve=cm.solve, answer=cm.answer)


def of_corpus(ck, a, i, c, s, v):
    cm.sound(ck, ('pair', a, i, c), s, v)
    for ext in ((False, True) if v == 'OneHot' else (False,)):
        ck.case('solve', a, i, c, s, v, ext)


def run(ck):
    cm.trusted(ck)
    ck.bound('designs of vc/mapcorpus.py (%d pairs), also with the real solver: all models, all inputs of each' % len(mc.pair_names()))
    tasks = cm.run_interfaces(ck, cm.sound, False)
    for a, i, c in mc.pair_names():
        for s, v in cm.configurations(ck):
            tasks.append(('%s / %s %r %s %s' % (a, i, c, s, v), lambda a=a, i=i, c=c, s=s, v=v: of_corpus(ck, a, i, c, s, v)))
    ck.parallel(tasks)
