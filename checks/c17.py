"""Black boxes are treated as unknown functions, nothing more or less.

For any designs with given inputs, outputs and black boxes (what they compute and what they feed their boxes are
uninterpreted functions) the formula the mapper asserts and the rule it returns for a model are related to the meaning
of the rule over all interpretations of the boxes, in both directions, as in C18 and C19; verify() is related to it
as in C20."""
from vc import mapcorpus as mc, mapproofs as mp
from vc.harness import Skip
from checks import mapcommon as cm

LEVEL = 'translation_validation'


def refused(a, i):
    """the formula that substitutes one design into the other is refused for designs with black boxes"""
    p = mc.pair(a, i)
    boxes = p.arch.term()[2] + p.ir.term()[2]
    try:
        am, im = mp.mappers(p, False, 'Binary')
        r = mp.real_solve(im, False)
    except (ValueError, NotImplementedError):
        return
    if not boxes:
        raise Skip
    if r is not None:
        mp.check_rule(p, r.ibinding, r.obinding)
    e = cm.exists(a, i, ())
    assert e is None or (r is not None) == e


CASES = dict(solve=cm.solve, found=cm.found, answer=cm.answer, lost=cm.lost, refused=refused)


def prove(ck, spec, s, v):
    cm.sound(ck, spec, s, v)
    cm.complete(ck, spec, s, v)


def of_corpus(ck, a, i, c, v):
    prove(ck, ('pair', a, i, c), True, v)
    for ext in (False, True):
        ck.case('solve', a, i, c, True, v, ext)
        ck.case('found', a, i, c, True, v, ext)
    if v == 'Binary':
        ck.case('refused', a, i)


def run(ck):
    cm.trusted(ck)
    ck.bound('designs with black boxes of vc/mapcorpus.py (%d pairs), also with the real solver: all models, all inputs of each' % len(mc.box_names()))
    tasks = cm.run_interfaces(ck, prove, True)
    for a, i, c in mc.box_names():
        for v in ('OneHot', 'Binary'):
            tasks.append(('%s / %s %s' % (a, i, v), lambda a=a, i=i, c=c, v=v: of_corpus(ck, a, i, c, v)))
    ck.parallel(tasks)
