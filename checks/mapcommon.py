"""Obligations and cases shared by the checks of the mapper."""
from vc import mapcorpus as mc, mapproofs as mp
from vc.harness import Skip

_enc, _exists = {}, {}


def label(p, simple, ivar):
    return '%s [%s, %s]' % (p.name, 'simple' if simple else 'substituted', ivar)


def exists(a, i, constraints):
    k = (a, i, constraints)
    if k not in _exists:
        _exists[k] = mp.spec_exists(mc.pair(a, i, constraints))
    return _exists[k]


def returned_rule(p, simple, ivar, ext):
    am, im = mp.mappers(p, simple, ivar)
    return mp.real_solve(im, ext)


def sound(ck, spec, simple, ivar):
    """whatever model the solver answers with, the rule returned for it is correct"""
    p = mc.named_pair(spec)
    L = label(p, simple, ivar)
    enc = mp.Encoding(p, simple, ivar)
    ck.obl(L + ': none when unsatisfiable', 'proved' if enc.when_unsat is None else 'refuted', 'evaluation', repr(enc.when_unsat))
    if enc.phi is None:
        r, _ = enc.rule({})
        ck.obl(L + ': none without bindings', 'proved' if r is None else 'refuted', 'evaluation', repr(r))
        return
    q = mp.Query(ck)
    outs = p.output_bindings()
    ins = [(lv, b) for _, _, lv, b in p.input_bindings(mp.SPEC)]
    for f, b, o in enc.choices():
        ib, ob = enc.template(f, b, o)
        fm = mp.form_of(p, ib)
        ok = fm is not None and ob in outs
        if ok:
            consts = mp.consts_of(enc, ib, fm[1])
            pure = mp.strip(ib, consts)
            want = {x for x, _ in fm[1] if pure[x] is None and (p.arch.const(x) or x in p.constraints)}
            ok = (fm[1], pure) in ins and set(consts) == want
        ck.obl('%s: rule %d.%d.%d binds what it may' % (L, f, b, o), 'proved' if ok else 'refuted', 'evaluation', '%r %r' % (ib, ob))
        if ok:
            mp.soundness(ck, enc, L, f, b, o, ib, ob, q, spec)
    mp.outside(ck, enc, L, q)


def complete(ck, spec, simple, ivar):
    """every allowed binding is considered, and with it every choice of constants for which it is correct"""
    p = mc.named_pair(spec)
    L = label(p, simple, ivar)
    enc = mp.Encoding(p, simple, ivar)
    want = mp.spec_choices(p)
    if enc.phi is None:
        ck.obl(L + ': no bindings only if there are none', 'proved' if not want else 'refuted', 'evaluation', '%d choices' % len(want))
        return
    q = mp.Query(ck)
    got = []
    for f, b, o in enc.choices():
        ib, ob = enc.template(f, b, o)
        fm = mp.form_of(p, ib)
        if fm is None:
            ck.obl('%s: choice %d.%d.%d is found whenever it is correct' % (L, f, b, o), 'undecided', 'engine', 'not a form: %r' % (ib,))
            continue
        consts = mp.consts_of(enc, ib, fm[1])
        got.append((fm[1], mp.strip(ib, consts), ob))
        mp.completeness(ck, enc, L, f, b, o, ib, ob, q, spec)
    missing = [(b, ob) for _, lv, b, ob in want if (lv, b, ob) not in got]
    ck.obl(L + ': every allowed binding is considered', 'proved' if not missing else 'refuted', 'evaluation', 'missing: %r' % (missing[:3],))


def answer(spec, simple, ivar, choice, tables, values):
    """solve() with a solver that answers the given model of the asserted formula returns a correct rule"""
    mp.answer(mc.named_pair(spec, tables), simple, ivar, choice, values)


def lost(spec, simple, ivar, tables):
    """a rule is returned exactly if one exists, for designs with the given tables as functions"""
    mp.lost(mc.named_pair(spec, tables), simple, ivar)


CONF = [(s, v) for s in (False, True) for v in ('OneHot', 'Binary')]


def configurations(ck):
    """of the designs of the corpus (those of any design of an interface are all configurations)"""
    return CONF if ck.tier == 'thorough' else [(False, 'Binary'), (True, 'OneHot')]


def solve(a, i, constraints, simple, ivar, ext):
    """a returned rule is well formed and correct (real solver)"""
    p = mc.pair(a, i, constraints)
    r = returned_rule(p, simple, ivar, ext)
    if r is not None:
        mp.check_rule(p, r.ibinding, r.obinding)
        concrete(p, r)
    else:
        raise Skip


def found(a, i, constraints, simple, ivar, ext):
    """a rule is returned if one exists (real solver)"""
    r = returned_rule(mc.pair(a, i, constraints), simple, ivar, ext)
    e = exists(a, i, constraints)
    if e is None:
        raise Skip
    assert r is not None or not e, 'no rule was found but one exists'


def concrete(p, r):
    """the rule on some inputs, run in Python"""
    import random
    from hwtypes import BitVector, Bit
    from peak import family as F
    if p.arch.term()[2] or p.ir.term()[2]:
        return
    fam = F.PyFamily()
    irp, arp = r.get_input_paths()
    rnd = random.Random(1)
    it = dict(lv for _, l in p.ir.forms(None) for lv in l)
    at = dict(lv for _, l in p.arch.forms(None) for lv in l)

    def val(q, d):
        if q in p.constraints:
            return BitVector[mp.width(d)](int(rnd.choice(mp.codes(d, p.constraints[q])))) if d[0] != 'bit' else Bit(rnd.choice(p.constraints[q]))
        if d[0] == 'bit':
            return Bit(rnd.randrange(2))
        if d[0] == 'enum':
            return BitVector[mp.width(d)](rnd.choice(mp.enum_codes(d)))
        return BitVector[d[1]](rnd.randrange(1 << d[1]))
    for _ in range(4):
        xi = {q: val(None, it[q]) for q in irp}
        xa = {q: val(q, at[q]) for q in arp}
        ii, ai = r.build_inputs(xi, xa, fam)
        io, ao = outputs(p.ir, ii), outputs(p.arch, ai)
        for q, s in r.obinding:
            if isinstance(q, tuple):
                assert io[q] == ao[s], 'inputs %r %r: %r is %r, %r is %r' % (xi, xa, q, io[q], s, ao[s])


def outputs(D, inputs):
    """{leaf path: int} of a run of the Python class on assembled inputs"""
    import z3
    vals = {}
    for n, _, d in D.inputs:
        v = inputs[n]
        v = getattr(v, '_value_', v) if not isinstance(v, (int,)) else v
        vals[n] = z3.BitVecVal(int(v), mp.width(d))
    out, _ = D.outputs_at(vals)
    return {k: z3.simplify(e).as_long() for k, e in out.items()}


def interfaces(ck, boxes):
    """[(spec of a pair of any designs, configurations)]"""
    n = 250 if ck.tier == 'thorough' else 40
    seed = ck.seed if ck.tier == 'thorough' else 1
    named = mc.specs(mc.box_names() if boxes else mc.pair_names())
    gen = mc.specs(mc.generated(n, seed, boxes), n, seed, boxes)
    confs = [c for c in CONF if c[0] or not boxes]
    ck.bound('any designs of %d interfaces written by hand and %d generated (seed %d): all outputs, all values fed to black boxes' % (len(named), len(gen), seed))
    return [(s, confs) for s in named + gen]


def run_interfaces(ck, prove, boxes):
    tasks = []
    for spec, confs in interfaces(ck, boxes):
        for s, v in confs:
            tasks.append(('%s %s %s' % (spec, s, v), lambda spec=spec, s=s, v=v: prove(ck, spec, s, v)))
    return tasks


def trusted(ck):
    ck.under_contract('mapper.SMTMapper.__init__', 'mapper.ArchMapper.__init__', 'mapper.IRMapper.__init__ (both formulas)', 'mapper.IRMapper.solve',
                      'mapper.rr_from_solver', 'utils.SMTForms', 'utils.create_bindings', 'utils.rebind_binding', 'utils.solved_to_bv',
                      'index_var.OneHot', 'index_var.Binary', 'mapper.update_with_bb', 'mapper.is_valid')
    ck.trust('the solver is correct (contract: a model it answers satisfies the asserted formula, and it answers unsat only if there is none)',
             'pysmt (substitution, conversion to z3) and hwtypes SMT values', 'the SMT family class of a design means its program (C13)')
    ck.assume('inputs range over all opcodes of their types (codes of an enum that no member has included), as the mapper and verification take them')
