"""Obligations about the formula a mapper hands to the solver and the rule it makes of a model.

solve() is run with a solver known only by its contract: the formula it asserts is recorded, and for every way
the indices can be chosen the rule it would return is read off as a function of the model.  The formula
"for all Y, psi(E, Y)" and the independent meaning of the rule are then related for all E by z3."""
import contextlib
import itertools
import random
import re
import time
import z3
import pysmt.shortcuts as smt
from hwtypes import Bit, BitVector
from . import smt as vsmt
from .isa import Spec, width, enum_codes
from .mapcorpus import goal, valid_code, _B


class Node:
    """a constant the solver answers with"""

    def __init__(self, v):
        self.v = v

    def is_constant(self):
        return True

    def constant_value(self):
        return self.v

    def is_true(self):
        return self.v is True

    def is_false(self):
        return self.v is False


class Fake:
    """solver by its contract: answers `sat` and the values of `model`"""

    def __init__(self, sat, model, log):
        self.sat, self.model, self.log = sat, model, log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_assertion(self, f, *a, **k):
        self.log['asserted'].append(f)

    def solve(self, *a, **k):
        self.log['solved'] += 1
        return self.sat

    def get_value(self, v, *a, **k):
        if v.is_constant():
            return v
        self.log['read'].add(v)
        t = v.symbol_type()
        x = self.model.get(v, 0)
        return Node(bool(x) if t.is_bool_type() else x)

    def get_py_value(self, v, *a, **k):
        return self.get_value(v).constant_value()

    def get_values(self, vs):
        return {v: self.get_value(v) for v in vs}

    def get_model(self):
        return self

    def is_sat(self, f):
        self.add_assertion(f)
        return self.solve()

    def push(self, *a):
        pass

    pop = push

    def __getitem__(self, v):
        return self.get_value(v)

    def exit(self):
        pass


class Rule:
    """records the arguments of RewriteRule"""

    def __init__(self, ibinding, obinding, ir_fc, arch_fc):
        self.ibinding, self.obinding, self.ir_fc, self.arch_fc = list(ibinding), list(obinding), ir_fc, arch_fc


@contextlib.contextmanager
def solver_contract(sat, model):
    from peak.mapper import mapper as M
    log = dict(asserted=[], solved=0, read=set())
    saved = smt.Solver, M.RewriteRule
    smt.Solver = lambda *a, **k: Fake(sat, model, log)
    M.RewriteRule = Rule
    try:
        yield log
    finally:
        smt.Solver, M.RewriteRule = saved


def constraint_values(pair):
    """constraints as given to ArchMapper"""
    out = {}
    for p, cs in pair.constraints.items():
        d = leaf_desc(pair.arch, p)
        out[p] = tuple(getattr(_B(d), c) if isinstance(c, str) else Bit(c) if d[0] == 'bit' else c for c in cs)
    return out


def codes(d, cs):
    return [enum_codes(d)[[n for n, _ in d[1]].index(c)] if isinstance(c, str) else c for c in cs]


def leaf_desc(D, path):
    for _, lv in D.forms(None):
        for p, d in lv:
            if p == path:
                return d
    raise KeyError(path)


def mappers(pair, simple, ivar):
    from peak.mapper import ArchMapper
    from peak.mapper import index_var
    I = getattr(index_var, ivar)
    am = ArchMapper(pair.arch.fc, path_constraints=constraint_values(pair), IVar=I)
    return am, am.process_ir_instruction(pair.ir.fc, simple)


def const_int(v):
    if isinstance(v, (Bit, bool)):
        return int(bool(v))
    if isinstance(v, BitVector):
        return v.as_uint()
    raise TypeError('constant %r' % (v,))


class Encoding:
    """what one mapper asserts and returns"""

    def __init__(self, pair, simple, ivar):
        self.pair = pair
        self.options = simple, ivar
        self.S = SPEC
        self.am, self.im = mappers(pair, simple, ivar)
        with solver_contract(False, {}) as log:
            self.when_unsat = self.im.solve()
        self.asserted = log['asserted']
        self.phi = None
        if self.asserted:
            f = smt.And(self.asserted) if len(self.asserted) > 1 else self.asserted[0]
            self.phi = f
            if f.is_forall():
                self.Y, self.psi = list(f.quantifier_vars()), f.arg(0)
            else:
                self.Y, self.psi = [], f
            self.E = sorted((v for v in self.psi.get_free_variables() - set(self.Y) if not v.symbol_type().is_function_type()), key=str)

    def rule(self, model):
        with solver_contract(True, model) as log:
            r = self.im.solve()
        return r, log['read']

    def choices(self):
        """[(fi, bi, bo)]"""
        im = self.im
        for fi, bs in enumerate(im.input_bindings):
            for bi in range(len(bs)):
                for bo in range(len(im.output_bindings)):
                    yield fi, bi, bo

    def index_model(self, fi, bi, bo):
        m = {}
        for iv, i in ((self.am.input_form_var, fi), (self.im.ib_var, bi), (self.im.ob_var, bo)):
            m[iv.var.value] = iv.translate_index(iv.num_entries, i)
        return m

    def template(self, fi, bi, bo):
        """(input binding {arch path: ir path | None | ('var', v) | ('fixed', n)}, output binding {arch path: ir path | None})"""
        from peak.mapper.utils import Unbound
        base = self.index_model(fi, bi, bo)
        r0, read = self.rule(base)
        if not isinstance(r0, Rule):
            raise TypeError('solve returned %r' % (r0,))
        assert r0.ir_fc is self.pair.ir.fc and r0.arch_fc is self.pair.arch.fc, 'rule is about other designs'
        read = sorted((v for v in read if v not in base), key=str)

        def consts(r):
            return {p: const_int(q) for q, p in r.ibinding if q is not Unbound and not isinstance(q, tuple)}
        c0 = consts(r0)
        dep = {}
        for v in read:
            t = v.symbol_type()
            w = 1 if t.is_bool_type() else t.width
            units = [1 << j for j in range(w)] + [(1 << w) - 1]
            got = [consts(self.rule({**base, v: u})[0]) for u in units]
            for p in c0:
                col = [g[p] for g in got]
                if col == units and c0[p] == 0:
                    assert p not in dep, 'constant of %r is read from two variables' % (p,)
                    dep[p] = v
                elif any(x != c0[p] for x in col):
                    raise AssertionError('constant of %r is not the value of a variable' % (p,))
        ib = {}
        for q, p in r0.ibinding:
            assert p not in ib, 'path %r is bound twice' % (p,)
            ib[p] = None if q is Unbound else q if isinstance(q, tuple) else ('var', dep[p]) if p in dep else ('fixed', c0[p])
        ob = {}
        for q, p in r0.obinding:
            assert p not in ob, 'output path %r is bound twice' % (p,)
            ob[p] = None if q is Unbound else q
        return ib, ob

    # ---- z3 side
    def z(self, t):
        return vsmt.to_z3(t)

    def yvars(self):
        return [self.z(v) for v in self.Y]

    def matrix(self, model):
        """psi with the given variables fixed"""
        t = self.z(self.psi)
        return z3.substitute(t, *[(self.z(v), z3.BitVecVal(x, v.symbol_type().width) if not v.symbol_type().is_bool_type() else z3.BoolVal(bool(x)))
                                  for v, x in model.items()])


def form_of(pair, ib):
    """(choices, leaves) of the form the rule's paths belong to, or None"""
    for ch, lv in pair.arch.forms(None):
        if {p for p, _ in lv} == set(ib):
            return ch, lv
    return None


def forall(vs, f):
    return z3.ForAll(vs, f) if vs else f


def bv(x):
    return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(x) else x


def rule_spec(pair, S, ch, lv, ib, ob, const):
    """(conditions on the constants, universal variables, correctness matrix) of a rule; const: {path: z3 vector}.
    Free architecture inputs under a path constraint range over the allowed values only."""
    at = dict(lv)
    conds = []
    for p, v in const.items():
        conds.append(valid_code(at[p], v))
        if p in pair.constraints:
            conds.append(z3.Or([v == c for c in codes(at[p], pair.constraints[p])]))
    eq, free, cong, env = goal(pair, S, ch, {p: q for p, q in ib.items() if isinstance(q, tuple) and p not in const}, ob, const)
    hyp = list(cong)
    for p, v in env.items():
        if p in pair.constraints and p not in const:
            hyp.append(z3.Or([v == c for c in codes(at[p], pair.constraints[p])]))
    rule_spec.env = env
    return conds, [v for v in free], z3.Implies(z3.And(hyp), eq)


def ymap(enc, env):
    """[(universal variable of the formula, term of the specification)] by path; used to choose instances only"""
    at = {}
    for p, v in enc.am.input_varmap.items():
        if p in env and hasattr(v, 'value') and v.value.is_symbol():
            at[v.value] = env[p]
        elif p in enc.pair.constraints and p not in env and hasattr(v, 'value') and v.value.is_symbol():
            d = desc_at(enc.pair.arch, p)
            at[v.value] = z3.BitVecVal(int(codes(d, enc.pair.constraints[p])[0]), width(d))
    (_, il), = enc.pair.ir.forms(None)
    for p, d in il:
        v = enc.im.input_varmap.get(p)
        if v is not None:
            at[v.value] = z3.BitVec('I.%s' % (p,), width(d))
    for m, D in ((enc.am, enc.pair.arch), (enc.im, enc.pair.ir)):
        for p, _, _, outs in D.term()[2]:
            for v, o in zip(m.bb_outputs.get(p, ()), outs):
                at[v.value] = bv(o)
    out = []
    for y in enc.Y:
        if y in at:
            out.append((enc.z(y), at[y]))
        else:
            for v, t in at.items():
                if re.search(r'\b%s\W*_FORALL' % re.escape(str(v)), str(y)):
                    out.append((enc.z(y), t))
    return out


def to_y(y, t):
    return t == 1 if z3.is_bool(y) else t


def instance(vs, f, pairs):
    return z3.substitute(f, *[(y, to_y(y, t)) for y, t in pairs]) if pairs else f


class Query:
    """time limit of a query; statistics"""

    def __init__(self, ck, seconds=10):
        self.ck, self.limit = ck, seconds

    slow = 0

    @property
    def seconds(self):
        """little once some queries were not decided"""
        return self.limit if Query.slow < 4 else min(self.limit, 1.5)


def functions(e, acc=None, seen=None):
    """uninterpreted functions of a term"""
    acc, seen = {} if acc is None else acc, set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x.decl()
            todo += x.children()
    return acc


def table_of(m, f):
    """(entries, otherwise) of a function in a model"""
    def n(v):
        return int(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
    if not any(d.name() == f.name() for d in m.decls()):
        return (), 0
    fi = m[f]
    if not isinstance(fi, z3.FuncInterp):
        return (), 0
    ents = []
    for j in range(fi.num_entries()):
        e = fi.entry(j)
        ents.append((tuple(n(e.arg_value(k)) for k in range(e.num_args())), n(e.value())))
    o = fi.else_value()
    return tuple(ents), (0 if o is None or not (z3.is_bv_value(o) or z3.is_true(o) or z3.is_false(o)) else n(o))


def tabled(e, fs, m):
    """the term with its functions replaced by their tables"""
    subs = []
    for f in fs.values():
        ents, other = table_of(m, f)
        vs = [z3.Var(j, f.domain(j)) for j in range(f.arity())]

        def lit(x, srt):
            return z3.BoolVal(bool(x)) if srt.kind() == z3.Z3_BOOL_SORT else z3.BitVecVal(x, srt)
        r = lit(other, f.range())
        for xs, v in reversed(ents):
            r = z3.If(z3.And([a == lit(x, a.sort()) for a, x in zip(vs, xs)]), lit(v, f.range()), r)
        subs.append((f, r))
    return z3.substitute_funs(e, *subs) if subs else e


def for_all(q, vs, body, rest, first, rounds=60):
    """is (for all vs, body) with `rest` satisfiable?  Instances are added as models show which are missing, at
    the terms of `rest` that have the values of the counterexample where there are such.
    ('proved', None): no; ('refuted', model): yes, under the tables of the model; ('undecided', None)"""
    s = z3.Solver()
    s.set('timeout', int(q.seconds * 1000))
    s.add(*first, *rest)
    if not vs:
        s.add(body)
    whole = z3.And([body] + list(rest))
    fs = functions(whole)
    free = [v for v in consts(body) if not any(v.eq(y) for y in vs)]
    pool = terms(z3.And(list(rest)))
    rnd = random.Random(1)
    t0 = time.time()
    try:
        for _ in range(rounds):
            q.ck.stats['queries'] = q.ck.stats.get('queries', 0) + 1
            r = s.check()
            if r == z3.unsat:
                return 'proved', None
            if r != z3.sat or time.time() - t0 > q.seconds:
                return 'undecided', None
            m = s.model()
            if not vs:
                return 'refuted', m
            val = [(t, m.eval(tabled(t, fs, m), model_completion=True)) for t in pool]
            t = z3.Solver()
            t.set('timeout', int(q.seconds * 1000))
            b = z3.substitute(tabled(body, fs, m), *[(v, m.eval(v, model_completion=True)) for v in free])
            t.add(z3.Not(b))
            near = [z3.Or([y == v for x, v in val if v.sort() == y.sort()]) for y in vs if any(v.sort() == y.sort() for _, v in val)]
            r = t.check(z3.And(near)) if near else t.check()
            if r != z3.sat and near:
                r = t.check()
            if r == z3.unsat:
                return 'refuted', m
            if r != z3.sat:
                return 'undecided', None
            n = t.model()
            at = [(y, n.eval(y, model_completion=True)) for y in vs]
            choice = [[x for x, v in val if v.eq(c)] or [c] for _, c in at]
            total = 1
            for x in choice:
                total *= len(x)
            many = itertools.product(*choice) if total <= 16 else [[rnd.choice(x[:n]) for x in choice] for n in (1, 2, 3, 4, 4, 8, 8, 8, 16, 16, 99, 99)]
            for c in many:
                s.add(z3.substitute(body, *[(y, x) for (y, _), x in zip(at, c)]))
            s.add(z3.substitute(body, *at))
        return 'undecided', None
    finally:
        Query.slow += time.time() - t0 > q.seconds
        q.ck.stats['solver_s'] = q.ck.stats.get('solver_s', 0) + time.time() - t0


def terms(e):
    """constants and applications of uninterpreted functions in a term"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    out.sort(key=lambda x: x.num_args())
    return out + [x == 1 for x in out if z3.is_bv(x) and x.size() == 1] + [bv(x) for x in out if z3.is_bool(x)]


def consts(e):
    """free constants of a term"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def instances(make):
    try:
        return make()
    except (AttributeError, KeyError, z3.Z3Exception):
        return []


def consts_of(enc, ib, lv):
    """{path: z3 vector} of the constants of a rule template, fresh where they do not come from the formula"""
    at = dict(lv)
    out = {}
    for p, q in ib.items():
        if isinstance(q, tuple) and len(q) == 2 and q[0] == 'var' and not isinstance(q[1], str):
            out[p] = bv(enc.z(q[1]))
        elif isinstance(q, tuple) and len(q) == 2 and q[0] == 'fixed':
            out[p] = z3.BitVecVal(q[1], width(at[p]))
    return out


def strip(ib, consts):
    """the binding alone: {arch path: ir path or None}"""
    return {p: None if p in consts else q for p, q in ib.items()}


def soundness(ck, enc, L, fi, bi, bo, ib, ob, q, spec=None):
    """for all models of the formula with these indices the rule is correct and its constants are allowed"""
    S = enc.S
    ch, lv = form_of(enc.pair, ib)
    const = consts_of(enc, ib, lv)
    conds, free, corr = rule_spec(enc.pair, S, ch, lv, ib, ob, const)
    psi = enc.matrix(enc.index_model(fi, bi, bo))
    ys = enc.yvars()
    # variables of the constants that the formula quantifies carry arbitrary values
    clash = {v: z3.FreshConst(v.sort(), 'any') for v in ys}
    const2 = {p: z3.substitute(v, *clash.items()) if clash else v for p, v in const.items()}
    if any(not a.eq(b) for a, b in zip(const.values(), const2.values())):
        conds, free, corr = rule_spec(enc.pair, S, ch, lv, ib, ob, const2)
    env = rule_spec.env

    def inst():
        pairs = ymap(enc, env)
        # with equal outputs of all boxes what is assumed of them holds
        boxes = {str(v.value) for m in (enc.am, enc.im) for o in m.bb_outputs.values() for v in o}
        zero = [(y, z3.BitVecVal(0, t.size()) if str(y) in boxes else t) for y, t in pairs]
        return [instance(ys, psi, pairs)] + ([instance(ys, psi, zero)] if boxes else [])
    wrong = z3.Not(z3.And(conds + [corr]))
    st, m = for_all(q, ys, psi, [wrong], instances(inst))
    ck.obl('%s: rule %d.%d.%d is correct' % (L, fi, bi, bo), st, 'z3', '' if m is None else str(m)[:1500])
    if st == 'refuted' and spec is not None:
        ck.case('answer', spec, *enc.options, (fi, bi, bo), tables(z3.And(psi, wrong), m), model_values(enc, m, ib))


def tables(e, m):
    return tuple((n[3:] if n.startswith('uf.') else n, table_of(m, f)) for n, f in sorted(functions(e).items()))


def model_values(enc, m, ib):
    """values of the existential variables by path"""
    val = {}
    for v in enc.E:
        x = m.eval(enc.z(v), model_completion=True)
        val[v] = int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()
    out = []
    for p, v in enc.am.input_varmap.items():
        var = getattr(v, 'value', None)
        if var is not None and val.get(var):
            out.append(('in.' + pname(p), val[var]))
    for p, q in ib.items():
        if isinstance(q, tuple) and len(q) == 2 and q[0] == 'var' and val.get(q[1]):
            out.append(('const.' + pname(p), val[q[1]]))
    return tuple(sorted(out))


def pname(p):
    return '.'.join(getattr(k, '__name__', str(k)) for k in p)


def answer(pair, simple, ivar, choice, values):
    """solve() with a solver that answers a model of the asserted formula returns a correct rule"""
    from .harness import Skip
    enc = Encoding(pair, simple, ivar)
    if enc.phi is None:
        raise Skip
    values = dict(values)
    model = dict(enc.index_model(*choice))
    ib, _ = enc.template(*choice)
    for p, v in enc.am.input_varmap.items():
        var = getattr(v, 'value', None)
        if var is not None and var in enc.E and var not in model:
            model[var] = values.get('in.' + pname(p), 0)
    for p, q in ib.items():
        if isinstance(q, tuple) and len(q) == 2 and q[0] == 'var':
            model[q[1]] = values.get('const.' + pname(p), 0)
    for v in enc.E:
        model.setdefault(v, 0)
    s = z3.Solver()
    s.set('timeout', 30000)
    s.add(z3.Not(enc.matrix({v: x for v, x in model.items() if v in enc.E})))
    if s.check() != z3.unsat:
        raise Skip                      # not a model of the formula
    r, _ = enc.rule(model)
    check_rule(pair, r.ibinding, r.obinding)


def completeness(ck, enc, L, fi, bi, bo, ib, ob, q, spec=None):
    """for all constants for which the rule is correct, the formula has a model with these indices and constants"""
    S = enc.S
    ch, lv = form_of(enc.pair, ib)
    const = consts_of(enc, ib, lv)
    fixed = [p for p, v in ib.items() if isinstance(v, tuple) and v[0] == 'fixed' and len(v) == 2 and not enc.pair.arch.const(p)]
    inner = {p: v for p, v in const.items() if p not in fixed}
    conds, free, corr = rule_spec(enc.pair, S, ch, lv, {p: None if p in fixed else v for p, v in ib.items()}, ob, inner)
    known = dict(enc.index_model(fi, bi, bo))
    spec_vars = [v[1] for v in ib.values() if isinstance(v, tuple) and v[0] == 'var']
    psi = enc.matrix(known)
    known.update({v: None for v in spec_vars})
    # tags of the chosen form, any valid value for what is left
    wit = witness(enc, ch)
    sub = []
    for v in enc.E:
        if v in known:
            continue
        z = enc.z(v)
        x = wit.get(v, 0)
        sub.append((z, z3.BoolVal(bool(x)) if z3.is_bool(z) else z3.BitVecVal(x, z.size())))
    psi = z3.substitute(psi, *sub) if sub else psi
    env = rule_spec.env

    def inst():
        pairs = ymap(enc, env)
        back = {}
        for y, t in pairs:
            for f in free:
                if t.eq(f) or t.eq(bv(f)):
                    back[f] = y if z3.is_bool(f) else bv(y)
        # a free input under a path constraint: the matrix for each of the allowed values
        at = dict(lv)
        held = [(env[p], codes(at[p], enc.pair.constraints[p])) for p in enc.pair.constraints if p in env and p not in inner]
        each = [z3.substitute(corr, *[(t, z3.BitVecVal(int(c), t.size())) for (t, _), c in zip(held, cs)]) if held else corr
                for cs in itertools.product(*[c for _, c in held])]
        return [z3.substitute(c, *back.items()) if back else c for c in each]
    st, m = for_all(q, free, corr, conds + [z3.Not(psi)], instances(inst))
    ck.obl('%s: choice %d.%d.%d is found whenever it is correct' % (L, fi, bi, bo), st, 'z3', '' if m is None else str(m)[:1500])
    if st == 'refuted' and spec is not None:
        ck.case('lost', spec, *enc.options, tables(z3.And(corr, psi), m))


def lost(pair, simple, ivar):
    """a rule is returned if one exists (real solver)"""
    from .harness import Skip
    am, im = mappers(pair, simple, ivar)
    e = spec_exists(pair)
    if e is None:
        raise Skip
    r = real_solve(im, False, 10)
    assert r is not None or not e, 'no rule was found but one exists'


def witness(enc, ch):
    """{formula variable: value} for the tags of a form and a valid code of every leaf"""
    from peak.assembler.assembled_adt import _TAG
    out = {}
    D = enc.pair.arch
    for p, v in enc.am.input_varmap.items():
        var = getattr(v, 'value', None)
        if var is None or not var.is_symbol():
            continue
        if p and p[-1] is _TAG:
            d = desc_at(D, p[:-1])
            if p[:-1] in ch:
                from .mapcorpus import key
                i = next(i for i in range(len(d[1])) if key(_B, d, i) == ch[p[:-1]])
                out[var] = tags(d)[i]
        else:
            d = desc_at(D, p)
            if p in enc.pair.constraints:
                out[var] = codes(d, enc.pair.constraints[p])[0]
            elif d is not None and d[0] == 'enum':
                out[var] = enum_codes(d)[0]
    return out


def desc_at(D, path):
    from .isa import subs
    from .mapcorpus import key
    d = next(x for n, _, x in D.inputs if n == path[0])
    for k in path[1:]:
        if d[0] in ('prod', 'tup', 'tu'):
            d = dict(subs(d))[k]
        else:
            d = d[1][next(i for i in range(len(d[1])) if key(_B, d, i) == k)]
    return d


_tags = {}


def tags(d):
    """observed tags of the variants (that they are distinct is C04)"""
    if d not in _tags:
        from peak.assembler import Assembler
        from .isa import subs, values, tag_width
        A = Assembler(_B(d))
        _tags[d] = [int(A.assemble(_B.val(d, (i, values(x, 2)[0])))) & (1 << tag_width(d)) - 1 for i, (_, x) in enumerate(subs(d))]
    return _tags[d]


SPEC = Spec(tags)


def outside(ck, enc, L, q):
    """the formula has no model whose indices mean nothing"""
    ex = []
    for c in enc.choices():
        ex.append(z3.Not(z3.And([enc.z(v) == x for v, x in enc.index_model(*c).items()])))
    st, m = for_all(q, enc.yvars(), enc.z(enc.psi), ex, [enc.z(enc.psi)])
    ck.obl('%s: indices of every model mean a rule' % L, st, 'z3', '' if m is None else str(m)[:1500])


# ---- rules by the specification alone
def spec_choices(pair):
    """[(choices, leaves, input binding, output binding)] allowed by the property"""
    out = []
    obs = pair.output_bindings()
    for _, ch, lv, b in pair.input_bindings(SPEC):
        for ob in obs:
            out.append((ch, lv, b, ob))
    return out


def spec_consts(pair, lv, b):
    """{path: fresh vector} of the paths that take a constant"""
    return {p: z3.BitVec('const.%s' % (p,), width(d)) for p, d in lv if b[p] is None and pair.arch.const(p)}


def spec_exists(pair):
    """is there a correct rule within the constraints? True / False / None"""
    unknown = False
    for ch, lv, b, ob in spec_choices(pair):
        const = spec_consts(pair, lv, b)
        conds, free, corr = rule_spec(pair, SPEC, ch, lv, b, ob, const)
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(forall(free, corr), *conds)
        r = s.check()
        if r == z3.sat:
            return True
        unknown |= r != z3.unsat
    return None if unknown else False


def check_rule(pair, ibinding, obinding):
    """a returned rule (concrete constants) is well formed and correct; raises AssertionError otherwise"""
    from peak.mapper.utils import Unbound
    ib, const = {}, {}
    for q, p in ibinding:
        assert p not in ib, 'path %r bound twice' % (p,)
        ib[p] = None if q is Unbound or not isinstance(q, tuple) else q
        if q is not Unbound and not isinstance(q, tuple):
            const[p] = const_int(q)
    ob = {}
    for q, p in obinding:
        assert p not in ob, 'output %r bound twice' % (p,)
        ob[p] = None if q is Unbound else q
    f = form_of(pair, ib)
    assert f is not None, 'no form has the paths %r' % (sorted(map(str, ib)),)
    ch, lv = f
    at = dict(lv)
    assert any(l == lv and b == ib for _, _, l, b in pair.input_bindings(SPEC)), 'not a binding of the inputs: %r' % (ib,)
    assert ob in pair.output_bindings(), 'not a binding of the outputs: %r' % (ob,)
    want = {p for p, _ in lv if ib[p] is None and (pair.arch.const(p) or p in pair.constraints)}
    assert set(const) == want, 'constants for %r, expected for %r' % (sorted(map(str, const)), sorted(map(str, want)))
    for p, c in const.items():
        assert 0 <= c < 1 << width(at[p])
        assert at[p][0] != 'enum' or c in enum_codes(at[p]), 'constant %d of %r is not a member' % (c, p)
        if p in pair.constraints:
            assert c in codes(at[p], pair.constraints[p]), 'constant %d of %r is not allowed' % (c, p)
    conds, free, corr = rule_spec(pair, SPEC, ch, lv, ib, ob, {p: z3.BitVecVal(c, width(at[p])) for p, c in const.items()})
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(corr))
    r = s.check()
    assert r != z3.sat, 'the rule is wrong for %s' % s.model()
    return ch, lv, ib, ob, const


def real_solve(im, ext, seconds=4):
    """solve() with the real solver under limits; Skip if it gives up"""
    from peak.mapper import mapper as M
    from pysmt.exceptions import SolverReturnedUnknownResultError
    from .harness import Skip
    with vsmt.z3_limits(seconds):
        try:
            return im.solve('z3', external_loop=ext, itr_limit=200) if ext else im.solve('z3')
        except (M.LoopException, SolverReturnedUnknownResultError, z3.Z3Exception):
            raise Skip
