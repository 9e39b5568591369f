"""The external exists-forall loop returns only real answers.

The real external_loop_solve is executed with a solver known only by its contract, over an uninterpreted
formula phi(x, y).  At every call of the solver the set of assertions is cut: the assertions added so far must
follow from "phi(x, y) for all y" (the loop invariant), and an arbitrary set satisfying the invariant
replaces them.  On every path a returned result must come from a model x with phi(x, y) for all y, and None
must imply that no such x exists; any number of iterations, any limit, any initial vectors."""
import ast
import inspect
import itertools
import random
import textwrap
import z3
import pysmt.shortcuts as smt
from pysmt.typing import BVType, BOOL
from vc import sym
from vc.harness import limit as time_limit

LEVEL = 'proof'
V = z3.DeclareSort('value')


class Stop(BaseException):
    pass


class Var:
    def __init__(self, name, width):
        self.c = z3.Const(name, V)
        self.name, self.width = name, width

    def get_type(self):
        return BVType(self.width) if self.width else BOOL

    def is_symbol(self):
        return True

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o


class Formula:
    """a formula over the variables; every operation is the specified one"""

    def __init__(self, w, e):
        self.w, self.e = w, e

    def get_free_variables(self):
        cs = set()
        todo = [self.e]
        while todo:
            t = todo.pop()
            if z3.is_const(t):
                cs.add(t.decl().name())
            todo += t.children()
        return frozenset(v for v in self.w.vars if v.name in cs)

    def substitute(self, m, *a, **k):
        return Formula(self.w, z3.substitute(self.e, *[(v.c, x) for v, x in m.items()]))

    def simplify(self):
        return self

    def is_true(self):
        return z3.is_true(self.e)

    def is_false(self):
        return z3.is_false(self.e)


class World:
    def __init__(self, ck, c, L, xs, ys, max_solves):
        self.ck, self.c, self.L = ck, c, L
        self.xs, self.ys = xs, ys
        self.vars = xs + ys
        self.Phi = z3.Function('phi', *[V for _ in self.vars], z3.BoolSort())
        self.phi = Formula(self, self.Phi(*[v.c for v in self.vars]))
        self.solves = 0
        self.max_solves = max_solves
        self.n = itertools.count()

    def forall_y(self, xv):
        """phi(xv, y) for all y"""
        b = [z3.Const('q%d' % i, V) for i in range(len(self.ys))]
        e = self.Phi(*xv, *b)
        return z3.ForAll(b, e) if b else e

    def good(self):
        """some x works for all y"""
        b = [z3.Const('r%d' % i, V) for i in range(len(self.xs))]
        e = self.forall_y(b)
        return z3.Exists(b, e) if b else e

    def fresh(self, v):
        return z3.Const('%s_%d' % (v.name, next(self.n)), V)


def closed(w, fs, q):
    """the formulas hold for some / for no value of the free variables"""
    e = z3.And([f.e for f in fs] + [z3.BoolVal(True)])
    vs = [v.c for v in w.vars]
    return z3.Exists(vs, e) if q else z3.ForAll(vs, z3.Not(e))


class SolverStub:
    def __init__(self, w):
        self.w = w
        self.added = []
        self.inv = None             # predicate over x: the assertions before the last cut
        self.model = None
        self.stack = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_assertion(self, f, *a, **k):
        self.added.append(f if isinstance(f, Formula) else Formula(self.w, f))
        self.model = None

    def add_assertions(self, fs):
        for f in fs:
            self.add_assertion(f)

    def solve(self, assumptions=None):
        if assumptions:
            raise sym.Unsupported('assumptions')
        w, c = self.w, self.w.c
        # invariant: an x that works for all y satisfies every assertion
        xv = [v.c for v in w.xs]
        ok = z3.And([f.e for f in self.added] + [z3.BoolVal(True)])
        if w.ys:
            ok = z3.Exists([v.c for v in w.ys], ok)
        inv = z3.Implies(w.forall_y(xv), ok)
        inv = z3.ForAll(xv, inv) if xv else inv
        holds = c.proves(inv)
        w.ck.obl(w.L + ': assertions keep every real answer', 'proved' if holds else 'undecided', 'z3',
                 'no cut here: the first iterations are explored exactly')
        w.solves += 1
        if w.solves > w.max_solves:
            raise Stop()
        if not holds:
            return self.check()
        # cut: arbitrary assertions satisfying the invariant
        A = z3.Function('asserted_%d' % next(w.n), *[V for _ in w.xs], z3.BoolSort())
        e = A(*xv)
        inv = z3.Implies(w.forall_y(xv), e)
        c.assume(z3.ForAll(xv, inv) if xv else inv)
        self.added = [Formula(w, e)]
        return self.check()

    def check(self):
        w, c = self.w, self.w.c
        if c.decide([('sat', True), ('unsat', True)]) == 'sat':
            self.model = {v: w.fresh(v) for v in w.vars}
            c.assume(z3.substitute(z3.And([f.e for f in self.added] + [z3.BoolVal(True)]), *[(v.c, self.model[v]) for v in w.vars]))
            return True
        c.assume(closed(w, self.added, False))
        self.model = None
        return False

    is_sat = None

    def get_value(self, v):
        if self.model is None:
            raise Exception('no model')
        return self.model[v]

    def get_py_value(self, v):
        return self.get_value(v)

    def get_model(self):
        return Model(dict(self.model))


class Model:
    def __init__(self, m):
        self.m = m

    def get_value(self, v, model_completion=True):
        return self.m[v]

    def __getitem__(self, v):
        return self.m[v]


class SMT:
    """the pysmt operations the loop may use"""

    def __init__(self, w):
        self.w = w

    def Solver(self, *a, **k):
        return SolverStub(self.w)

    def Bool(self, b):
        return Formula(self.w, z3.BoolVal(b))

    def TRUE(self):
        return self.Bool(True)

    def BV(self, *a):
        return self.w.fresh(Var('bv', 1))

    def Not(self, f):
        return Formula(self.w, z3.Not(f.e))

    def And(self, *fs):
        fs = fs[0] if len(fs) == 1 and not isinstance(fs[0], Formula) else fs
        return Formula(self.w, z3.And([f.e for f in fs]))

    def Or(self, *fs):
        fs = fs[0] if len(fs) == 1 and not isinstance(fs[0], Formula) else fs
        return Formula(self.w, z3.Or([f.e for f in fs]))

    def get_model(self, f, *a, **k):
        w, c = self.w, self.w.c
        if c.decide([('model', True), ('no model', True)]) == 'model':
            m = {v: w.fresh(v) for v in w.vars}
            c.assume(z3.substitute(f.e, *[(v.c, m[v]) for v in w.vars]))
            return Model(m)
        c.assume(closed(w, [f], False))
        return None

    def is_sat(self, f, *a, **k):
        return self.get_model(f) is not None

    def is_valid(self, f, *a, **k):
        return self.get_model(self.Not(f)) is None

    def get_free_variables(self, f):
        return f.get_free_variables()

    def substitute(self, f, m):
        return f.substitute(m)

    def simplify(self, f):
        return f


CHANGERS = {'append', 'add', 'update', 'extend', 'insert', 'pop', 'popitem', 'remove', 'discard', 'clear', 'setdefault', 'appendleft'}


def carried(fn):
    """what an iteration of the solving loop hands to the next: names assigned in it and read before, objects from
    outside that it changes, the iterator; None if there is not exactly one such loop"""
    try:
        t = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    except Exception:
        return None
    loops = [n for n in ast.walk(t) if isinstance(n, (ast.While, ast.For))
             and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'solve' for c in ast.walk(n))]
    if len(loops) != 1:
        return None
    L = loops[0]
    solvers = {n.id for w in ast.walk(t) if isinstance(w, ast.With) for i in w.items if i.optional_vars is not None
               for n in ast.walk(i.optional_vars) if isinstance(n, ast.Name)}
    stored = {n.id for n in ast.walk(L) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    out, defined = set(), set()

    def reads(node):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stored and n.id not in defined and isinstance(n.ctx, ast.Load):
                out.add(n.id)

    def go(body):
        for s in body:
            if isinstance(s, ast.AugAssign):
                reads(s.value)
                if isinstance(s.target, ast.Name) and s.target.id not in defined:
                    out.add(s.target.id)
            elif isinstance(s, ast.Assign):
                reads(s.value)
                for tg in s.targets:
                    for n in ast.walk(tg):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            defined.add(n.id)
            elif isinstance(s, ast.If):
                reads(s.test)
                before = set(defined)
                go(s.body)
                a = set(defined)
                defined.clear()
                defined.update(before)
                go(s.orelse)
                defined.intersection_update(a)
            elif isinstance(s, ast.For):
                reads(s.iter)
                before = set(defined)
                defined.update(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
                go(s.body)
                defined.clear()
                defined.update(before)
                go(s.orelse)
            else:
                reads(s)
        for s in body:
            for n in ast.walk(s):
                o = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGERS:
                    o = n.func.value
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    o = n.value
                elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    o = n.value
                if isinstance(o, ast.Name) and o.id not in stored and o.id not in solvers:
                    out.add(o.id)
    if isinstance(L, ast.For):
        out.add('(iterator)')
        defined.update(n.id for n in ast.walk(L.target) if isinstance(n, ast.Name))
    else:
        reads(L.test)
    go(L.body)
    comp = {n.id for g in ast.walk(L) if isinstance(g, ast.comprehension) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    return out - comp


def prove(ck, nx, ny, widths, limit, init, K):
    from peak.mapper import mapper as M
    L = '%d exists, %d forall variables, limit %s, %d initial vectors' % (nx, ny, limit, init)
    seen = set()

    def go(c):
        xs = [Var('x%d' % i, widths[i % len(widths)]) for i in range(nx)]
        ys = [Var('y%d' % i, widths[(i + 1) % len(widths)]) for i in range(ny)]
        w = World(ck, c, L, xs, ys, K)
        token, result = object(), object()
        calls = []

        def rr(solver, irmapper):
            calls.append(1)
            ok = isinstance(solver, SolverStub) and solver.model is not None and irmapper is token
            ck.prove(L + ': the result is made from the solver and the mapper given', c, ok)
            if ok:
                ck.prove(L + ': a result only for an x that works for all y', c, w.forall_y([solver.model[v] for v in xs]))
            return result
        old, ov = M.smt, M._int_to_pysmt
        M.smt = SMT(w)
        M._int_to_pysmt = lambda x, sort: w.fresh(Var('init', 1))
        lim = {'none': None, 'any': sym.SInt(c.fresh_int('limit'))}.get(limit, limit)
        try:
            r = M.external_loop_solve(list(ys), w.phi, 'BV', lim, 'z3', token, init, rr_from_solver=rr)
        except M.LoopException:
            seen.add('gave up')
            ck.prove(L + ': gives up only with a limit', c, lim is not None)
            return True
        except Stop:
            seen.add('next iteration')
            return True
        finally:
            M.smt, M._int_to_pysmt = old, ov
        if calls:
            seen.add('result')
            ck.prove(L + ': the result is returned', c, r is result)
        else:
            seen.add('none')
            ck.prove(L + ': no other result', c, r is None)
            ck.prove(L + ': none only when no x works for all y', c, z3.Not(w.good()))
        return True
    for c, (k, r) in sym.explore(go, stats=ck.stats, max_paths=4000):
        if k == 'raise':
            ck.obl(L + ': no exception', 'undecided', 'engine', repr(r)[:600])
    ck.obl(L + ': outcomes reached', 'proved' if seen >= {'result', 'none'} else 'undecided', 'coverage', repr(sorted(seen)))


# ---- concrete --------------------------------------------------------------

def mk(t, vs):
    """formula of a tree over variables"""
    k = t[0]
    if k == 'v':
        return vs[t[1]]
    if k == 'c':
        return smt.BV(t[1], t[2])
    a = [mk(s, vs) for s in t[1:]]
    return {'and': smt.And, 'or': smt.Or, 'not': smt.Not, 'eq': smt.Equals, 'iff': smt.Iff, 'ult': smt.BVULT, 'add': smt.BVAdd,
            'xor': smt.BVXor, 'band': smt.BVAnd, 'bor': smt.BVOr, 'neg': smt.BVNot, 'ite': smt.Ite, 'implies': smt.Implies}[k](*a)


def ev(t, env, ws):
    k = t[0]
    if k == 'v':
        return env[t[1]]
    if k == 'c':
        return t[1]
    a = [ev(s, env, ws) for s in t[1:]]
    m = 3
    return {'and': lambda *x: all(x), 'or': lambda *x: any(x), 'not': lambda x: not x, 'eq': lambda x, y: x == y, 'iff': lambda x, y: x == y,
            'ult': lambda x, y: x < y, 'add': lambda x, y: (x + y) & m, 'xor': lambda x, y: x ^ y, 'band': lambda x, y: x & y,
            'bor': lambda x, y: x | y, 'neg': lambda x: ~x & m, 'ite': lambda c, x, y: x if c else y,
            'implies': lambda x, y: (not x) or y}[k](*a)


def loop(tree, widths, nx, limit, init):
    """verdict of the real loop against evaluation of the formula; variables have 2 bits (0: a Boolean)"""
    from peak.mapper import mapper as M
    vs = [smt.FreshSymbol(BVType(w) if w else BOOL) for w in widths]
    phi = mk(tree, vs)
    xs, ys = vs[:nx], vs[nx:]
    dom = [range(1 << w) if w else (False, True) for w in widths]
    good = [x for x in itertools.product(*dom[:nx]) if all(ev(tree, x + y, widths) for y in itertools.product(*dom[nx:]))]
    token = object()
    random.seed(7)

    def rr(solver, im):
        assert im is token
        return tuple(solver.get_py_value(v) for v in xs), True
    try:
      with time_limit(8):
        r = M.external_loop_solve(ys, phi, maxloops=limit, solver_name='z3', irmapper=token, num_initial_vectors=init, rr_from_solver=rr)
    except M.LoopException:
        assert limit is not None and limit <= 40, 'gave up'
        return
    if r is None:
        assert not good, 'no result, but %r works for all values' % (good[0],)
    else:
        assert r[1] is True and len(r) == 2
        x = tuple(r[0])
        # a variable that does not occur may have any value
        assert x in good, 'result %r does not work for all values' % (x,)


CASES = dict(loop=loop)


def random_tree(rnd, widths, d):
    """a Boolean tree"""
    bools = [i for i, w in enumerate(widths) if not w]
    vecs = [i for i, w in enumerate(widths) if w]

    def vec(d):
        k = rnd.randrange(8 if d else 2)
        if k == 0 or (not d and rnd.random() < .7) or not vecs:
            return ('v', rnd.choice(vecs)) if vecs else ('c', rnd.randrange(4), 2)
        if k == 1:
            return ('c', rnd.randrange(4), 2)
        if k == 2:
            return ('neg', vec(d - 1))
        if k == 3:
            return ('ite', boo(d - 1), vec(d - 1), vec(d - 1))
        return (rnd.choice(['add', 'xor', 'band', 'bor']), vec(d - 1), vec(d - 1))

    def boo(d):
        k = rnd.randrange(8 if d else 2)
        if bools and (k == 0 or not d):
            return ('v', rnd.choice(bools))
        if k <= 2 or not d:
            return (rnd.choice(['eq', 'eq', 'ult']), vec(max(d - 1, 0)), vec(max(d - 1, 0)))
        if k == 3:
            return ('not', boo(d - 1))
        return (rnd.choice(['and', 'or', 'implies', 'iff', 'or']), boo(d - 1), boo(d - 1))
    return boo(d)


def run(ck):
    from peak.mapper import mapper as M
    ck.under_contract('peak.mapper.mapper.external_loop_solve', 'peak.mapper.mapper._gen_initial/_gen_random')
    ck.trust('contract of the solver: solve() decides the assertions and get_value/get_model give a model; substitute and simplify preserve meaning',
             'values of initial vectors are arbitrary constants (their construction is run in the concrete cases)')
    ck.bound('number of quantified variables 0..2 each (phi uninterpreted); iterations and limit unbounded by the cut')
    car = carried(M.external_loop_solve)
    ck.obl('the loop carries only its counter besides the solver', 'proved' if car is not None and len(car) <= 1 else 'undecided', 'evaluation',
           'loop-carried names %r: the proof covers the first iterations only' % (car,))
    for nx, ny in [(1, 1), (2, 2), (0, 1), (1, 0), (2, 1), (1, 2)]:
        for limit in ('none', 'any', 0, 5):
            for init in (-1, 0, 2):
                if (nx, ny) not in ((1, 1), (2, 2)) and (init == 0 or limit in (0, 5)):
                    continue
                ck.section('%d/%d %s %s' % (nx, ny, limit, init), lambda: prove(ck, nx, ny, (4, 0, 1), limit, init, 4))
    rnd = random.Random(ck.seed)
    fixed = [(('v', 0), (0, 0), 1), (('iff', ('v', 0), ('v', 1)), (0, 0), 1), (('eq', ('v', 0), ('v', 1)), (2, 2), 1),
             (('or', ('not', ('eq', ('v', 0), ('v', 1))), ('eq', ('v', 1), ('c', 3, 2))), (2, 2), 1),
             (('eq', ('band', ('v', 0), ('v', 1)), ('v', 1)), (2, 2), 1), (('eq', ('add', ('v', 0), ('v', 1)), ('v', 1)), (2, 2), 1),
             (('ult', ('v', 0), ('v', 1)), (2, 2), 1), (('not', ('ult', ('v', 1), ('v', 0))), (2, 2), 1)]
    tasks = []
    n = 600 if ck.thorough else 130
    for i in range(n):
        widths = tuple(rnd.choice([2, 2, 0]) for _ in range(rnd.randrange(1, 5)))
        fixed.append((random_tree(rnd, widths, 3), widths, rnd.randrange(0, len(widths) + 1)))

    def some(part):
        for i, (t, ws, nx) in enumerate(part):
            for limit, init in [(None, -1), (20, 1), (i % 4, -1), (None, 2)] if i < 10 else [(None, -1), ((0, 1, 2, 20)[i % 4], i % 3 - 1)]:
                ck.case('loop', t, ws, nx, limit, init)
    ck.parallel([('concrete %d' % i, lambda i=i: some(fixed[i::8])) for i in range(8)])
