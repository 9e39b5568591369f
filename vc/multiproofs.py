"""Obligations about the formula of the multi-instruction mapper and the answer it makes of a model.

Multi() is run on architectures and instructions known only by their interface (outputs are uninterpreted functions of the
inputs); the call of the external loop, whose contract is C25, is recorded.  For every answer RR() can give, the formula
"for all y, phi(x, y)" is related for all x to the independent meaning of that answer: which instruction each step
executes, where each of its inputs comes from, and that the last step computes the outputs of the IR instruction."""
import inspect
import itertools
import time
import zlib
import z3
from . import smt as vsmt, mapcorpus as mc, mapproofs as mp
from .isa import width
from .mapproofs import bv


def spec_valid(d, v):
    from checks.c02 import spec_valid as f
    return f(mp.SPEC, d, v)


_opaque = {}


def named_outputs(outputs):
    """[(name or index, descriptor)]"""
    return [o if len(o) == 2 and isinstance(o[1], tuple) and isinstance(o[1][0], str) else (i, o) for i, o in enumerate(outputs)]


def opaque(role, inputs, outputs, tables=None):
    """any design of the interface; inputs [(name, descriptor)], const ones marked '*'; outputs [descriptor] or [(name, descriptor)]"""
    k = (role, inputs, outputs, tables)
    if k not in _opaque:
        outs = named_outputs(outputs)
        for _, d in list(inputs) + outs:
            mc._register(d)
        role += '%08x' % zlib.crc32(repr(k[:3]).encode())
        have = ', '.join(n.lstrip('*') for n, _ in inputs)
        body = 'return ' + ', '.join(mc.val("uf('%s.%s', %r, family, %s)" % (role, n, d, have), d) for n, d in outs)
        _opaque[k] = mc.design(list(inputs), list(outputs), body, tables=tables)
    return _opaque[k]


class Interface:
    def __init__(self, arch, ir, tables=None):
        """(inputs, outputs) of each"""
        self.A, self.I = opaque('A', *arch, tables=tables), opaque('I', *ir, tables=tables)

    # ---- the specification
    def wirings(self, n):
        """[{(step, input): ('ir', input) | ('out', step, output) | None}]"""
        A, I = self.A, self.I
        slots, choice = [], []
        for i in range(n):
            for f, c, d in A.inputs:
                if not c:
                    slots.append((i, f))
                    choice.append([None] + [('ir', g) for g, _, e in I.inputs if e == d] + [('out', j, g) for j in range(i) for g, e in A.outputs if e == d])
        out = []
        need = sorted(('ir', g) for g, _, _ in I.inputs)
        for src in itertools.product(*choice):
            if sorted(s for s in src if s and s[0] == 'ir') == need:
                out.append(dict(zip(slots, src)))
        return out

    def outputs(self):
        """[{IR output: architecture output}]"""
        ns = [n for n, _ in self.I.outputs]
        return [dict(zip(ns, c)) for c in itertools.product(*[[g for g, e in self.A.outputs if e == d] for _, d in self.I.outputs])]

    def execute(self, n, wiring, codes, ir, free):
        """[(inputs, outputs)] of the steps, as vectors"""
        steps = []
        for i in range(n):
            vals = {}
            for f, c, d in self.A.inputs:
                s = None if c else wiring[(i, f)]
                vals[f] = codes[i] if c else free[(i, f)] if s is None else ir[s[1]] if s[0] == 'ir' else steps[s[1]][1][s[2]]
            steps.append((vals, self.A.whole_at(vals)))
        return steps

    def computes(self, n, steps, ob, ir):
        want = self.I.whole_at(ir)
        return z3.And([want[o] == steps[n - 1][1][a] for o, a in ob.items()])

    def correct(self, n, wiring, ob, codes, pre):
        """(variables, matrix) of: for all inputs the steps compute the outputs"""
        ir = {g: z3.BitVec('%s.%s' % (pre, g), width(d)) for g, _, d in self.I.inputs}
        free = {(i, f): z3.BitVec('%s.%d.%s' % (pre, i, f), width(d)) for i in range(n) for f, c, d in self.A.inputs if not c and wiring[(i, f)] is None}
        steps = self.execute(n, wiring, codes, ir, free)
        return ir, free, steps, self.computes(n, steps, ob, ir)


class Refused(Exception):
    """no wiring or no output binding"""


class Encoding:
    """what Multi() hands to the external loop, and its reading of models"""

    def __init__(self, itf, n, ivar, real):
        from peak.mapper import multi as M, mapper, index_var
        self.itf, self.n, self.M = itf, n, M
        rec = []
        sig = inspect.signature(mapper.external_loop_solve)

        def loop(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            rec.append(b.arguments)
            return 'loop'
        saved = M.external_loop_solve
        mc.CALLS = calls = []
        M.external_loop_solve = loop
        try:
            try:
                solve = M.Multi(itf.A.fc, itf.I.fc, n, IVar=getattr(index_var, ivar), use_real=real)
            except ValueError as e:
                raise Refused(str(e))
            assert solve() == 'loop'
        finally:
            M.external_loop_solve = saved
            mc.CALLS = None
        a, = rec
        self.rr, self.info = a['rr_from_solver'], a['irmapper']
        self.y = list(dict.fromkeys(a['y']))
        self.phi = vsmt.to_z3(a['phi'])
        self.yz = [vsmt.to_z3(v) for v in self.y]
        inames = [f for f, _, _ in itf.I.inputs]
        anames = [f for f, _, _ in itf.A.inputs]
        ics = [ts for name, ts in calls if name[0] == 'I']
        acs = [ts for name, ts in calls if name[0] == 'A']
        no, na = len(itf.I.outputs), len(itf.A.outputs)
        assert len(ics) == no and len(acs) == n * na and all(t.is_symbol() for ts in ics + acs for t in ts)
        self.irv = dict(zip(inames, ics[0]))
        self.av = [dict(zip(anames, acs[i * na])) for i in range(n)]
        self.const = next(f for f, c, _ in itf.A.inputs if c)
        self.code_d = next(d for _, c, d in itf.A.inputs if c)
        xs = [v for v in a['phi'].get_free_variables() if v not in set(self.y) and not v.symbol_type().is_function_type()]
        ops = [v[self.const] for v in self.av]
        log = self.read({})[1]
        self.bind, = [v for v in log if v not in ops]
        self.rest = [v for v in xs if v is not self.bind and v not in ops]
        # steps of the answer -> instances of the architecture
        m = {v: k for k, v in enumerate(ops)}

    def read(self, model):
        """((wiring, codes) or None if the index means nothing, variables read) of the answer for a model"""
        log = dict(asserted=[], solved=0, read=set())
        solver = mp.Fake(True, model, log)
        M = self.M
        printed, bindings = [], []
        missing = object()
        saved = M.__dict__.get('print', missing), M.pretty_print_binding
        M.print = lambda *a, **k: printed.append(a)
        M.pretty_print_binding = lambda b, *a, **k: bindings.append(list(b))
        try:
            self.rr(solver, self.info)()
        except ValueError:
            return None, log['read']
        finally:
            M.pretty_print_binding = saved[1]
            if saved[0] is missing:
                del M.print
            else:
                M.print = saved[0]
        from peak.mapper.utils import Unbound
        from hwtypes import Bit, BitVector
        codes = [x for a in printed for x in a if isinstance(x, (list, tuple)) and x and all(isinstance(c, (Bit, BitVector)) for c in x)]
        assert len(bindings) == self.n and len(codes) == self.n and all(len(c) == 1 for c in codes), 'answer not understood: %r' % (printed,)
        w = {}
        for i, b in enumerate(bindings):
            for src, (k, j, f) in b:
                assert k == 'Arch_in' and j == i and (i, f) not in w
                w[(i, f)] = None if src is Unbound else ('ir', src[1]) if src[0] == 'IR_in' else ('out', src[1], src[2])
        return (w, [mp.const_int(c[0]) for c in codes]), log['read']

    def codes(self):
        """candidate values of the index"""
        w = vsmt.to_z3(self.bind).size()
        return range(1 << w) if w <= 9 else sorted({0, 3} | {1 << i for i in range(w)} | set(range(min(1 << w, 1024))))

    def answers(self):
        """{index value: wiring}"""
        out = {}
        for c in self.codes():
            r, _ = self.read({self.bind: c})
            if r is not None:
                out[c] = r[0]
        return out

    def order(self):
        """instance of the architecture whose instruction is reported for each step"""
        ops = [v[self.const] for v in self.av]
        good = next(c for c in self.codes() if self.read({self.bind: c})[0] is not None)
        out = [[] for _ in range(self.n)]
        for k, v in enumerate(ops):
            r, _ = self.read({self.bind: good, v: 1})
            for i, c in enumerate(r[1]):
                if c == 1:
                    out[i].append(k)
        return [o[0] if len(o) == 1 else None for o in out]

    def width_of(self, i):
        return vsmt.to_z3(self.av[i][self.const])

    # ---- y as terms
    def at(self, wiring, codes, ir, free, steps):
        """pairs (variable, term) of y for an execution"""
        pairs = [(self.irv[g], v) for g, v in ir.items()]
        for i in range(self.n):
            for f, c, _ in self.itf.A.inputs:
                if not c:
                    pairs.append((self.av[i][f], steps[i][0][f]))
        for v, (i, g) in self.fakes().items():
            pairs.append((v, steps[i][1][g]))
        return [(vsmt.to_z3(v), mp.to_y(vsmt.to_z3(v), t)) for v, t in pairs]

    def fakes(self):
        """copies of outputs among y: variable -> (instance, output), by the equations of the formula"""
        if not hasattr(self, '_fakes'):
            known = {v.get_id() for v in [vsmt.to_z3(x) for m in [self.irv] + self.av for x in m.values()]}
            left = {z.get_id(): v for v, z in zip(self.y, self.yz) if z.get_id() not in known}
            outs = {}
            for i in range(self.n):
                args = {f: bv(vsmt.to_z3(v)) for f, v in self.av[i].items()}
                for g, t in self.itf.A.whole_at(args).items():
                    outs[z3.simplify(t).get_id()] = (i, g), t
            self._fakes = {}
            todo, seen = [self.phi], set()
            while todo and left:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_eq(e):
                    for a, b in (e.children(), e.children()[::-1]):
                        k = z3.simplify(bv(b)).get_id()
                        if a.get_id() in left and k in outs:
                            self._fakes[left[a.get_id()]] = outs[k][0]
                todo += e.children()
        return self._fakes


def tables_of(e, m):
    return tuple(sorted((k, mp.table_of(m, f)) for k, f in mp.functions(e).items()))


def ints(m, vs):
    out = []
    for v in vs:
        x = m.eval(vsmt.to_z3(v), model_completion=True)
        out.append(int(z3.is_true(x)) if z3.is_bool(x) else x.as_long())
    return tuple(out)


def op(enc, k):
    return bv(vsmt.to_z3(enc.av[k][enc.const]))


def soundness(ck, enc, L, code, wiring, order, q, case):
    itf, n = enc.itf, enc.n
    bind = vsmt.to_z3(enc.bind) == code
    codes = [op(enc, k) for k in order]
    rest, first = [bind], []
    for j, ob in enumerate(itf.outputs()):
        ir, free, steps, eq = itf.correct(n, wiring, ob, codes, 's%d' % j)
        rest.append(z3.Not(eq))
        first.append(z3.substitute(enc.phi, *enc.at(wiring, codes, ir, free, steps)))
    r, m = mp.for_all(q, enc.yz, enc.phi, rest, first)
    ck.obl(L + ': correct whenever it is the answer', r, 'z3', '' if m is None else str(m)[:400])
    if r == 'refuted':
        case('answer', m, z3.And([enc.phi] + rest))
    s = z3.Solver()
    s.set('timeout', int(q.seconds * 1000))
    s.add(bind, enc.phi, z3.Not(z3.And([spec_valid(enc.code_d, c) for c in codes])))
    r = s.check()
    ck.obl(L + ': its instructions are valid', 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', 'z3')
    if r == z3.sat:
        r, m = mp.for_all(q, enc.yz, enc.phi, [bind, z3.Not(z3.And([spec_valid(enc.code_d, c) for c in codes]))], [enc.phi])
        if r == 'refuted':
            case('answer', m, enc.phi)


def completeness(ck, enc, L, code, wiring, order, q, case, over=lambda: False):
    itf, n = enc.itf, enc.n
    codes = [op(enc, k) for k in order]
    bind = [vsmt.to_z3(enc.bind) == code]
    valid = [spec_valid(enc.code_d, c) for c in codes]
    for j, ob in enumerate(itf.outputs()):
        ir, free, steps, eq = itf.correct(n, wiring, ob, codes, 'c')
        own = {(i, f): bv(vsmt.to_z3(enc.av[i][f])) for i in range(n) for f, c, _ in itf.A.inputs if not c}
        here = [(v, bv(vsmt.to_z3(enc.irv[g]))) for g, v in ir.items()] + [(v, own[(order[k[0]], k[1])]) for k, v in free.items()]
        vs = list(ir.values()) + list(free.values())
        first = [z3.substitute(eq, *here)] if here else [eq]
        if over():
            return
        res, t0 = [], time.time()
        few = any(not v.symbol_type().is_bool_type() and v.symbol_type().width > 8 for v in enc.rest)
        for rest in guesses(enc, j, len(itf.outputs())):
            if len(res) > 1 and time.time() - t0 > 15:
                few = True
                break
            r, m = mp.for_all(q, vs, eq, bind + valid + [vsmt.to_z3(v) == (bool(x) if z3.is_bool(vsmt.to_z3(v)) else x) for v, x in rest] + [z3.Not(enc.phi)], first)
            res.append((r, m))
            if r == 'proved' or [x for x, _ in res].count('undecided') > 2:
                break
        r = 'proved' if any(r == 'proved' for r, _ in res) else 'undecided' if few or any(r == 'undecided' for r, _ in res) else 'refuted'
        ck.obl('%s, outputs %d: found whenever it is correct' % (L, j), r, 'z3', '')
        if r == 'refuted' or few and r == 'undecided':
            for r, m in res:
                if m is not None:
                    case('lost', m, z3.And(eq, enc.phi))


def guesses(enc, j, n):
    """values of the other existential variables, the likely one first"""
    sizes = [1 if v.symbol_type().is_bool_type() else v.symbol_type().width for v in enc.rest]
    lists = [[x for x in dict.fromkeys([j, 1 << j]) if x < 1 << s] + [x for x in (range(1 << s) if s <= 8 else [1 << k for k in range(s)] + [0, n]) if x not in (j, 1 << j)] for s in sizes]
    for c in itertools.product(*lists):
        yield list(zip(enc.rest, c))


# ---- with the real solver, or particular models
def judge(itf, n, answer, seconds=20):
    """is the answer (wiring, codes) valid and correct"""
    w, codes = answer
    assert w in itf.wirings(n), 'not a wiring: %r' % (w,)
    d = next(d for _, c, d in itf.A.inputs if c)
    cs = [z3.BitVecVal(c, width(d)) for c in codes]
    for c in cs:
        assert z3.is_true(z3.simplify(spec_valid(d, c))), 'not an instruction: %s' % c
    for ob in itf.outputs():
        s = z3.Solver()
        s.set('timeout', seconds * 1000)
        s.add(z3.Not(itf.correct(n, w, ob, cs, 'j')[3]))
        r = s.check()
        if r == z3.unsat:
            return
        if r == z3.unknown:
            from .harness import Skip
            raise Skip
    raise AssertionError('instructions %r wired as %r do not compute the instruction' % (codes, w))


def exists(itf, n, limit=20000):
    """(wiring, codes) that is correct, None if there is none; Skip if not decided"""
    from .harness import Skip
    d = next(d for _, c, d in itf.A.inputs if c)
    w = width(d)
    if w > 6:
        raise Skip
    valid = [c for c in range(1 << w) if z3.is_true(z3.simplify(spec_valid(d, z3.BitVecVal(c, w))))]
    count, t0 = 0, time.time()
    for wiring in itf.wirings(n):
        for ob in itf.outputs():
            codes = [z3.BitVec('code%d' % i, w) for i in range(n)]
            ir, free, steps, eq = itf.correct(n, wiring, ob, codes, 'e')
            vs = list(ir.values()) + list(free.values())
            for cs in itertools.product(valid, repeat=n):
                count += 1
                if count > limit or time.time() - t0 > 25:
                    raise Skip
                f = z3.substitute(eq, *[(c, z3.BitVecVal(x, w)) for c, x in zip(codes, cs)])
                ok = True
                for k in (0, 1, 5, 2):  # cheap refutations first
                    g = z3.simplify(z3.substitute(f, *[(v, z3.BitVecVal((k * (7 * i + 3)) % (1 << v.size()), v.size())) for i, v in enumerate(vs)]))
                    if z3.is_false(g):
                        ok = False
                        break
                if not ok:
                    continue
                s = z3.Solver()
                s.set('timeout', 10000)
                s.add(z3.Not(f))
                r = s.check()
                if r == z3.unsat:
                    return wiring, list(cs)
                if r == z3.unknown:
                    raise Skip
    return None
