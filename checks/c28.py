"""Multi-instruction mappings.

The formula of the real Multi() for architectures and instructions that are uninterpreted functions, and the answer the
real RR() makes of a model, are related to an independent meaning of executing N wired instructions, by z3."""
import random
import time
import z3
from vc import mapcorpus as mc, mapproofs as mp, multiproofs as mm, smt as vsmt
from vc.harness import Skip
from vc.isa import width
from vc.mapcorpus import W, BIT, B1, OP, E4, INST, SUM, TU, PT, DATA

LEVEL = 'translation_validation'
B2, S3, TP = ('bv', 2), ('s', 3), ('tup', (BIT, B1))

#(architecture inputs, outputs), (IR inputs, outputs), numbers of instructions
FACES = {
    'alu3': (((('*op', OP), ('x', W), ('y', W)), (W,)), ((('a', W), ('b', W), ('c', W)), (W,)), (2,)),
    'alu2': (((('*op', OP), ('x', W), ('y', W)), (W,)), ((('a', W), ('b', W)), (W,)), (1, 2, 3)),
    'alu1': (((('*i', INST), ('x', W)), (W, BIT)), ((('a', W),), (W,)), (1, 2, 3)),
    'alu0': (((('*i', B1), ('x', B2)), (B2,)), ((('a', B2),), (B2,)), (1, 2, 3, 4)),
    'flags': (((('*op', B1), ('x', W), ('b', BIT)), (W, BIT)), ((('x', W), ('b', BIT)), (BIT, W)), (1, 2)),
    'named': (((('x', W), ('*op', E4), ('y', W)), (('lo', W), ('hi', W))), ((('p', W), ('q', W)), (('r', W),)), (1, 2)),
    'pairs': (((('*op', OP), ('p', PT)), (PT,)), ((('s', PT),), (PT,)), (1, 2, 3)),
    'struct': (((('*op', B1), ('p', PT), ('t', TP)), (PT, TP)), ((('s', PT), ('t', TP)), (('o', TP), ('n', PT))), (1, 2)),
    'union': (((('*i', SUM), ('x', W), ('y', W)), (W,)), ((('a', W), ('b', W)), (W,)), (1, 2)),
    'tagged': (((('*i', TU), ('d', DATA)), (DATA, W)), ((('a', DATA),), (DATA,)), (1, 2)),
    'bit code': (((('*c', BIT), ('a', BIT), ('b', BIT)), (BIT,)), ((('a', BIT), ('b', BIT)), (BIT,)), (1, 2)),
    'word code': (((('*c', W), ('a', BIT)), (BIT, BIT)), ((('a', BIT),), (BIT, BIT)), (1, 2)),
    'mixed': (((('*c', B1), ('a', W), ('e', OP), ('s', S3)), (S3, OP)), ((('s', S3), ('e', OP)), (S3,)), (1, 2)),
    'swap': (((('*c', B1), ('a', BIT), ('b', BIT)), (BIT, BIT)), ((('a', BIT), ('b', BIT)), (BIT, BIT)), (1, 2)),
    'no inputs type': (((('*c', B1), ('a', W)), (W,)), ((('a', W), ('b', BIT)), (W,)), (1, 2)),
    'no outputs type': (((('*c', B1), ('a', W)), (W,)), ((('a', W),), (BIT,)), (1, 2)),
    'too many': (((('*c', B1), ('a', W)), (W,)), ((('a', W), ('b', W), ('c', W)), (W,)), (1, 2)),
    'one each': (((('*c', B1), ('a', W)), (W, W)), ((('a', W), ('b', W)), (W,)), (1, 2, 3)),
    'same width': (((('*c', B1), ('a', S3), ('b', W)), (W, S3)), ((('a', W),), (W,)), (1, 2)),
    'source': (((('*c', B2), ('a', W)), (W,)), ((('a', W), ), (W,)), (1, 2)),
    'signed': (((('*c', OP), ('x', S3), ('y', S3)), (S3, BIT)), ((('x', S3), ('y', S3)), (BIT,)), (1, 2)),
}
IVARS = ('Binary', 'OneHot')


def generated(n, seed):
    """interfaces drawn from the seed"""
    rnd = random.Random('multi %s' % seed)
    ts = [BIT, B1, B2, W, S3, OP, E4, PT, TP]
    out = {}
    while len(out) < n:
        pool = rnd.sample(ts, rnd.randint(1, 3))
        ai = [('x%d' % j, rnd.choice(pool)) for j in range(rnd.randint(1, 3))]
        ai.insert(rnd.randrange(len(ai) + 1), ('*i', rnd.choice([B1, B2, OP, E4, INST, TU, BIT, PT])))
        ao = [rnd.choice(pool) for _ in range(rnd.randint(1, 3))]
        ii = [('a%d' % j, rnd.choice(pool)) for j in range(rnd.randint(1, 3))]
        io = [rnd.choice(pool) for _ in range(rnd.randint(1, 2))]
        if rnd.random() < .5:
            ao = [('o%d' % j, d) for j, d in enumerate(ao)]
        if rnd.random() < .5:
            io = [('r%d' % j, d) for j, d in enumerate(io)]
        k = rnd.randint(1, 3)
        count = 1
        for i in range(k):
            for nme, d in ai:
                if nme[0] != '*':
                    count *= 1 + sum(e == d for _, e in ii) + i * sum(e == d for _, e in mm.named_outputs(ao))
        made = [d for _, d in mm.named_outputs(ao)]
        used = [d for _, d in ai if _[0] != '*']
        boring = any(d not in made for _, d in mm.named_outputs(io)) or any(d not in used for _, d in ii)
        if count <= 600 and (not boring or rnd.random() < .05):
            out['gen%d' % len(out)] = ((tuple(ai), tuple(ao)), (tuple(ii), tuple(io)), (k,))
    return out


_faces = {}


def face(spec, tables=None):
    """interface by name, or ('gen', number, count, seed)"""
    if isinstance(spec, tuple):
        k = spec[2:]
        if k not in _faces:
            _faces[k] = generated(*k)
        a, i, ns = _faces[k]['gen%d' % spec[1]]
    else:
        a, i, ns = FACES[spec]
    return mm.Interface(a, i, tables), ns


def prove(ck, spec, n, ivar, real):
    itf, _ = face(spec)
    L = '%s: %d instructions [%s, %s]' % (spec if isinstance(spec, str) else 'gen%d' % spec[1], n, ivar, 'real' if real else 'copied')
    want = itf.wirings(n)
    possible = bool(want) and bool(itf.outputs())
    args = (spec, n, ivar, real)
    try:
        enc = mm.Encoding(itf, n, ivar, real)
    except mm.Refused as e:
        ck.obl(L + ': refused only if there are no bindings', 'refuted' if possible else 'proved', 'evaluation', str(e))
        if possible:
            ck.case('bindings', *args)
        return
    if not possible:
        #nothing to find: the formula must have no model
        ck.obl(L + ': no bindings', 'refuted', 'evaluation')
        ck.case('bindings', *args)
        return
    got = enc.answers()
    missing = [w for w in want if w not in got.values()]
    extra = [w for w in got.values() if w not in want]
    ck.obl(L + ': every wiring is considered', 'refuted' if missing else 'proved', 'evaluation', repr(missing[:2]))
    ck.obl(L + ': answers are wirings', 'refuted' if extra else 'proved', 'evaluation', repr(extra[:2]))
    if missing or extra:
        ck.case('bindings', *args)
    order = enc.order()
    ok = None not in order
    ck.obl(L + ': reported instructions are those chosen', 'proved' if ok else 'refuted', 'evaluation', repr(order))
    if not ok:
        ck.case('bindings', *args)
        return
    b = vsmt.to_z3(enc.bind)
    q = mp.Query(ck)
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(enc.phi, *[b != c for c in got])
    r = s.check()
    ck.obl(L + ': the index of a model means an answer', 'proved' if r == z3.unsat else 'undecided' if r == z3.unknown else 'refuted', 'z3')
    if r == z3.sat:
        ck.case('index', *args, s.model().eval(b, model_completion=True).as_long())

    tried, t0 = [], time.time()

    def case(kind, m, e):
        tried.append(kind)
        if tried.count(kind) > 2:
            return
        t = mm.tables_of(e, m)
        if kind == 'answer':
            ck.case('answer', *args, t, mm.ints(m, [enc.bind] + [v[enc.const] for v in enc.av] + enc.rest))
        else:
            ck.case('lost', *args, t)

    def over():
        #enough has failed, or too much time was used
        slow = ck.tier != 'thorough' and time.time() - t0 > 100
        if slow and 'slow' not in tried:
            tried.append('slow')
            ck.obl(L + ': remaining answers', 'undecided', 'time', '')
        return slow or len(tried) > 3 or len(ck.failures) > 3
    for c, w in got.items():
        if w not in want:
            continue
        if over():
            break
        l = '%s, answer %d' % (L, c)
        mm.soundness(ck, enc, l, c, w, order, q, case)
    done = set()
    for c, w in got.items():
        k = tuple(w.items())
        if over():
            break
        if w in want and k not in done:
            done.add(k)
            mm.completeness(ck, enc, '%s, wiring %d' % (L, want.index(w)), c, w, order, q, case, over)


def work(spec, n, ivar):
    itf, _ = face(spec)
    return len(itf.wirings(n)) * len(itf.outputs()) * (4 if ivar == 'OneHot' else 1)


# ---- cases
def bindings(spec, n, ivar, real):
    """the answers that can be given are the wirings"""
    itf, _ = face(spec)
    want = itf.wirings(n)
    try:
        enc = mm.Encoding(itf, n, ivar, real)
    except mm.Refused:
        assert not want or not itf.outputs(), 'refused, but there are %d wirings' % len(want)
        return
    assert want and itf.outputs(), 'accepted without bindings'
    got = enc.answers()
    for w in want:
        assert w in got.values(), 'wiring not considered: %r' % (w,)
    for w in got.values():
        assert w in want, 'not a wiring: %r' % (w,)
    assert None not in enc.order()


def index(spec, n, ivar, real, code):
    """a model with that index means an answer"""
    itf, _ = face(spec)
    enc = mm.Encoding(itf, n, ivar, real)
    s = z3.Solver()
    s.add(enc.phi, vsmt.to_z3(enc.bind) == code)
    if s.check() == z3.sat:
        assert enc.read({enc.bind: code})[0] is not None, 'index %d of a model has no answer' % code


def answer(spec, n, ivar, real, tables, values):
    """if the formula holds for the model and all inputs, the answer made of the model is correct"""
    itf, _ = face(spec, tables)
    enc = mm.Encoding(itf, n, ivar, real)
    vs = [enc.bind] + [v[enc.const] for v in enc.av] + enc.rest
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(z3.Not(enc.phi), *[vsmt.to_z3(v) == (bool(x) if v.symbol_type().is_bool_type() else x) for v, x in zip(vs, values)])
    if s.check() != z3.unsat:
        raise Skip
    r, _ = enc.read(dict(zip(vs, values)))
    assert r is not None, 'no answer'
    mm.judge(itf, n, r)


def solved(itf, n, ivar, real, seconds=4, loops=60):
    """(answer of the real mapper or None) with the real solver"""
    from peak.mapper import multi as M, index_var
    from peak.mapper.mapper import LoopException
    from pysmt.exceptions import PysmtException, SolverReturnedUnknownResultError
    import contextlib
    import io
    from hwtypes import Bit, BitVector
    from peak.mapper.utils import Unbound
    try:
        with vsmt.z3_limits(seconds):
            solve = M.Multi(itf.A.fc, itf.I.fc, n, IVar=getattr(index_var, ivar), use_real=real)
            r = solve(maxloops=loops, solver_name='z3')
    except (LoopException, SolverReturnedUnknownResultError):
        raise Skip
    except ValueError:
        return None
    if r is None:
        return None
    lists, texts = [], []
    saved = M.pretty_print_binding
    M.pretty_print_binding = lambda b, *a, **k: lists.append(list(b))
    M.print = lambda *a, **k: texts.append(a)
    try:
        r()
    finally:
        M.pretty_print_binding = saved
        del M.print
    codes = [x for a in texts for x in a if isinstance(x, (list, tuple)) and x and all(isinstance(c, (Bit, BitVector)) for c in x)]
    w = {(i, f): None if s is Unbound else ('ir', s[1]) if s[0] == 'IR_in' else ('out', s[1], s[2]) for i, b in enumerate(lists) for s, (_, _, f) in b}
    assert len(lists) == len(codes) == n
    return w, [mp.const_int(c[0]) for c in codes]


def lost(spec, n, ivar, real, tables):
    """the real mapper answers exactly if there is a correct choice"""
    itf, _ = face(spec, tables)
    check(itf, n, ivar, real)


def check(itf, n, ivar, real):
    r = solved(itf, n, ivar, real)
    if r is not None:
        mm.judge(itf, n, r)
    else:
        e = mm.exists(itf, n)
        assert e is None, 'nothing was found but %r wired as %r is correct' % (e[1], e[0])


def composed(spec, n, ivar, real, k, seed):
    """an instruction that is N given instructions wired in a given way is found"""
    itf, _ = face(spec)
    rnd = random.Random('%s %s %s' % (spec, k, seed))
    ws = itf.wirings(n)
    obs = itf.outputs()
    if not ws or not obs:
        raise Skip
    w, ob = ws[k % len(ws)], obs[(k + seed) % len(obs)]
    A, I = itf.A, itf.I
    d = next(d for _, c, d in A.inputs if c)
    if sum(width(e) for _, _, e in I.inputs) > 7 or width(d) > 6 or sum(width(e) for _, c, e in A.inputs) > 9:
        raise Skip
    valid = [c for c in range(1 << width(d)) if z3.is_true(z3.simplify(mm.spec_valid(d, z3.BitVecVal(c, width(d)))))]
    codes = [rnd.choice(valid) for _ in range(n)]
    unused = {f for (i, f), s in w.items() if s is None}
    fs = {}
    import itertools
    for o, e in A.outputs:
        fs[o] = {}
        mix = rnd.randrange(1 << 30)
        for xs in itertools.product(*[range(1 << width(t)) for _, c, t in A.inputs]):
            key = tuple(x for x, (f, c, _) in zip(xs, A.inputs) if f not in unused)
            h = random.Random('%s %s' % (mix, key)).randrange(1 << width(e))
            fs[o][xs] = h
    tables = {}
    roleA, roleI = prefix(A), prefix(I)
    for o, e in A.outputs:
        tables['%s.%s' % (roleA, o)] = (tuple(fs[o].items()), 0)
    names = [f for f, _, _ in A.inputs]
    res = {o: [] for o, _ in I.outputs}
    for xs in itertools.product(*[range(1 << width(t)) for _, _, t in I.inputs]):
        ir = dict(zip([f for f, _, _ in I.inputs], xs))
        outs = []
        for i in range(n):
            v = []
            for f, c, _ in A.inputs:
                s = None if c else w[(i, f)]
                v.append(codes[i] if c else 0 if s is None else ir[s[1]] if s[0] == 'ir' else outs[s[1]][s[2]])
            outs.append({o: fs[o][tuple(v)] for o, _ in A.outputs})
        for o, a in ob.items():
            res[o].append((xs, outs[n - 1][a]))
    for o, r in res.items():
        tables['%s.%s' % (roleI, o)] = (tuple(r), 0)
    t = mm.Interface(*[x for x in (FACES[spec] if isinstance(spec, str) else _faces[spec[2:]]['gen%d' % spec[1]])[:2]], tables=tuple(sorted(tables.items())))
    r = solved(t, n, ivar, real)
    assert r is not None, 'nothing was found but %r wired as %r is correct' % (codes, w)
    mm.judge(t, n, r)


def prefix(D):
    import re
    return re.search(r"uf\('([AI][0-9a-f]{8})\.", D.source).group(1)


#concrete designs: (architecture inputs, outputs, body), (IR ..), N
P4 = ('bv', 4)
CONCRETE = {
    'add3': (([('*op', OP), ('x', W), ('y', W)], [W], 'if op == T.OP.a:\n    return x + y\nelse:\n    return x ^ y'),
             ([('a', W), ('b', W), ('c', W)], [W], 'return (a + b) ^ c'), (1, 2)),
    'muls': (([('*op', E4), ('x', W), ('y', W)], [W], 'if op == T.E4.a:\n    return x + y\nelif op == T.E4.b:\n    return x * y\nelif op == T.E4.c:\n    return x - y\nelse:\n    return x'),
             ([('a', W), ('b', W)], [W], 'return (a - b) * a'), (1, 2)),
    'neg': (([('*op', B1), ('x', W)], [W], 'if op[0]:\n    return x + 1\nelse:\n    return ~x'), ([('a', W)], [W], 'return -a'), (1, 2)),
    'dec': (([('*op', B1), ('x', W)], [W], 'if op[0]:\n    return x + 1\nelse:\n    return ~x'), ([('a', W)], [W], 'return a - 1'), (1, 2, 3)),
    'imm': (([('*i', INST), ('x', W)], [W], 'if i.op == T.OP.a:\n    return x + i.imm\nelse:\n    return x & i.imm'), ([('a', W)], [W], 'return (a + 2) & 6'), (1, 2)),
    'imm2': (([('*i', INST), ('x', W)], [W], 'if i.op == T.OP.a:\n    return x + i.imm\nelse:\n    return x & i.imm'), ([('a', W)], [W], 'return (a & 6) + 1'), (1, 2)),
    'imm no': (([('*i', INST), ('x', W)], [W], 'if i.op == T.OP.a:\n    return x + i.imm\nelse:\n    return x & i.imm'), ([('a', W)], [W], 'return a << 1'), (1, 2)),
    'const word': (([('*k', W), ('x', W)], [W], 'return x + k'), ([('a', W)], [W], 'return a - 3'), (1, 2)),
    'nand': (([('*k', BIT), ('a', BIT), ('b', BIT)], [BIT], 'return ~(a & b) ^ k'), ([('a', BIT), ('b', BIT)], [BIT], 'return a | b'), (1, 2)),
    'nor': (([('*k', BIT), ('a', BIT), ('b', BIT)], [BIT], 'return (a & b) ^ k'), ([('a', BIT), ('b', BIT)], [BIT], 'return ~(a & b)'), (1, 2)),
    'flags': (([('*op', B1), ('x', W), ('b', BIT)], [W, BIT], 'if op[0]:\n    return x + 1, x[0] ^ b\nelse:\n    return x ^ 5, ~b'),
              ([('x', W), ('b', BIT)], [BIT, W], 'return b, (x + 1) ^ 5'), (1, 2)),
    'valid': (([('*op', OP), ('x', W)], [W], 'if op == T.OP.a:\n    return x + 1\nelif op == T.OP.b:\n    return x - 1\nelse:\n    return ~x'), ([('a', W)], [W], 'return ~a'), (1,)),
}


def concrete(name, n, ivar, real):
    a, i, _ = CONCRETE[name]
    itf = mm.Interface.__new__(mm.Interface)
    itf.A, itf.I = mc.design(*a), mc.design(*i)
    check(itf, n, ivar, real)


def refused(kind):
    """architectures without one instruction field and instructions with constants are refused"""
    from peak.mapper.multi import Multi
    a = mm.opaque('A', (('x', W),) if kind == 'none' else (('*c', B1), ('*d', B1), ('x', W)) if kind == 'two' else (('*c', B1), ('x', W)), (W,))
    i = mm.opaque('I', (('*a', W),) if kind == 'const' else (('a', W),), (W,))
    try:
        Multi(a.fc, i.fc, 1, **(dict(use_split_instr=True) if kind == 'split' else {}))
    except NotImplementedError:
        return
    raise AssertionError('accepted')


CASES = dict(bindings=bindings, index=index, answer=answer, lost=lost, composed=composed, concrete=concrete, refused=refused)


def run(ck):
    ck.under_contract('multi.Multi', 'multi.create_bindings', 'multi.RR')
    ck.trust('the external loop (C25), index variables (C24), hwtypes symbolic values, pysmt conversion to z3')
    ck.assume('opcodes range over all bit patterns of the inputs of both designs')
    big = ck.tier == 'thorough'
    g, seed = (200, ck.seed) if big else (24, 1)
    tasks = []
    for spec, ns in [(s, FACES[s][2]) for s in FACES] + [(('gen', j, g, seed), face(('gen', j, g, seed))[1]) for j in range(g)]:
        for n in ns:
            for real in (True, False):
                for ivar in IVARS if real or big else IVARS[:1]:
                    if not big and work(spec, n, ivar) > 300:
                        continue
                    tasks.append(('%s %d %s %s' % (spec, n, ivar, real), lambda spec=spec, n=n, ivar=ivar, real=real: prove(ck, spec, n, ivar, real)))
            tasks.append(('composed %s %d' % (spec, n), lambda spec=spec, n=n: [ck.case('composed', spec, n, IVARS[k % 2], k % 3 > 0, k, s) for k in range(12 if big else 2) for s in range(2 if big else 1)]))
    for name, (_, _, ns) in CONCRETE.items():
        for n in ns:
            tasks.append(('concrete %s %d' % (name, n), lambda name=name, n=n: [ck.case('concrete', name, n, v, r) for v in IVARS for r in (True, False)]))
    tasks.append(('refused', lambda: [ck.case('refused', k) for k in ('none', 'two', 'const', 'split')]))
    ck.bound('interfaces: %d written by hand, %d generated, up to 4 instructions; any designs with them' % (len(FACES), g))
    ck.bound('real solver: %d concrete designs, and compositions with random tables' % len(CONCRETE))
    ck.parallel(tasks)
