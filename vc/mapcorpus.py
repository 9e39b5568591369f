"""Architectures, IR instructions and rewrite rules with an independent meaning.

A design is a program (vc/prog.py style source) with the descriptors of its inputs and outputs.  Its meaning
is the class of the symbolic family run once on free opcodes (that this class means what the program says is
C13); paths, forms, bindings and rules are given their meaning here, from the descriptors alone."""
import functools
import itertools
import zlib
import z3
from hwtypes import SMTBit, SMTBitVector, Bit, BitVector
from hwtypes.adt import Product, TaggedUnion
from . import smt, sym
from .isa import Build, Spec, subs, width, enum_codes, tag_width  # noqa
from .prog import Types, leaf as leaf_t, as_bv, cat
from .srcmod import run_source

LEAF = ('bit', 'bv', 's', 'u', 'enum')
_built = {}


class Design:
    """source of make(family, T); inputs [(name, const?, descriptor)]; outputs [(name or index, descriptor)]"""

    def __init__(self, source, descs, inputs, outputs, B, tables=None):
        from peak import family_closure
        self.source, self.descs, self.inputs, self.outputs, self.B = source, descs, inputs, outputs, B
        ns = {'box': box, 'uf': functools.partial(uf, tables)}
        ns = run_source('from peak import Peak, name_outputs, Const\nfrom peak.black_box import BlackBox\nfrom hwtypes.adt import *\n' + source, ns)
        make, T = ns['make'], Types(B, descs)

        @family_closure
        def fc(family):
            return make(family, T)
        self.fc = fc
        self._term = None

    def const(self, path):
        return next(c for n, c, d in self.inputs if n == path[0])

    # ---- meaning
    def term(self):
        """(input vectors by name, outputs by path, black boxes [(path, class, inputs, outputs)])"""
        if self._term is None:
            self._term = self.run('m')
        return self._term

    def run(self, tag):
        from peak import family as F
        from peak.black_box import BlackBox
        fam = F.SMTFamily()
        cls = self.fc(fam)
        obj = cls()
        bbs = []

        def find(o, path):
            from peak import Peak
            for k, v in object.__getattribute__(o, '__dict__').items():
                if isinstance(v, BlackBox):
                    bbs.append((path + (k,), v))
                elif isinstance(v, Peak):
                    find(v, path + (k,))
        find(obj, ())
        bb_out = {}
        for p, b in bbs:
            outs = [(fam.Bit if issubclass(t, (Bit, SMTBit)) else fam.BitVector[t.size])() for t in type(b).output_t.field_dict.values()]
            b._set_outputs(*outs)
            bb_out[p] = outs
        args, invars = [], {}
        for n, _, d in self.inputs:
            if d[0] in ('bit', 'bv', 's', 'u'):
                v = leaf_t(d, fam)()
                args.append(v)
            else:
                v = fam.BitVector[width(d)]()
                args.append(fam.get_adt_t(self.B(d))(v))
            invars[n] = smt.to_z3(v)
        outs = obj(*args)
        outs = outs if isinstance(outs, tuple) else (outs,)
        assert len(outs) == len(self.outputs)
        res, self._whole = {}, {}
        for (n, d), o in zip(self.outputs, outs):
            self._whole[n] = o = as_bv(getattr(o, '_value_', o) if not isinstance(o, (SMTBit, SMTBitVector)) else o)
            for p, lo, d2 in leaf_ranges(d):
                res[(n,) + p] = z3.Extract(lo + width(d2) - 1, lo, o)
        boxes = [(p, type(b), [as_bv(i if isinstance(i, (SMTBit, SMTBitVector)) else i._value_) for i in b._get_inputs()], [smt.to_z3(o) for o in bb_out[p]]) for p, b in bbs]
        return invars, res, boxes

    def outputs_at(self, vals, terms=None):
        """outputs for input vectors {name: z3 vector}; boxes with the inputs substituted"""
        invars, res, boxes = terms or self.term()
        m = []
        for n, v in invars.items():
            x = vals[n]
            m.append((v, x == z3.BitVecVal(1, 1) if z3.is_bool(v) else x))
        return ({p: z3.substitute(e, *m) for p, e in res.items()},
                [(p, k, [z3.substitute(i, *m) for i in ins], outs) for p, k, ins, outs in boxes])

    def whole_at(self, vals):
        """{output name: vector}"""
        invars, _, _ = self.term()
        m = [(v, vals[n] == z3.BitVecVal(1, 1) if z3.is_bool(v) else vals[n]) for n, v in invars.items()]
        return {n: z3.substitute(o, *m) for n, o in self._whole.items()}

    # ---- forms and paths
    def forms(self, S):
        """[(choices {path: key}, leaves [(path, descriptor)])] of the inputs"""
        out = []
        for fs in itertools.product(*[dforms(self.B, d, (n,)) for n, _, d in self.inputs]):
            ch, lv = {}, []
            for c, l in fs:
                ch.update(c)
                lv += l
            out.append((ch, lv))
        return out

    def vectors(self, S, choices, val):
        """{input name: vector} for leaf values val(path, descriptor)"""
        return {n: vec(self.B, S, d, (n,), choices, val) for n, _, d in self.inputs}

    def out_leaves(self):
        return [((n,) + p, d2) for n, d in self.outputs for p, lo, d2 in leaf_ranges(d)]


CALLS = None  # list that records the calls of functions


def uf(tables, name, d, family, *args):
    """value of a function of type d at the arguments: uninterpreted, or given by its table (entries, otherwise)"""
    import pysmt.shortcuts as ps
    ts = [getattr(a, '_value_', a) if not isinstance(a, (SMTBit, SMTBitVector)) else a for a in args]
    ts = [a.value for a in ts]
    if CALLS is not None:
        CALLS.append((name, ts))
    t = leaf_t(d, family) if d[0] in ('bit', 'bv', 's', 'u') else family.BitVector[width(d)]

    def lit(x, y):
        return ps.Bool(bool(x)) if y.is_bool_type() else ps.BV(x, y.width)
    rt = ps.BOOL if d[0] == 'bit' else ps.BVType(width(d))
    if tables is None:
        f = ps.Symbol('uf.%s' % name, ps.FunctionType(rt, [a.get_type() for a in ts]))
        return t(ps.Function(f, ts))
    entries, other = dict(tables).get(name, ((), 0))
    r = lit(other, rt)
    for xs, v in entries:
        r = ps.Ite(ps.And([ps.EqualsOrIff(a, lit(x, a.get_type())) for a, x in zip(ts, xs)]), lit(v, rt), r)
    return t(r)


def leaf_ranges(d, off=0):
    """[(path, offset, leaf descriptor)] of a type without variants"""
    if d[0] in LEAF or d[0] in ('sum', 'tu'):
        return [((), off, d)]
    out = []
    for m, x in subs(d):
        out += [((m,) + p, o, y) for p, o, y in leaf_ranges(x, off)]
        off += width(x)
    return out


def key(B, d, i):
    """path element of variant i"""
    return d[1][i][0] if d[0] == 'tu' else B(d[1][i])


def dforms(B, d, path):
    if d[0] in LEAF:
        return [({}, [(path, d)])]
    if d[0] in ('prod', 'tup'):
        out = []
        for fs in itertools.product(*[dforms(B, x, path + (m,)) for m, x in subs(d)]):
            ch, lv = {}, []
            for c, l in fs:
                ch.update(c)
                lv += l
            out.append((ch, lv))
        return out
    out = []
    for i, (_, x) in enumerate(subs(d)):
        k = key(B, d, i)
        for c, l in dforms(B, x, path + (k,)):
            out.append(({path: k, **c}, l))
    return out


def vec(B, S, d, path, choices, val):
    if d[0] in LEAF:
        return val(path, d)
    if d[0] in ('prod', 'tup'):
        return cat([vec(B, S, x, path + (m,), choices, val) for m, x in subs(d)])
    k = choices[path]
    i = next(i for i in range(len(d[1])) if key(B, d, i) == k)
    x = subs(d)[i][1]
    tw = tag_width(d)
    pad = width(d) - tw - width(x)
    return cat([z3.BitVecVal(S.tags(d)[i], tw) if tw else None, vec(B, S, x, path + (k,), choices, val), z3.BitVecVal(0, pad) if pad else None])


def valid_code(d, v):
    if d[0] != 'enum':
        return z3.BoolVal(True)
    return z3.Or([v == c for c in sorted(set(enum_codes(d)))])


def type_key(D, path, d):
    """leaf types that may be bound to each other (an IR input and an architecture input)"""
    return (D.const(path), d)


def bindings(arch_leaves, ir_leaves, same):
    """assignments of architecture leaves (in order) to IR leaves or None using each IR leaf once"""
    out = []

    def go(todo, left, acc):
        if not todo:
            if not left:
                out.append(dict(acc))
            return
        if len(todo) < len(left):
            return
        p = todo[0]
        for q in left:
            if same(p, q):
                go(todo[1:], [r for r in left if r != q], acc + [(p, q)])
        go(todo[1:], left, acc + [(p, None)])
    go(list(arch_leaves), list(ir_leaves), [])
    return out


class Pair:
    """an architecture, an IR instruction and path constraints {path: values}"""

    def __init__(self, name, arch, ir, constraints=None):
        self.name, self.arch, self.ir = name, arch, ir
        self.constraints = constraints or {}

    def input_bindings(self, S):
        """[(form index, choices, leaves, binding)]; constrained paths stay unbound"""
        A, I = self.arch, self.ir
        (_, il), = I.forms(S)
        it = dict(il)
        out = []
        for fi, (ch, lv) in enumerate(A.forms(S)):
            at = dict(lv)

            def same(p, q):
                return p not in self.constraints and type_key(A, p, at[p]) == type_key(I, q, it[q])
            for b in bindings([p for p, _ in lv], [q for q, _ in il], same):
                out.append((fi, ch, lv, b))
        return out

    def output_bindings(self):
        at, it = dict(self.arch.out_leaves()), dict(self.ir.out_leaves())
        return bindings(list(at), list(it), lambda p, q: at[p] == it[q])


def goal(pair, S, choices, binding, obinding, constants, pre=''):
    """the matrix of correctness of a rule: (formula, universal variables, hypotheses).
    constants: {path: z3 vector} for constant (and constrained) paths; unbound paths are free variables"""
    A, I = pair.arch, pair.ir
    (_, il), = I.forms(S)
    iv = {q: z3.BitVec('%sI.%s' % (pre, q), width(d)) for q, d in il}
    at = {}
    free = list(iv.values())

    def av(p, d):
        if p in at:
            return at[p]
        if p in constants:
            v = constants[p]
        elif binding.get(p) is not None:
            v = iv[binding[p]]
        else:
            v = z3.BitVec('%sA.%s' % (pre, p), width(d))
            free.append(v)
        at[p] = v
        return v
    avec = A.vectors(S, choices, av)
    ivec = I.vectors(S, {}, lambda q, d: iv[q])
    ao, ab = A.outputs_at(avec)
    io, ib = I.outputs_at(ivec)
    eqs = [io[q] == ao[p] for p, q in obinding.items() if q is not None]
    boxes = ab + ib
    for _, _, ins, outs in boxes:
        free += outs
    return z3.And(eqs), free, congruence(boxes), at


def bvz(x):
    return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(x) else x


def congruence(boxes):
    """black boxes of one class are one function"""
    out = []
    for (p, k, i, o), (q, l, j, r) in itertools.combinations(boxes, 2):
        if k is l:
            out.append(z3.Implies(z3.And([a == b for a, b in zip(i, j)]), z3.And([a == b for a, b in zip(o, r)])))
    return out


# ---------------------------------------------------------------- corpus
W = ('bv', 3)
BIT = ('bit',)
B1 = ('bv', 1)
OP = ('enum', (('a', 1), ('b', 2)))                    # codes 0 and 3 are invalid
E4 = ('enum', (('a', 0), ('b', 1), ('c', 2), ('e', 3)))
E2 = ('enum', (('a', 0), ('b', 1)))
INST = ('prod', (('op', OP), ('imm', W)))
ALU = ('prod', (('op', OP), ('k', W)))
LD = ('prod', (('k', W), ('f', BIT)))
SUM = ('sum', (ALU, LD, W))
TU = ('tu', (('alu', ALU), ('ld', LD), ('alu2', ALU)))
NEST = ('prod', (('u', TU), ('m', ('tup', (E2, BIT)))))
PT = ('prod', (('s', W), ('t', BIT)))
DEEP = ('prod', (('p', PT), ('q', ('tup', (W, BIT)))))
DATA = ('tu', (('a', W), ('b', PT)))
DB = ('tu', (('a', W), ('b', BIT)))
DESCS = dict(DB=DB, W=W, OP=OP, E4=E4, E2=E2, INST=INST, ALU=ALU, LD=LD, SUM=SUM, TU=TU, NEST=NEST, PT=PT, DEEP=DEEP, DATA=DATA)
_T = {W: 'W', BIT: 'Bit', B1: 'BV[1]', ('bv', 4): 'BV[4]', ('bv', 8): 'BV[8]', ('s', 3): 'family.Signed[3]'}
for _k, _d in DESCS.items():
    _T.setdefault(_d, 'T.' + _k)


class Cached(Build):
    """products and tagged unions cached by name and fields, as strip_modifiers rebuilds them that way"""

    def _b(self, d):
        if d[0] in ('prod', 'tu'):
            K = Product if d[0] == 'prod' else TaggedUnion
            return K.from_fields('X%d' % len(self.memo), {m: self(x) for m, x in d[1]})
        return super()._b(d)


_B = Cached()


def tname(d):
    return _T[d]


def design(inputs, outputs, body, pre='', init='', tables=None):
    """inputs [(name, descriptor)] with const inputs marked by a leading '*'; outputs [descriptor] or [(name, descriptor)]"""
    ins = [(n.lstrip('*'), n[0] == '*', d) for n, d in inputs]
    named = outputs[0] not in _T
    outs = list(outputs) if named else list(enumerate(outputs))
    ann = ', '.join('%s: %s' % (n, 'Const(%s)' % tname(d) if c else tname(d)) for n, c, d in ins)
    src = ['def make(family, T):', '    W = family.BitVector[3]', '    BV = family.BitVector', '    Bit = family.Bit']
    src += ['    ' + l for l in pre.splitlines()]
    src += ['    @family.assemble(locals(), globals())', '    class D(Peak):']
    if init:
        src += ['        def __init__(self):'] + ['            ' + l for l in init.splitlines()]
    if named:
        src += ['        @name_outputs(%s)' % ', '.join('%s=%s' % (n, tname(d)) for n, d in outs),
                '        def __call__(self, %s):' % ann]
    else:
        r = ', '.join(tname(d) for _, d in outs)
        src += ['        def __call__(self, %s) -> %s:' % (ann, '(%s)' % r if len(outs) > 1 else r)]
    src += ['            ' + l for l in body.splitlines()]
    src += ['    return D']
    return Design('\n'.join(src) + '\n', DESCS, ins, outs, _B, tables)


_A = {}


def named(table, name, *a, **k):
    table[name] = (a, k)


ARCH, IRS = {}, {}
named(ARCH, 'alu', [('*i', INST), ('x', W), ('y', W)], [W],
      'if i.op == T.OP.a:\n    return x + y + i.imm\nelse:\n    return (x & y) ^ i.imm')
named(ARCH, 'two consts', [('*op', B1), ('*c0', W), ('*c1', W), ('x', W)], [W], 'return (x + c0) ^ c1')
named(ARCH, 'sum', [('*i', SUM), ('x', W), ('y', W)], [W, BIT],
      'if i[T.ALU].match:\n    v = i[T.ALU].value\n    if v.op == T.OP.a:\n        return x + y, Bit(0)\n    return x - v.k, x[0]\n'
      'elif i[T.LD].match:\n    w = i[T.LD].value\n    return x ^ w.k, w.f\nelse:\n    return i[T.W].value | y, x[0]')
named(ARCH, 'tagged', [('*i', TU), ('x', W)], [('res', W), ('flag', BIT)],
      'if i.alu.match:\n    v = i.alu.value\n    if v.op == T.OP.b:\n        return x + v.k, x[0]\n    return x - v.k, ~x[0]\n'
      'elif i.ld.match:\n    w = i.ld.value\n    return w.k, w.f\nelse:\n    z = i.alu2.value\n    return x & z.k, z.op == T.OP.a')
named(ARCH, 'nested', [('*i', NEST), ('x', W), ('b', BIT)], [W, BIT],
      'r = x\nif i.u.alu.match:\n    r = x + i.u.alu.value.k\nelif i.u.ld.match:\n    r = i.u.ld.value.k\nif i.m[0] == T.E2.b:\n    q = b & i.m[1]\nelse:\n    q = r[0]\nreturn r, q')
named(ARCH, 'mode', [('*op', B1), ('x', W), ('m', W)], [W], 'if m == 0:\n    return W(0)\nelse:\n    return x + op.zext(2)')
named(ARCH, 'emode', [('*op', B1), ('x', W), ('m', OP)], [W], 'if m == T.OP.b:\n    return W(0)\nelse:\n    return x + op.zext(2)')
named(ARCH, 'cenum', [('*e', OP), ('x', W), ('y', W)], [W], 'if e == T.OP.a:\n    return x + y\nelse:\n    return x - y')
named(ARCH, 'cenums', [('*e', OP), ('*f', OP), ('x', W)], [W], 'r = x\nif e == T.OP.a:\n    r = ~x\nif f == T.OP.b:\n    r = r + 1\nreturn r')
named(ARCH, 'struct', [('*c', B1), ('p', PT)], [PT], 'if c[0]:\n    return C(p.s + 1, p.t)\nelse:\n    return C(p.s, ~p.t)', 'C = family.get_constructor(T.PT)')
named(ARCH, 'deep', [('*c', B1), ('d', DEEP)], [('o', DEEP), ('z', W)],
      'r = d.p.s\nif c[0]:\n    r = d.q[0]\nreturn C(P(r, d.q[1]), Q(d.q[0], d.p.t)), d.p.s + d.q[0]',
      'C = family.get_constructor(T.DEEP)\nP = family.get_constructor(T.PT)\nQ = family.get_constructor(T.DEEP.q)')
named(ARCH, 'data', [('*c', B1), ('u', DATA)], [W], 'if u.a.match:\n    return u.a.value + c.zext(2)\nelse:\n    return u.b.value.s')
named(ARCH, 'dataonly', [('*c', B1), ('u', DATA), ('b', BIT)], [W], 'if u.a.match:\n    return u.a.value\nelse:\n    return u.b.value.s')
named(ARCH, 'vary', [('*c', B1), ('u', DATA), ('y', W)], [W], 'if u.a.match:\n    return u.a.value + 1\nelse:\n    return y & u.b.value.s')
named(ARCH, 'union', [('*c', B1), ('u', ('tu', (('a', W), ('b', BIT)))), ('y', W)], [W], 'if u.a.match:\n    return u.a.value & y\nelse:\n    return y')
named(ARCH, 'bits', [('*c', BIT), ('*d', BIT), ('a', BIT), ('b', BIT)], [BIT, BIT], 'return (a ^ c) & (b | d), a & b')
named(ARCH, 'free', [('*c', W), ('x', W), ('y', W), ('b', BIT)], [W, W], 'if b:\n    r = x & (y ^ c)\nelse:\n    r = x\nreturn r, x + c')
named(ARCH, 'signed', [('*c', W), ('x', ('s', 3)), ('y', ('s', 3))], [BIT, BIT], 'if c[0]:\n    return x < y, x[2]\nelse:\n    return x <= y, y[2]')
named(ARCH, 'enums', [('*c', B1), ('e', E4), ('f', OP)], [W], 'if e == T.E4.b:\n    return W(1)\nelif f == T.OP.a:\n    return W(2) + c.zext(2)\nelse:\n    return W(4)')
named(ARCH, 'big', [('*i', INST), ('*k', W), ('x', W), ('y', W), ('b', BIT)], [W, BIT, W],
      'if i.op == T.OP.a:\n    z = x + i.imm\nelse:\n    z = x & k\nif b:\n    z = z ^ y\nreturn z, z == i.imm, y + k')

named(IRS, 'add', [('a', W), ('b', W)], [W], 'return a + b')
named(IRS, 'add3', [('a', W), ('b', W)], [W], 'return a + b + 3')
named(IRS, 'and', [('a', W), ('b', W)], [W], 'return a & b')
named(IRS, 'or', [('a', W), ('b', W)], [W], 'return a | b')
named(IRS, 'sub', [('a', W), ('b', W)], [W], 'return a - b')
named(IRS, 'addk', [('*k', W), ('x', W)], [W], 'return (x + k) ^ 5')
named(IRS, 'xork', [('*k', W), ('x', W)], [W], 'return (x + 2) ^ k')
named(IRS, 'not', [('x', W)], [W], 'return ~x')
named(IRS, 'neg', [('x', W)], [W], 'return -x')
named(IRS, 'id', [('x', W)], [W], 'return x')
named(IRS, 'inc', [('x', W)], [W], 'return x + 1')
named(IRS, 'zero', [('x', W)], [W], 'return W(0)')
named(IRS, 'dec and bit', [('x', W)], [W, BIT], 'return x - 1, x[0]')
named(IRS, 'load', [('*k', W), ('x', W)], [W, BIT], 'return k, Bit(1)')
named(IRS, 'land', [('*k', W), ('x', W)], [('u', W), ('v', BIT)], 'return x & k, Bit(1)')
named(IRS, 'band', [('x', W), ('b', BIT)], [W, BIT], 'return x + 3, b')
named(IRS, 'selk', [('*e', OP), ('x', W), ('y', W)], [W], 'if e == T.OP.a:\n    return x + y\nelse:\n    return x - y')
named(IRS, 'selk2', [('*e', OP), ('x', W)], [W], 'if e == T.OP.b:\n    return -x\nelse:\n    return ~x')
named(IRS, 'sel', [('e', OP), ('x', W), ('y', W)], [W], 'if e == T.OP.a:\n    return x + y\nelse:\n    return x - y')
named(IRS, 'struct inc', [('p', PT)], [PT], 'return C(p.s + 1, p.t)', 'C = family.get_constructor(T.PT)')
named(IRS, 'struct not', [('s', W), ('t', BIT)], [BIT, W], 'return ~t, s')
named(IRS, 'deep', [('d', DEEP)], [DEEP], 'return C(P(d.p.s, d.q[1]), Q(d.q[0], d.p.t))',
      'C = family.get_constructor(T.DEEP)\nP = family.get_constructor(T.PT)\nQ = family.get_constructor(T.DEEP.q)')
named(IRS, 'swap', [('x', W), ('y', W), ('a', BIT), ('b', BIT)], [('s', W)], 'return x + y')
named(IRS, 'bor', [('a', BIT), ('b', BIT)], [BIT], 'return ~a & b')
named(IRS, 'bconst', [('a', BIT)], [BIT], 'return ~a')
named(IRS, 'band2', [('a', BIT), ('b', BIT)], [BIT, BIT], 'return a & b, a')
named(IRS, 'ltz', [('x', ('s', 3)), ('y', ('s', 3))], [BIT], 'return x > y')
named(IRS, 'enum out', [('e', E4), ('f', OP)], [W], 'if e == T.E4.b:\n    return W(1)\nelif f == T.OP.a:\n    return W(3)\nelse:\n    return W(4)')
named(IRS, 'wide', [('x', ('bv', 4))], [('bv', 4)], 'return x')
named(IRS, 'bit out', [('x', W)], [BIT, BIT, BIT], 'return x[0], x[1], x[2]')
named(IRS, 'xor and eq', [('x', W), ('y', W), ('b', BIT)], [BIT], 'if b:\n    z = (x & 6) ^ y\nelse:\n    z = x & 6\nreturn z == 5')


# ---- black boxes
BOXES = {'F': ([W], [W]), 'G': ([W], [W]), 'H': ([W, BIT], [W, BIT]), 'K': ([OP, W], [BIT]), 'Q': ([PT, ('s', 3)], [W, ('s', 3)]), 'Z': ([W], [W])}
_boxes = {}


def box(name):
    """family closure of a black box; two closures share the class name Same"""
    if name not in _boxes:
        ins, outs = BOXES[name]
        a = ', '.join('i%d: %s' % (i, tname(t)) for i, t in enumerate(ins))
        r = tname(outs[0]) if len(outs) == 1 else '(%s)' % ', '.join(map(tname, outs))
        c = 'F' if name == 'Z' else name
        src = ('from peak import Peak, family_closure\nfrom peak.black_box import BlackBox\n\n\n@family_closure\ndef fc(family):\n'
               '    W = family.BitVector[3]\n    BV = family.BitVector\n    Bit = family.Bit\n'
               '    @family.assemble(locals(), globals())\n    class %s(Peak, BlackBox):\n        def __call__(self, %s) -> %s: ...\n    return %s\n' % (c, a, r, c))
        _boxes[name] = run_source(src, dict(T=Types(_B, DESCS)))['fc']
    return _boxes[name]


def boxed(inputs, outputs, boxes, body, subs=''):
    """a design with components `name = Class` of black boxes"""
    pre = ''.join("%s = box('%s')(family)\n" % (k, k) for k in sorted(set(b for _, b in boxes) | set(k for k in BOXES if k + '(' in subs))) + subs
    return ((inputs, outputs, body), dict(pre=pre, init='\n'.join('self.%s: %s = %s()' % (n, k, k) for n, k in boxes)))


def nb(table, name, *a, **k):
    table[name] = boxed(*a, **k)


SUB = 'class Sub(Peak):\n    def __init__(self):\n        self.g: F = F()\n    def __call__(self, a: W, b: W) -> W:\n        return self.g(a) + b\nSub = family.assemble(locals(), globals())(Sub)\n'
nb(ARCH, 'f', [('*c', B1), ('x', W), ('y', W)], [W], [('f', 'F')], 'if c[0]:\n    return self.f(x)\nelse:\n    return self.f(x) + y')
nb(ARCH, 'ff', [('*c', B1), ('x', W), ('y', W)], [W], [('f', 'F'), ('f2', 'F')],
   'p = self.f(x)\nif c[0]:\n    a = p\nelse:\n    a = y\nq = self.f2(a)\nreturn q')
nb(ARCH, 'fg', [('*c', B1), ('x', W), ('y', W)], [W, W], [('f', 'F'), ('g', 'G')], 'return self.f(x + c.zext(2)), self.g(y)')
nb(ARCH, 'fz', [('*c', B1), ('x', W), ('y', W)], [W, W], [('f', 'F'), ('g', 'Z')], 'return self.f(x + c.zext(2)), self.g(y)')
nb(ARCH, 'h', [('*c', BIT), ('x', W), ('b', BIT)], [W, BIT], [('h', 'H')], 'r, s = self.h(x, b ^ c)\nreturn r, s ^ c')
nb(ARCH, 'k', [('*e', OP), ('o', OP), ('x', W)], [BIT, W], [('k', 'K')], 'p = self.k(o, x)\nif e == T.OP.a:\n    return p, x\nelse:\n    return ~p, x + 1')
nb(ARCH, 'kc', [('*e', OP), ('x', W)], [BIT], [('k', 'K')], 'return self.k(e, x)')
nb(ARCH, 'q', [('*c', B1), ('p', PT), ('s', ('s', 3))], [W, ('s', 3)], [('q', 'Q')], 'r, t = self.q(p, s)\nreturn r + c.zext(2), t')
nb(ARCH, 'sumf', [('*i', SUM), ('x', W), ('y', W)], [W], [('f', 'F'), ('g', 'G')],
   'fx = self.f(x)\ngy = self.g(y)\nif i[T.ALU].match:\n    v = i[T.ALU].value\n    r = fx + v.k\nelif i[T.LD].match:\n    w = i[T.LD].value\n    r = gy ^ w.k\nelse:\n    r = fx\nreturn r')

nb(IRS, 'F x', [('x', W)], [W], [('b', 'F')], 'return self.b(x)')
nb(IRS, 'G x', [('x', W)], [W], [('b', 'G')], 'return self.b(x)')
nb(IRS, 'F F x', [('x', W)], [W], [('b', 'F'), ('d', 'F')], 'p = self.b(x)\nq = self.d(p)\nreturn q')
nb(IRS, 'F x + F y', [('x', W), ('y', W)], [W], [('b', 'F'), ('d', 'F')], 'return self.b(x) + self.d(y)')
nb(IRS, 'F x - F x', [('x', W)], [W], [('b', 'F'), ('d', 'F')], 'return self.b(x) - self.d(x)')
nb(IRS, 'F x + y', [('x', W), ('y', W)], [W], [('b', 'F')], 'return self.b(x) + y')
nb(IRS, 'F x, G y', [('x', W), ('y', W)], [W, W], [('b', 'F'), ('d', 'G')], 'return self.b(x), self.d(y)')
nb(IRS, 'F x, F y', [('x', W), ('y', W)], [W, W], [('b', 'F'), ('d', 'F')], 'return self.b(x), self.d(y)')
nb(IRS, 'H', [('x', W), ('b', BIT)], [W, BIT], [('h', 'H')], 'r, s = self.h(x, ~b)\nreturn r, ~s')
nb(IRS, 'H2', [('x', W), ('b', BIT)], [W, BIT], [('h', 'H')], 'r, s = self.h(x, ~b)\nreturn r, s')
nb(IRS, 'K', [('o', OP), ('x', W)], [BIT], [('k', 'K')], 'return self.k(o, x)')
nb(IRS, 'K b', [('x', W)], [BIT], [('k', 'K')], 'return self.k(family.get_adt_t(T.OP)(T.OP.b), x)')
nb(IRS, 'Q', [('p', PT), ('s', ('s', 3))], [W, ('s', 3)], [('q', 'Q')], 'r, t = self.q(p, s)\nreturn r, t')
nb(ARCH, 'nestf', [('*c', B1), ('x', W), ('y', W)], [W], [], 'return self.s(x, y)')
nb(IRS, 'nest F', [('x', W), ('y', W)], [W], [], 'return self.s(y, x)')
for _t, _n in ((ARCH, 'nestf'), (IRS, 'nest F')):
    (_a, _k) = _t[_n]
    _t[_n] = (_a, dict(pre="F = box('F')(family)\n@family.assemble(locals(), globals())\n" + SUB.rsplit('Sub = ', 1)[0], init='self.s: Sub = Sub()'))
_box_pairs = [
    ('f', 'F x'), ('f', 'F x + y'), ('f', 'G x'), ('f', 'id'), ('f', 'F x + F y'), ('ff', 'F x'), ('ff', 'F F x'), ('ff', 'G x'), ('ff', 'F x + y'), ('fg', 'F x, G y'),
    ('fg', 'F x, F y'), ('fg', 'F x'), ('fz', 'F x, G y'), ('fz', 'F x, F y'), ('h', 'H'), ('h', 'H2'), ('k', 'K'), ('k', 'K b'), ('kc', 'K b'), ('kc', 'K'), ('q', 'Q'),
    ('sumf', 'F x'), ('sumf', 'G x'), ('sumf', 'F x + y'), ('nestf', 'nest F'), ('nestf', 'F x + y'), ('nestf', 'F x'), ('f', 'nest F'), ('alu', 'F x'),
    ('f', 'F x - F x'), ('mode', 'F x - F x'),
]


_pairs = [
    ('alu', 'add'), ('alu', 'add3'), ('alu', 'and'), ('alu', 'or'), ('alu', 'sub'), ('two consts', 'addk'), ('two consts', 'xork'),
    ('two consts', 'not'), ('two consts', 'neg'), ('sum', 'dec and bit'), ('sum', 'add'), ('sum', 'or'), ('sum', 'load'), ('sum', 'zero'),
    ('tagged', 'land'), ('tagged', 'dec and bit'), ('tagged', 'load'), ('tagged', 'not'), ('nested', 'band'), ('nested', 'load'),
    ('mode', 'id'), ('mode', 'zero'), ('emode', 'id'), ('cenum', 'selk'), ('cenum', 'sel'), ('cenum', 'sub'), ('cenums', 'selk2'), ('cenums', 'neg'),
    ('struct', 'struct inc'), ('struct', 'struct not'), ('deep', 'deep'), ('deep', 'swap'), ('data', 'inc'), ('data', 'struct not'),
    ('dataonly', 'id'), ('bits', 'bor'), ('bits', 'bconst'), ('bits', 'band2'), ('free', 'id'), ('free', 'and'), ('free', 'inc'), ('signed', 'ltz'),
    ('enums', 'enum out'), ('alu', 'wide'), ('alu', 'bit out'), ('big', 'xor and eq'), ('free', 'addk'),
]
_constrained = [
    ('alu', 'add3', {('i', 'imm'): (3, 4)}), ('alu', 'add3', {('i', 'imm'): (4, 5)}), ('alu', 'and', {('i', 'op'): ('a',)}),
    ('alu', 'and', {('i', 'op'): ('a', 'b'), ('i', 'imm'): (0,)}), ('mode', 'id', {('m',): (3, 5)}), ('mode', 'id', {('m',): (0, 5)}),
    ('mode', 'zero', {('m',): (0,)}), ('emode', 'id', {('m',): ('a',)}), ('emode', 'inc', {('m',): ('b',)}), ('two consts', 'addk', {('c0',): (1, 2)}),
    ('two consts', 'addk', {('c1',): (5,)}), ('tagged', 'land', {('i', 'alu', 'k'): (2,)}), ('data', 'inc', {('u', 'b', 't'): (1,)}),
    ('data', 'id', {('u', 'b', 's'): (1,), ('c',): (0,)}), ('dataonly', 'struct not', {('u', 'a'): (1,)}), ('free', 'and', {('b',): (1,)}),
    ('vary', 'id', {('u', 'b', 's'): (7,)}), ('vary', 'id', {('u', 'b', 's'): (6,)}), ('vary', 'id', {('u', 'b', 's'): (7, 6)}),
    ('union', 'add', {('u', 'b'): (1,)}), ('union', 'and', {('u', 'b'): (1,)}), ('vary', 'inc', {('u', 'b', 's'): (7,), ('y',): (1,)}), ('free', 'and', {('b',): (0, 1)}), ('cenums', 'selk2', {('e',): ('a',)}), ('free', 'id', {('y',): (6,), ('b',): (1,)}),
]
_made = {}


def get(table, name):
    if name.startswith('any '):
        return opaque(table, name[4:])
    k = (id(table), name)
    if k not in _made:
        a, kw = table[name]
        _made[k] = design(*a, **kw)
    return _made[k]


def opaque(table, name, tables=None):
    """every design with the inputs, outputs and black boxes of the given one: its outputs and what it feeds its
    boxes are uninterpreted functions"""
    role = 'A' if table is ARCH else 'I'
    if name.startswith('gen'):
        D = interface(table, name)
        boxes = tuple((i, k) for i, k in enumerate(D.boxes))
    else:
        D = get(table, name)
        boxes = tuple((i, BOXOF[k]) for i, (p, k, _, _) in enumerate(D.term()[2]))
    k = (role, tuple(D.inputs), tuple(D.outputs), boxes, tables)
    if k not in _opaque:
        role += '%08x' % zlib.crc32(repr(k[:4]).encode())
        have = [n for n, _, _ in D.inputs]
        body, bx = [], []
        for j, (_, b) in enumerate(boxes):
            ins, outs = BOXES[b]
            bx.append(('bb%d' % j, b))
            args = ["%s" % val("uf('%s.bb%d.%d', %r, family, %s)" % (role, j, i, t, ', '.join(have)), t) for i, t in enumerate(ins)]
            rs = ['r%d_%d' % (j, i) for i in range(len(outs))]
            body.append('%s = self.bb%d(%s)' % (', '.join(rs), j, ', '.join(args)))
            have += rs
        body.append('return ' + ', '.join(val("uf('%s.%s', %r, family, %s)" % (role, n, d, ', '.join(have)), d) for n, d in D.outputs))
        outs = [d for n, d in D.outputs] if D.outputs[0][0] == 0 else D.outputs
        a, kw = boxed([('*' * c + n, d) for n, c, d in D.inputs], outs, bx, '\n'.join(body))
        _opaque[k] = design(*a, tables=tables, **kw)
    return _opaque[k]


def val(e, d):
    return e if d[0] in ('bit', 'bv', 's', 'u') else 'family.get_adt_t(%s)(%s)' % (tname(d), e)


_opaque = {}


class _BoxOf:
    """name of a black box class"""

    def __getitem__(self, k):
        from peak import family as F
        return next(n for n in BOXES if box(n)(F.SMTFamily()) is k)


BOXOF = _BoxOf()


def _register(d):
    if d not in _T:
        n = 'g%d' % len(DESCS)
        DESCS[n] = d
        _T[d] = 'T.' + n
    return d


_gen = {}


def generated(n, seed, boxes=False, limit=16):
    """n interfaces (architecture, instruction, constraints) drawn from `seed`, with few bindings; names"""
    import random
    k = (n, seed, boxes)
    if k in _gen:
        return _gen[k]
    rnd = random.Random('%s %s' % (seed, boxes))
    leafs = [BIT, B1, W, W, ('bv', 8), ('s', 3), OP, E4, E2]

    def typ(depth, sums=True):
        r = rnd.random()
        if depth == 0 or r < .55:
            return rnd.choice(leafs)
        if r < .75 or not sums and r < .87:
            return _register(('prod', tuple((c, typ(depth - 1, sums)) for c in 'pqr'[:rnd.randint(1, 2)])))
        if r < .87 or not sums:
            return _register(('tup', tuple(typ(depth - 1, sums) for _ in range(2))))
        if r < .94:
            return _register(('tu', tuple((c, typ(depth - 1, sums)) for c in 'uvw'[:rnd.randint(2, 3)])))
        vs = []
        for _ in range(rnd.randint(2, 3)):
            v = typ(depth - 1, False)
            # hwtypes chooses a variant by isinstance: no variant may be a subclass of another
            if v not in vs and {('s', 3), W} - {v} - set(vs) and (v[0] in ('bit', 'bv', 's') or v[0] == 'prod'):
                vs.append(v)
        return _register(('sum', tuple(vs))) if len(vs) > 1 else rnd.choice(leafs)
    names = []
    m = 0
    while len(names) < n:
        m += 1
        nm = 'gen%s %d.%d' % ('b' if boxes else '', seed, m)
        ai = [('*' * (i == 0 or rnd.random() < .3) + 'abcd'[i], typ(2)) for i in range(rnd.randint(2, 4))]
        ao = [typ(1, False) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < .3:
            ao = [('o%d' % i, d) for i, d in enumerate(ao)]
        bx = [('f%d' % i, rnd.choice(list(BOXES))) for i in range(rnd.randint(0, 2))] if boxes else []
        ARCH[nm] = boxed(ai, ao, bx, 'pass')
        A = interface(ARCH, nm)
        fs = A.forms(None)
        if len(fs) > 6:
            continue
        # instruction inputs: some leaves of a form
        ch, lv = rnd.choice(fs)
        pick = [(p, d) for p, d in lv if rnd.random() < .6]
        rnd.shuffle(pick)
        ii, j = [], 0
        for p, d in pick:
            ii.append(('*' * A.const(p) + 'x%d' % len(ii), d))
        if len(ii) >= 2 and rnd.random() < .4 and ii[0][0][0] != '*' and ii[1][0][0] != '*':
            ii = [('y', _register(('tup', (ii[0][1], ii[1][1]))))] + ii[2:]
        if not ii or rnd.random() < .05:
            ii.append(('z', typ(1, False)))
        ol = A.out_leaves()
        io = [d for _, d in rnd.sample(ol, rnd.randint(1, len(ol)))]
        if rnd.random() < .1:
            io.append(typ(0))
        bx2 = [(k, b) for k, b in bx if rnd.random() < .7] + [('e%d' % i, rnd.choice(list(BOXES))) for i in range(rnd.random() < .4)] if boxes else []
        IRS[nm] = boxed(ii, io, bx2, 'pass')
        I = interface(IRS, nm)
        cons = {}
        if rnd.random() < .4:
            for p, d in rnd.sample([x for _, l in fs for x in l], 1):
                if d[0] == 'enum':
                    cons[p] = tuple(sorted(rnd.sample([c for c, _ in d[1]], rnd.randint(1, len(d[1])))))
                else:
                    cons[p] = tuple(sorted({rnd.randrange(1 << min(width(d), 4)) for _ in range(rnd.randint(1, 2))}))
        P = Pair(nm, A, I, cons)
        if boxes and not (bx or bx2):
            continue
        if len(P.input_bindings(None)) * len(P.output_bindings()) > limit:
            continue
        names.append((('any ' if not boxes else 'any ') + nm, 'any ' + nm, tuple(cons.items())))
    _gen[k] = names
    return names


def specs(names, *how):
    """literal names of pairs with any designs; `how`: the arguments of generated()"""
    if how:
        return [('gen',) + how + (j,) for j in range(len(names))]
    out, seen = [], set()
    for a, i, c in names:
        D, I = get(ARCH, 'any ' + a), get(IRS, 'any ' + i)
        if (id(D), id(I), c) not in seen:
            seen.add((id(D), id(I), c))
            out.append(('any', a, i, c))
    return out


def named_pair(spec, tables=None):
    """the pair of a literal name; with the functions of its designs given by tables"""
    if spec[0] == 'pair':
        return pair(*spec[1:])
    if spec[0] == 'gen':
        a, i, c = generated(*spec[1:4])[spec[4]]
        a, i = a[4:], i[4:]
    else:
        a, i, c = spec[1:]
    return Pair('any %s / any %s%s' % (a, i, cname(c)), opaque(ARCH, a, tables), opaque(IRS, i, tables), {p: tuple(x) for p, x in c})


def cname(constraints):
    return ''.join(' %s in %s' % ('.'.join(map(str, p)), list(c)) for p, c in constraints)


def interface(table, name):
    """the design without a meaning"""
    (ins, outs, body), kw = table[name]
    ins = [(n.lstrip('*'), n[0] == '*', d) for n, d in ins]
    named = outs[0] not in _T
    D = Design.__new__(Design)
    D.inputs, D.outputs, D.B, D._term = ins, list(outs) if named else list(enumerate(outs)), _B, None
    D.boxes = [l.split(' = ')[1].rstrip('()') for l in kw.get('init', '').splitlines()]
    return D


def box_names():
    return [(a, i, ()) for a, i in _box_pairs]


def pair_names():
    return [(a, i, ()) for a, i in _pairs] + [(a, i, tuple(c.items())) for a, i, c in _constrained]


def pair(a, i, constraints=()):
    return Pair('%s / %s%s' % (a, i, cname(constraints)), get(ARCH, a), get(IRS, i), {p: tuple(c) for p, c in constraints})
