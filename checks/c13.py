"""A Peak program means the same in the Python and the rewritten and symbolic families.

Translation validation: each program of the corpus is built by the current code in every family.  The
unrewritten class is executed on every path (vc/prog.py) from an arbitrary state and arbitrary inputs,
the classes of SMTFamily and of PyXFamily over symbolic bits once on symbolic opcodes; z3 proves outputs
and next states equal on every path, and initial states equal, so histories of any length agree."""
import random
import traceback
import z3
from hwtypes import SMTBit, SMTBitVector, Bit, BitVector, is_adt_type
from hwtypes.modifiers import is_modified, get_unmodified
from vc import sym, smt, prog
from vc.prog import Program, SymBuild, forking, families, mkval, pack, slots, raw, as_bv, Types
from vc.isa import Build, Spec, subs, width, values, enum_codes
from checks.asmcommon import observed_tags, to_desc_value, _B

LEVEL = 'translation_validation'
_S = SymBuild(_B)


def spec():
    return Spec(observed_tags('assembler'))


def sym_in(fam, d):
    """a symbolic argument of a rewritten family"""
    if d[0] in ('bit', 'bv', 's', 'u'):
        return prog.leaf(d, fam)()
    return fam.get_adt_t(_B(d))(fam.BitVector[width(d)]())


def sym_slot(v):
    r = raw(v)
    if isinstance(r, (SMTBit, SMTBitVector)):
        n = type(r)()
        return type(v)(n) if r is not v else n
    return v


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def validate(ck, label, args, state, symx_too=True, max_paths=1500):
    _, Cs = built(*args)
    P = Program(*args, state)
    fork, symx = families()
    S = spec()
    rewritten = [('smt', dict((n, (f, C)) for n, f, C in Cs)['smt'])]
    if symx_too:
        rewritten.append(('pyx', (symx, P.build(_B, symx))))
    for rname, (fam, C) in rewritten:
        L = '%s (%s)' % (label, rname)
        CF = P.build(_S, fork)
        o = C()
        init = [(p, v) for p, v, _ in slots(o)]
        for p, v, put in slots(o):
            put(sym_slot(v))
        pre = {p: v for p, v, _ in slots(o)}
        args = [sym_in(fam, d) for _, d in P.inputs]
        outs = tup(o(*args))
        post = {p: v for p, v, _ in slots(o)}
        if len(outs) != len(P.outputs):
            ck.obl(L + ': number of outputs', 'refuted', 'evaluation', repr(outs))
            return False

        def desc(p, v):
            if p in P.state:
                return P.state[p]
            v = raw(v)
            return ('bit',) if isinstance(v, (SMTBit, Bit)) else ('bv', v.size) if isinstance(v, (SMTBitVector, BitVector)) else None

        def base(c):
            with forking():
                of = CF()
                st = {p: v for p, v, _ in slots(of)}
                ck.prove(L + ': same state components', c, set(st) == {p for p, _ in init})
                for p, v in init:
                    d = desc(p, st[p])
                    if d is None:
                        ck.prove('%s: initial %s' % (L, p), c, st[p] == v)
                    else:
                        ck.prove('%s: initial %s' % (L, p), c, pack(S, d, st[p]) == as_bv(raw(v)))
            return True

        def step(c):
            with forking():
                of = CF()
                st = {}
                for p, v, put in slots(of):
                    d = desc(p, v)
                    if d is None:
                        continue
                    t = raw(pre[p])
                    if d[0] in ('bit', 'bv'):
                        n = type(v)(t) if type(v) is not type(t) else t
                    else:
                        n = mkval(c, _S, d)
                        c.assume(pack(S, d, n) == as_bv(t))
                    put(n)
                xs = []
                for (_, d), a in zip(P.inputs, args):
                    if d[0] in ('bit', 'bv', 's', 'u'):
                        xs.append(a)
                    else:
                        x = mkval(c, _S, d)
                        c.assume(pack(S, d, x) == as_bv(raw(a)))
                        xs.append(x)
                got = tup(of(*xs))
                ck.prove(L + ': number of outputs', c, len(got) == len(P.outputs))
                for i, (d, y, z) in enumerate(zip(P.outputs, got, outs)):
                    ck.prove('%s: output %d' % (L, i), c, pack(S, d, y) == as_bv(raw(z)))
                for p, v, _ in slots(of):
                    d = desc(p, v)
                    if d is None:
                        ck.prove('%s: next %s' % (L, p), c, p in post and v == post[p])
                    else:
                        ck.prove('%s: next %s' % (L, p), c, pack(S, d, v) == as_bv(raw(post[p])))
            return True
        for what, fn in (('base', base), ('step', step)):
            n = 0
            for c, (k, r) in sym.explore(fn, max_paths=max_paths, stats=ck.stats):
                if k == 'ok':
                    n += 1
                elif k == 'raise':
                    ck.obl(L + ': no exception', 'undecided', 'engine', ''.join(traceback.format_exception(r))[-800:])
            ck.obl('%s: %s paths reached' % (L, what), 'proved' if n else 'undecided', 'coverage', '%d paths' % n)
    return True


# ---- concrete --------------------------------------------------------------

def arg(fam, name, d, v):
    plain = _B.val(d, v)
    if name == 'py':
        return plain
    if d[0] in ('bit', 'bv', 's', 'u'):
        return prog.leaf(d, fam)(int(plain) if d[0] != 'bit' else bool(plain))
    return fam.get_adt_t(_B(d))(plain)


def value(d, x):
    """integer of an output"""
    x = raw(x)
    if isinstance(x, (Bit, bool)):
        return int(bool(x))
    if isinstance(x, BitVector):
        return x.as_uint()
    if isinstance(x, (SMTBit, SMTBitVector)):
        t = z3.simplify(as_bv(x))
        assert z3.is_bv_value(t), 'output depends on free symbols: %s' % t
        return t.as_long()
    return spec().enc(d, to_desc_value(d, x))


def concrete_families():
    from peak import family as F
    return [('py', F.PyFamily()), ('pyx', F.PyXFamily()), ('smt', F.SMTFamily())]


_built = {}


def built(source, descs, inputs, outputs):
    k = repr((source, descs, inputs, outputs))
    if k not in _built:
        P = Program(source, descs, inputs, outputs)
        _built[k] = P, [(n, f, P.build(_B, f)) for n, f in concrete_families()]
    return _built[k]


def run_all(source, descs, inputs, outputs, steps):
    """every family gives the same outputs at every step"""
    P, Cs = built(source, descs, inputs, outputs)
    objs = [(n, f, C()) for n, f, C in Cs]
    for k, vs in enumerate(steps):
        ref = None
        for n, f, o in objs:
            out = tup(o(*[arg(f, n, d, v) for (_, d), v in zip(inputs, vs)]))
            assert len(out) == len(outputs), '%s returns %d values' % (n, len(out))
            got = [value(d, x) for d, x in zip(outputs, out)]
            if ref is None:
                ref = got
            assert got == ref, 'step %d: %s gives %r, Python %r' % (k, n, got, ref)


def types(source, descs, inputs, outputs, names=None):
    """the declared interface survives the rewriting"""
    P, Cs = built(source, descs, inputs, outputs)
    for n, f, C in Cs:
        def want(d):
            return prog.leaf(d, f) or _B(d)
        it = [] if C.input_t is None else list(C.input_t.field_dict.items())
        assert [m for m, _ in it] == [m for m, _ in inputs], '%s: inputs %r' % (n, it)
        for (m, t), (_, d) in zip(it, inputs):
            assert (get_unmodified(t) if is_modified(t) else t) == want(d), '%s: input %s has type %r' % (n, m, t)
        ot = [] if C.output_t is None else list(C.output_t.field_dict.items())
        assert [m for m, _ in ot] == (list(range(len(outputs))) if names is None else list(names)), '%s: outputs %r' % (n, ot)
        for (m, t), d in zip(ot, outputs):
            assert t == want(d), '%s: output %s has type %r' % (n, m, t)


CASES = dict(run_all=run_all, types=types)

# ---- corpus ----------------------------------------------------------------

BV4, BIT = ('bv', 4), ('bit',)
E = ('enum', (('a', 0), ('b', 1), ('c', None)))
I = ('prod', (('op', E), ('f', BIT), ('imm', BV4)))
A = ('prod', (('op', E), ('imm', BV4)))
B2 = ('prod', (('f', BIT), ('k', ('bv', 3))))
S = ('sum', (A, B2, ('bv', 5)))
U = ('tu', (('x', A), ('y', BV4), ('z', A), ('w', E)))
TP = ('tup', (E, BIT, BV4))
N = ('prod', (('s', S), ('t', TP), ('i', I)))
DESCS = {'E': E, 'I': I, 'A': A, 'B': B2, 'S': S, 'U': U, 'TP': TP, 'N': N, 'V5': ('bv', 5)}


def program(args, ret, body, init='', pre=''):
    src = ['def make(family, T):', '    Bit = family.Bit', '    W = family.BitVector[4]', '    BV = family.BitVector']
    src += ['    ' + l for l in pre.splitlines()]
    src += ['    @family.assemble(locals(), globals())', '    class P(Peak):']
    if init:
        src += ['        def __init__(self):'] + ['            ' + l for l in init.splitlines()]
    if ret.startswith('@'):
        src += ['        ' + ret, '        def __call__(self, %s):' % args]
    else:
        src += ['        def __call__(self, %s) -> %s:' % (args, ret)]
    src += ['            ' + l for l in body.splitlines()]
    src += ['    return P']
    return '\n'.join(src) + '\n'


def handwritten():
    """(label, source, inputs, outputs, ADT state)"""
    out = []

    def add(label, inputs, outputs, ret, body, init='', pre='', state=None, anns=None, names=None):
        anns = anns or {}
        tn = {BV4: 'W', BIT: 'Bit', E: 'T.E', I: 'T.I', A: 'T.A', B2: 'T.B', S: 'T.S', U: 'T.U', TP: 'T.TP', N: 'T.N', ('bv', 5): 'BV[5]',
              ('s', 4): 'SI', ('u', 4): 'UI'}
        args = ', '.join('%s: %s' % (n, anns.get(n, tn[d])) for n, d in inputs)
        out.append((label, program(args, ret, body, init, pre), inputs, outputs, state or {}, names))
    x, y, b = ('x', BV4), ('y', BV4), ('b', BIT)
    add('straight line', [x, y], [BV4, BIT], '(W, Bit)', 'z = x + y\nz = z ^ x\nreturn z, z[2]')
    add('rebinding arguments', [x, y, b], [BV4], 'W', 'if b:\n    x = y\n    y = x + 1\nelse:\n    y = x\n    x = x - 1\nreturn x ^ y')
    add('if elif else', [('e', E), x, y], [BV4], 'W', 'if e == T.E.a:\n    r = x + y\nelif e == T.E.b:\n    r = x - y\nelse:\n    r = x & y\nreturn r')
    add('enum inequality', [('e', E), x, y], [BV4, BIT], '(W, Bit)',
        'if e != T.E.a:\n    r = x + y\n    q = Bit(1)\nelse:\n    r = y\n    q = Bit(0)\nreturn r, q')
    add('early returns', [('e', E), x, y, b], [BV4, BIT], '(W, Bit)',
        'if e == T.E.b:\n    if b:\n        return x, b\n    y = y + 1\nelif e == T.E.c:\n    return y, ~b\nif x == y:\n    return x + 1, b\nreturn x - y, b & x[0]')
    add('nested early returns', [x, y, b], [BV4], 'W',
        'r = x\nif b:\n    if x[0]:\n        if y[0]:\n            return x\n        r = y\n    else:\n        r = x & y\n        if y[1]:\n            return r\n        r = r + 1\nreturn r')
    add('and or not', [x, y, b], [BV4, BIT], '(W, Bit)',
        'if (x == y) and b:\n    r = x\nelif (x[0] == y[0]) or (b and x[1]):\n    r = y\nelif not (x[2] & y[2]):\n    r = x + y\nelse:\n    r = x - y\nreturn r, b')
    add('ternaries', [x, y, b], [BV4, BV4], '(W, W)',
        'r = (x if b else y)\nq = ((x + 1) if (x == y) else (y if x[0] else r))\nreturn r + q, q')
    sg = 'SI = family.Signed[4]\nUI = family.Unsigned[4]'
    add('signed and unsigned vectors', [x, y], [BIT, BIT, BV4], '(Bit, Bit, W)',
        'p = SI(x)\nq = SI(y)\nm = UI(x)\nn = UI(y)\nif p < q:\n    r = p >> 1\nelse:\n    r = p + q\nif m >= n:\n    t = W(m >> 2)\nelse:\n    t = W(r)\nreturn p <= q, m < n, t', pre=sg)
    add('signed and unsigned arguments', [('p', ('s', 4)), ('q', ('u', 4)), x], [('s', 4), ('u', 4), BIT], '(SI, UI, Bit)',
        'if p < 0:\n    r = p >> 1\nelse:\n    r = p - SI(x)\nif q > UI(x):\n    t = q >> 1\nelse:\n    t = q\nreturn r, t, p > r', pre=sg)
    add('register of a signed vector', [('p', ('s', 4)), b], [('s', 4), BIT], '(SI, Bit)', 'q = self.r(p, b)\nreturn q, q < p', 'self.r = R()', sg + '\nR = family.gen_register(SI, 13)')
    add('ite', [x, y, b], [BV4, BIT], '(W, Bit)', 'r = b.ite(x, y)\nreturn (x < y).ite(r, r + 1), (x > y).ite(b, ~b)')
    add('product instruction', [('i', I), x, y], [BV4, BIT], '(W, Bit)',
        'if i.f:\n    y = i.imm\nif i.op == T.E.a:\n    r = x + y\nelif i.op == T.E.b:\n    r = x & y\nelse:\n    r = x ^ y\nreturn r, i.f', anns={'i': 'Const(T.I)'})
    add('named outputs', [('i', I), x], [BV4, BIT], '@name_outputs(res=W, flag=Bit)',
        'if i.op == T.E.c:\n    return i.imm, i.f\nreturn x, ~i.f', names=['res', 'flag'])
    add('sum instruction', [('s', S), x], [BV4, BIT], '(W, Bit)',
        'if s[T.A].match:\n    a = s[T.A].value\n    if a.op == T.E.a:\n        r = x + a.imm\n    else:\n        r = x - a.imm\n    q = Bit(0)\n'
        'elif s[T.B].match:\n    c = s[T.B].value\n    r = x ^ c.k.zext(1)\n    q = c.f\nelse:\n    v = s[T.V5].value\n    r = v[1:5]\n    q = v[0]\nreturn r, q')
    # T.V5 is a plain type in every family, so it is a usable key
    add('sum early return', [('s', S), x, b], [BV4], 'W',
        'if s[T.B].match:\n    if b:\n        return x\n    return x + s[T.B].value.k.zext(1)\nif s[T.A].match:\n    return s[T.A].value.imm\nreturn x - 1')
    add('tagged union', [('u', U), x], [BV4, E], '(W, T.E)',
        'e = Ec(T.E.b)\nif u.x.match:\n    r = x + u.x.value.imm\n    e = u.x.value.op\nelif u.y.match:\n    r = u.y.value\nelif u.z.match:\n    r = x - u.z.value.imm\nelse:\n    r = x\n    e = u.w.value\nreturn r, e',
        pre='Ec = family.get_constructor(T.E)')
    add('tagged union with equal member types', [('u', U), x], [BV4], 'W', 'if u.z.match:\n    return x\nif u.x.match:\n    return ~x\nreturn x + 1')
    add('tuple', [('t', TP), x], [BV4, BIT], '(W, Bit)', 'if t[0] == T.E.c:\n    r = t[2] + x\nelse:\n    r = t[2]\nreturn r, t[1]')
    add('nested instruction', [('n', N), x], [BV4, BIT], '(W, Bit)',
        'if n.s[T.A].match:\n    if n.s[T.A].value.op == n.i.op:\n        r = n.i.imm\n    else:\n        r = n.s[T.A].value.imm\nelif n.t[1]:\n    r = n.t[2]\nelse:\n    r = x\nreturn r, n.i.f & n.t[1]')
    add('build a tuple and a product', [('e', E), x, b], [TP, A, BV4], '(T.TP, T.A, W)',
        't = Tc(e, b, x)\na = Ac(op=e, imm=x + 1)\nif b:\n    a = Ac(Ec(T.E.c), x)\nreturn t, a, t[2]',
        pre='Tc = family.get_constructor(T.TP)\nAc = family.get_constructor(T.A)\nEc = family.get_constructor(T.E)')
    add('build a tagged union', [('e', E), x, b], [U], 'T.U',
        'if b:\n    u = Uc(y=x)\nelse:\n    u = Uc(z=Ac(e, x))\nreturn u', pre='Uc = family.get_constructor(T.U)\nAc = family.get_constructor(T.A)')
    add('build a sum', [('e', E), x, b], [S], 'T.S',
        'if b:\n    u = Sc(T.V5, x.zext(1))\nelse:\n    u = Sc(T.A, Ac(e, x))\nreturn u', pre='Sc = family.get_constructor(T.S)\nAc = family.get_constructor(T.A)')
    add('return a component', [('n', N)], [S, TP, E, BIT], '(T.S, T.TP, T.E, Bit)', 'return n.s, n.t, n.i.op, n.s == n.s')
    add('compare values', [('p', A), ('q', A), ('u', U), ('v', U)], [BIT, BIT], '(Bit, Bit)',
        'if p == q:\n    r = Bit(1)\nelse:\n    r = Bit(0)\nif u != v:\n    s = Bit(1)\nelse:\n    s = Bit(0)\nreturn r, s')
    add('register with enable', [x, b], [BV4], 'W', 'return self.r(x, b)', 'self.r = R()', 'R = family.gen_register(W, 6)')
    add('register without enable', [x, y], [BV4], 'W', 'v = self.r(x + y)\nif v == x:\n    return y\nreturn v', 'self.r = R()', 'R = family.gen_register(W, 6, has_enable=False)')
    add('two registers, one class', [x, b], [BV4, BV4], '(W, W)', 'p = self.r(x, b)\nq = self.s(p, ~b)\nreturn p, q', 'self.r = R()\nself.s = R()', 'R = family.gen_register(W, 1)')
    add('previous value', [x, b], [BV4, BV4], '(W, W)', 'p = self.r.prev()\nq = self.r(p + x, b)\nreturn p, q', 'self.r = R()', 'R = family.gen_register(W, 9)')
    add('register of an enum', [('e', E), b], [E], 'T.E', 'if self.r.prev() == T.E.b:\n    e = Ec(T.E.c)\nreturn self.r(e, b)', 'self.r = R()',
        'Ec = family.get_constructor(T.E)\nR = family.gen_register(family.get_adt_t(T.E), T.E.b)', {'.r.value': E})
    add('attribute registers', [x, b], [BV4, BIT], '(W, Bit)',
        'old = self.a\nif b:\n    self.a = self.a + x\n    self.f = Bit(0)\nelif x[0]:\n    self.a = W(0)\n    return old, self.f\nelse:\n    self.f = ~self.f\nreturn old, self.f',
        'self.a = RA()\nself.f = RF()', 'RA = family.gen_attr_register(W, 5)\nRF = family.gen_attr_register(Bit, 1)')
    add('attribute register of an enum', [('e', E), b], [E], 'T.E',
        'old = self.s\nif self.s == T.E.a:\n    if b:\n        self.s = e\nelif b:\n    self.s = Ec(T.E.a)\nreturn old', 'self.s = R()',
        'Ec = family.get_constructor(T.E)\nR = family.gen_attr_register(family.get_adt_t(T.E), T.E.c)', {'.s.value': E})
    add('plain attribute', [x, b], [BV4], 'W', 'if b:\n    self.v = x\nelif x == 0:\n    self.v = self.v + 1\nreturn self.v', 'self.v = W(3)')
    add('early return skips state', [x, b], [BV4], 'W', 'r = self.v\nif b:\n    return r\nself.v = x\nif x[0]:\n    return r + 1\nself.v = x + self.v\nreturn r', 'self.v = W(3)')
    add('component', [x, y, b], [BV4], 'W',
        'p = self.c(x, y)\nif b:\n    p = p + 1\nreturn self.d(p, x)', 'self.c = Sub()\nself.d = Sub()',
        '@family.assemble(locals(), globals())\nclass Sub(Peak):\n    def __init__(self):\n        self.last = W(0)\n'
        '    def __call__(self, x: W, y: W) -> W:\n        r = self.last\n        if x[0]:\n            self.last = y\n            return r\n        return x ^ y')
    add('calls itself on one path only', [x, b], [BV4], 'W', 'k = self.n\nself.n = k + 1\nif k[0]:\n    return x\nelse:\n    return ~x', 'self.n = W(0)')
    return out


def random_program(rnd, big=False):
    """a program of the supported subset"""
    kind = rnd.choice(['I', 'S', 'U', 'E', 'TP', None])
    inputs = [('x', BV4), ('y', BV4), ('b', BIT)]
    W, Bv = ['x', 'y'], ['b']
    body, init, pre = [], [], []
    state, regs = [], []
    for i in range(rnd.randrange(3)):
        k = rnd.randrange(4)
        n = 's%d' % i
        if k == 0:
            init.append('self.%s = W(%d)' % (n, rnd.randrange(16)))
            state.append(('self.' + n, 'W'))
        elif k == 1:
            pre.append('R%d = family.gen_attr_register(W, %d)' % (i, rnd.randrange(16)))
            init.append('self.%s = R%d()' % (n, i))
            state.append(('self.' + n, 'W'))
        elif k == 2:
            pre.append('R%d = family.gen_attr_register(Bit, %d)' % (i, rnd.randrange(2)))
            init.append('self.%s = R%d()' % (n, i))
            state.append(('self.' + n, 'B'))
        else:
            en = rnd.randrange(2)
            pre.append('R%d = family.gen_register(W, %d, has_enable=%r)' % (i, rnd.randrange(16), bool(en)))
            init.append('self.%s = R%d()' % (n, i))
            regs.append((n, en))

    def w(d):
        k = rnd.randrange(10 if d else 3)
        if k < 2 or not d:
            return rnd.choice(W + [s for s, t in state if t == 'W'])
        if k == 2:
            return 'W(%d)' % rnd.randrange(16)
        if k < 7:
            return '(%s %s %s)' % (w(d - 1), rnd.choice('+-&|^'), w(d - 1))
        if k == 7:
            return '(~%s)' % w(d - 1)
        if k == 8:
            return '(%s).ite(%s, %s)' % (bit(d - 1), w(d - 1), w(d - 1))
        return '(%s if %s else %s)' % (w(d - 1), bit(d - 1), w(d - 1))

    def bit(d):
        k = rnd.randrange(9 if d else 2)
        if k < 2 or not d:
            return rnd.choice(Bv + [s for s, t in state if t == 'B'])
        if k == 2:
            return '(%s %s %s)' % (w(d - 1), rnd.choice(['==', '!=', '<', '<=', '>', '>=']), w(d - 1))
        if k < 6:
            return '(%s %s %s)' % (bit(d - 1), rnd.choice(['&', '|', '^']), bit(d - 1))
        if k == 6:
            return '(~%s)' % bit(d - 1)
        if k == 7:
            return '(%s)[%d]' % (w(d - 1), rnd.randrange(4))
        return 'Bit(%d)' % rnd.randrange(2)

    def cond(d=2):
        k = rnd.randrange(6)
        if k < 3:
            return bit(d)
        if k == 3:
            return '(%s) and (%s)' % (bit(d - 1), bit(d - 1))
        if k == 4:
            return '(%s) or (%s)' % (bit(d - 1), bit(d - 1))
        return 'not (%s)' % bit(d - 1)

    nouts = rnd.randrange(1, 4)
    otypes = [rnd.choice([BV4, BV4, BIT]) for _ in range(nouts)]

    def ret(d=1):
        return 'return ' + ', '.join(w(d) if t == BV4 else bit(d) for t in otypes)

    def emit(ind, s):
        body.append('    ' * ind + s)

    def simple(ind):
        k = rnd.randrange(5)
        if k < 2:
            emit(ind, '%s = %s' % (rnd.choice(['x', 'y', 'v', 'v']), w(2)))
        elif k == 2:
            emit(ind, '%s = %s' % (rnd.choice(['b', 'c']), bit(2)))
        elif state:
            s, t = rnd.choice(state)
            emit(ind, '%s = %s' % (s, w(2) if t == 'W' else bit(2)))
        else:
            emit(ind, 'v = %s' % w(2))

    def block(ind, depth, ends=True):
        for _ in range(rnd.randrange(1, 3)):
            simple(ind)
        if depth and rnd.random() < .5:
            branch(ind, depth - 1)
        if ends and rnd.random() < .2:
            emit(ind, ret())

    def branch(ind, depth):
        emit(ind, 'if %s:' % cond())
        block(ind + 1, depth)
        if rnd.random() < .4:
            emit(ind, 'elif %s:' % cond())
            block(ind + 1, depth)
        if rnd.random() < .7:
            emit(ind, 'else:')
            block(ind + 1, depth)

    def dispatch(ind):
        """inspect the instruction"""
        if kind == 'E':
            arms = [('i == T.E.a', [], []), ('i == T.E.b', [], []), (None, [], [])]
        elif kind == 'I':
            arms = [('i.op == T.E.%s' % m, ['i.imm'], ['i.f']) for m in 'ab'] + [(None, ['i.imm'], ['i.f'])]
        elif kind == 'TP':
            arms = [('i[0] == T.E.c', ['i[2]'], ['i[1]']), (None, ['i[2]'], ['i[1]'])]
        elif kind == 'S':
            arms = [('i[T.A].match', ['i[T.A].value.imm'], ['(i[T.A].value.imm == 3)']), ('i[T.V5].match', ['i[T.V5].value[0:4]'], ['i[T.V5].value[4]']),
                    (None, ['i[T.B].value.k.zext(1)'], ['i[T.B].value.f'])]
            rnd.shuffle(arms)
            # the last arm must be guarded by the negation of the others
            arms = [a for a in arms if a[0]] + [a for a in arms if not a[0]]
        else:
            arms = [('i.x.match', ['i.x.value.imm'], []), ('i.z.match', ['i.z.value.imm'], []), ('i.y.match', ['i.y.value'], ['i.y.value[1]']), (None, [], [])]
        for j, (g, ws, bs) in enumerate(arms):
            emit(ind, 'else:' if g is None else '%s %s:' % ('if' if j == 0 else 'elif', g))
            W.extend(ws)
            Bv.extend(bs)
            block(ind + 1, 1, ends=True)
            for q in ws:
                W.remove(q)
            for q in bs:
                Bv.remove(q)
    emit(0, 'v = W(%d)' % rnd.randrange(16))
    emit(0, 'c = Bit(%d)' % rnd.randrange(2))
    W.append('v')
    Bv.append('c')
    for n, en in regs:
        emit(0, '%s = self.%s(%s)' % ('v', n, w(1) + (', ' + bit(1) if en else '')))
    for _ in range(rnd.randrange(2, 5 if big else 4)):
        k = rnd.randrange(3)
        if k == 0:
            simple(0)
        elif k == 1 or kind is None:
            branch(0, 1)
        else:
            dispatch(0)
    emit(0, ret(2))
    d = {'I': I, 'S': S, 'U': U, 'E': E, 'TP': TP}.get(kind)
    args = 'x: W, y: W, b: Bit'
    if d:
        inputs = [('i', d)] + inputs
        args = 'i: T.%s, ' % kind + args
    tn = ['W' if t == BV4 else 'Bit' for t in otypes]
    r = tn[0] if len(tn) == 1 else '(%s)' % ', '.join(tn)
    return program(args, r, '\n'.join(body), '\n'.join(init), '\n'.join(pre)), inputs, otypes


def pick(rnd, d):
    k = d[0]
    if k in ('bit', 'bv', 's', 'u'):
        return rnd.randrange(1 << width(d))
    if k == 'enum':
        return rnd.randrange(len(d[1]))
    if k in ('prod', 'tup'):
        return tuple(pick(rnd, e) for _, e in subs(d))
    i = rnd.randrange(len(d[1]))
    return (i, pick(rnd, subs(d)[i][1]))


def run(ck):
    ck.under_contract('peak.family._RewriterFamily.assemble', 'peak.family._StdMix.__init__/assemble', 'peak.family.SMTFamily.assemble',
                      'peak.family.PyFamily', 'peak.family._AsmFamily.get_adt_t/get_constructor', 'peak.family._RegFamily.gen_register/gen_attr_register',
                      'peak.assembler.AssembledADT (reads, match, from_fields, ==)', 'peak.features (interfaces)', 'peak.peak.Peak')
    ck.trust('hwtypes: SMT and Python vectors have the same operations (compared on concrete inputs); plain ADTs are executed as they are',
             'ast_tools passes are executed; their result is validated per program, not verified once for all')
    ck.assume('supported subset: names bound on all paths before use, comparisons parenthesised under and/or, registers called unconditionally before any return')
    n = 250 if ck.thorough else 40
    rnd = random.Random(ck.seed)
    progs = handwritten()
    for i in range(n):
        src, ins, outs = random_program(rnd, big=i % 3 == 0)
        progs.append(('random program %d' % i, src, ins, outs, {}, None))
    ck.bound('programs: %d handwritten, %d random; inputs, states and histories of each unbounded (leaf widths as written)' % (len(progs) - n, n))
    tasks = []
    for j, (label, src, ins, outs, st, names) in enumerate(progs):
        rand = label.startswith('random')
        steps = [[pick(rnd, d) for _, d in ins] for _ in range(30 if rand else 120)]

        def one(label=label, args=(src, DESCS, ins, outs), st=st, names=names, steps=steps, symx=not rand or j % 4 == 0):
            ck.case('types', *args, names)
            ck.case('run_all', *args, steps)
            ck.section(label, lambda: validate(ck, label, args, st, symx))
        tasks.append((label, one))
    ck.parallel(tasks)
