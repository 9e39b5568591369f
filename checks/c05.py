"""Reading assembled values.  Mode S: AssembledADT of both generations executed symbolically
over arbitrary field types (contract of the field assembler assumed); z3 proves every read,
match flag and wrapping.  Per catalogue type, through the symbolic bit vector type, z3 proves
every nested read and comparison for all opcodes.  Concrete values: bounded search."""
from checks.aadtcommon import *
from checks.aadtcommon import _B

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


@case
def wrap_read(gen, fam, d, v):
    B, a, T = setup(gen, d)
    S = Spec(observed_tags(gen))
    A = aadt(gen, fam, T)
    val = B.val(d, v)
    x = A(val)
    assert isinstance(x._value_, BVT[fam][width(d)]), 'bits are %r' % (type(x._value_),)
    op = S.enc(d, v)
    assert const(x) == op, 'wraps %d, opcode is %d' % (const(x), op)
    assert const(a.assemble(val, BVT[fam])) == op

    def go(d, v, x):
        if d[0] in ('prod', 'tup'):
            for i, ((m, e), y) in enumerate(zip(subs(d), v)):
                r = field(d, x, m, i)
                assert const(r) == S.enc(e, y), 'field %r reads %d, not %d' % (m, const(r), S.enc(e, y))
                go(e, y, r)
        elif d[0] in ('sum', 'tu'):
            for i, (m, e) in enumerate(subs(d)):
                r = field(d, x, m, i)
                assert flag(r.match) == (i == v[0]), 'match of %r is %r' % (m, flag(r.match))
                if i == v[0]:
                    assert const(r.value) == S.enc(e, v[1]), 'payload reads %d' % const(r.value)
                    go(e, v[1], r.value)
    go(d, v, x)


@case
def compare(gen, fam, d, v, w):
    B, a, T = setup(gen, d)
    A = aadt(gen, fam, T)
    p, q = B.val(d, v), B.val(d, w)
    oq = a.assemble(q, BVT[fam])
    same = const(a.assemble(p, BVT[fam])) == const(oq)
    for nm, o in (('assembled', A(q)), ('opcode', oq), ('plain', q)):
        assert flag(A(p) == o) == same, 'equal to %s value is %r' % (nm, not same)
        assert flag(A(p) != o) != same, 'unequal to %s value is %r' % (nm, same)


@case
def read_opcode(gen, fam, d, b):
    """reads of an arbitrary opcode select the field ranges"""
    B, a, T = setup(gen, d)
    A = aadt(gen, fam, T)
    S = Spec(observed_tags(gen))
    x = A(BVT[fam][width(d)](b))
    for path, lo, e, y, m, t in reads(gen, d, x):
        want = b >> lo & (1 << width(e)) - 1
        assert const(y) == want, 'reading %r gives %d, bits are %d' % (path, const(y), want)
        if t:
            l, s, i = t
            tag = b >> l & (1 << tag_width(s)) - 1
            assert flag(m) == (tag == S.tags(s)[i]), 'match of %r on tag %d' % (path, tag)


def symbolic(ck, n):
    for gen in GENS:
        S = Spec(observed_tags(gen))
        for d in catalogue(ck.seed, n, 40):
            if not good(d):
                continue
            B, a, T = setup(gen, d)
            w = width(d)

            def go():
                A = aadt(gen, 'smt', T)
                b, c = SMTBitVector[w](), SMTBitVector[w]()
                zb, zc = smt.to_z3(b), smt.to_z3(c)
                x = A(b)
                fs = [('wraps the opcode', term(x) == zb)]
                for path, lo, e, y, m, t in reads(gen, d, x):
                    fs.append(('reads %r' % (path,), term(y) == z3.Extract(lo + width(e) - 1, lo, zb)))
                    if t:
                        l, s, i = t
                        fs.append(('match of %r' % (path,), smt.to_z3(m) == (z3.Extract(l + tag_width(s) - 1, l, zb) == S.tags(s)[i])))
                fs.append(('equality with an assembled value', smt.to_z3(x == A(c)) == (zb == zc)))
                fs.append(('equality with an opcode', smt.to_z3(x == c) == (zb == zc)))
                fs.append(('inequality', smt.to_z3(x != A(c)) == (zb != zc)))
                for v in values(d, 3):
                    fs.append(('equality with a plain value', smt.to_z3(x == B.val(d, v)) == (zb == S.enc(d, v))))
                bad = [(nm, f) for nm, f in fs if smt.valid(f)[0] != 'proved']
                name = '%s: all opcodes of %r' % (gen, d)
                if not bad:
                    ck.obl(name, 'proved', 'z3', '%d formulas' % len(fs))
                    return
                st, m = smt.valid(bad[0][1])
                ck.obl(name, st, 'z3', '%s %s' % (bad[0][0], m))
                if m is not None:
                    o, o2 = (m.eval(t, model_completion=True).as_long() for t in (zb, zc))
                    ck.case('read_opcode', gen, 'smt', d, o)
                    ck.case('read_opcode', gen, 'py', d, o)
                    p, q = S.dec(d, o), S.dec(d, o2)
                    if p is not None and q is not None:
                        ck.case('compare', gen, 'smt', d, p, q)
            ck.section('%s: all opcodes of %r' % (gen, d), go)


def run(ck):
    prove(ck, 'C05')
    ck.under_contract(*['%s.AssembledADT.%s' % (g, f) for g in GENS for f in ('__init__', '__getitem__', '__getattr__', '_get', '__eq__', '__ne__', 'metaclass __getitem__/__getattr__')])
    n = 200 if ck.thorough else 60
    ck.section('symbolic opcodes', symbolic, ck, n)
    ck.bound('catalogue and %d nested types, %d values each; pairs of values' % (n, 60 if ck.thorough else 12))
    r = random.Random(ck.seed)
    for gen in GENS:
        for d in catalogue(ck.seed, n, 40):
            if not good(d):
                continue
            vs = values(d, 60 if ck.thorough else 12)
            for fam in ('py', 'smt'):
                for v in vs if fam == 'py' else vs[:4]:
                    if not ck.case('wrap_read', gen, fam, d, v):
                        break
                for _ in range(4):
                    if not ck.case('compare', gen, fam, d, r.choice(vs), r.choice(vs)):
                        break
            for b in range(4):
                ck.case('read_opcode', gen, 'py', d, r.getrandbits(width(d)))
