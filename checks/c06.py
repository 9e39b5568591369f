"""Building assembled values from parts.  Mode S: from_fields of both generations executed
symbolically with arbitrary field types (enumerated widths, symbolic payloads); z3 proves
agreement with the assembled whole value and the default bits.  Per catalogue type, with
symbolic parts, z3 proves agreement with the specified packing; concrete cases search for
failing inputs and cover the rejection of wrong parts."""
import itertools
from checks.aadtcommon import *
from checks.aadtcommon import _B

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


def part(gen, fam, d, v):
    """assembled value of a component"""
    B, a, T = setup(gen, d)
    A = aadt(gen, fam, T)
    if d[0] == 'bit':
        return A(v)
    if d[0] in ('bv', 'u', 's'):
        return A(v)
    return A(B.val(d, v))


def build(gen, fam, d, v, how, mk, default=None):
    T = _B(d)
    A = aadt(gen, fam, T)
    k = {} if default is None else {'default_bv': default}
    if d[0] in ('prod', 'tup'):
        ps = [mk(gen, fam, e, y) for (m, e), y in zip(subs(d), v)]
        if how == 'keyword':
            return A.from_fields(**dict(reversed([(m, p) for (m, _), p in zip(subs(d), ps)])), **k)
        if how == 'mixed':
            return A.from_fields(*ps[:1], **dict([(m, p) for (m, _), p in zip(subs(d), ps)][1:]), **k)
        return A.from_fields(*ps, **k)
    i, y = v
    m, e = subs(d)[i]
    p = mk(gen, fam, e, y)
    if d[0] == 'tu':
        return A.from_fields(**{m: p}, **k)
    return A.from_fields(_B(e), p, **k)


def deep(gen, fam, d, v):
    """build every nested value from its parts"""
    if not subs(d):
        return part(gen, fam, d, v)
    return build(gen, fam, d, v, 'positional', deep)


@case
def parts(gen, fam, d, v, how, default):
    S = Spec(observed_tags(gen))
    x = build(gen, fam, d, v, how, part, default)
    assert type(x) is aadt(gen, fam, _B(d))
    assert x._value_.size == width(d)
    want = S.enc(d, v)
    if d[0] in ('sum', 'tu') and default:
        lo = tag_width(d) + width(subs(d)[v[0]][1])
        want |= (1 << width(d)) - (1 << lo)
    assert const(x) == want, 'built %d, expected %d' % (const(x), want)
    m = S.used(d, v)
    whole = const(aadt(gen, fam, _B(d))(_B.val(d, v)))
    assert const(x) & m == whole & m


@case
def nested_parts(gen, fam, d, v):
    S = Spec(observed_tags(gen))
    x = deep(gen, fam, d, v)
    assert const(x) == S.enc(d, v), 'built %d, expected %d' % (const(x), S.enc(d, v))


@case
def rejects(gen, fam, d, v, what):
    A = aadt(gen, fam, _B(d))
    ps = [part(gen, fam, e, y) for (m, e), y in zip(subs(d), v)] if d[0] in ('prod', 'tup') else None
    names = [m for m, _ in subs(d)]
    try:
        if what == 'missing':
            x = A.from_fields(*ps[:-1])
        elif what == 'missing keyword':
            x = A.from_fields(**dict(list(zip(names, ps))[1:]))
        elif what == 'surplus':
            x = A.from_fields(*ps, ps[0])
        elif what == 'surplus keyword':
            x = A.from_fields(**dict(zip(names, ps)), other_=ps[0])
        elif what == 'twice':
            x = A.from_fields(*ps, **{names[0]: ps[0]})
        elif what == 'none':
            x = A.from_fields()
        elif what == 'two variants':
            x = A.from_fields(**{m: part(gen, fam, e, values(e, 1)[0]) for m, e in subs(d)[:2]})
        elif what == 'unknown variant':
            e = subs(d)[v[0]][1]
            p = part(gen, fam, e, v[1])
            x = A.from_fields(**{'other_': p}) if d[0] == 'tu' else A.from_fields(_B(('bv', 77)), p)
        elif what == 'payload only':
            e = subs(d)[v[0]][1]
            x = A.from_fields(part(gen, fam, e, v[1]))
        elif what == 'surplus payload':
            e = subs(d)[v[0]][1]
            p = part(gen, fam, e, v[1])
            x = A.from_fields(_B(e), p, p)
        else:
            raise SystemError(what)
    except SystemError:
        raise
    except Exception:
        return
    assert False, '%s: produced %r' % (what, x)


def wrong(d):
    if d[0] == 'prod':
        return ['missing', 'missing keyword', 'surplus', 'surplus keyword', 'twice', 'none']
    if d[0] == 'tup':
        return ['missing', 'surplus', 'none']
    if d[0] == 'tu':
        return ['none', 'unknown variant'] + (['two variants'] if len(subs(d)) > 1 else [])
    return ['none', 'unknown variant', 'payload only', 'surplus payload']


def symbolic(ck, n):
    for gen in GENS:
        S = Spec(observed_tags(gen))
        for d in catalogue(ck.seed, n, 40):
            if not (subs(d) and good(d)):
                continue
            T = _B(d)

            def go():
                leaf = []

                def sym(gen, fam, e, y):
                    A = aadt(gen, 'smt', _B(e))
                    if e[0] == 'bit':
                        x = SMTBit()
                        leaf.append(z3.If(smt.to_z3(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
                        return x
                    x = SMTBitVector[width(e)]()
                    leaf.append(smt.to_z3(x))
                    if e[0] in ('bv', 'u', 's'):
                        return A(x)
                    return A(x)
                fs = []
                if d[0] in ('prod', 'tup'):
                    for how in ('positional', 'keyword') if d[0] == 'prod' else ('positional',):
                        del leaf[:]
                        x = build(gen, 'smt', d, [None] * len(subs(d)), how, sym)
                        want = leaf[0] if len(leaf) == 1 else z3.Concat(*reversed(leaf))
                        fs.append((how, term(x) == want))
                else:
                    for i, (m, e) in enumerate(subs(d)):
                        for df in ((None, 0, 1) if gen == 'assembler' else (None,)):
                            del leaf[:]
                            x = build(gen, 'smt', d, (i, None), None, sym, df)
                            ps = [z3.BitVecVal(S.tags(d)[i], tag_width(d)), leaf[0]]
                            pad = width(d) - tag_width(d) - width(e)
                            if pad:
                                ps.append(z3.BitVecVal((1 << pad) - 1 if df else 0, pad))
                            fs.append(('variant %r default %r' % (m, df), term(x) == z3.Concat(*reversed(ps))))
                bad = [(nm, f) for nm, f in fs if smt.valid(f)[0] != 'proved']
                ck.obl('%s: all parts of %r' % (gen, d), 'refuted' if bad else 'proved', 'z3', str(bad[:1]))
                if bad:
                    for v in values(d, 40):
                        ck.case('parts', gen, 'smt', d, v, 'positional', None)
            ck.section('%s: all parts of %r' % (gen, d), go)


def run(ck):
    prove(ck, 'C06')
    ck.under_contract('assembler.AssembledADT.from_fields', 'assembler._create_from_layout', 'assembler2.AssembledADT.from_fields',
                      'assembler2._create_from_layout', 'assembler2._tuple.from_fields', 'assembler2._sum.from_fields')
    ck.assume('from parts: component widths enumerated (all pairs of 1-5, chosen triples up to 32), payloads symbolic')
    n = 200 if ck.thorough else 60
    ck.section('symbolic parts', symbolic, ck, n)
    ck.bound('catalogue and %d nested types, %d values each' % (n, 40 if ck.thorough else 8))
    for gen in GENS:
        for d in catalogue(ck.seed, n, 40):
            if not (subs(d) and good(d)):
                continue
            vs = values(d, 40 if ck.thorough else 8)
            for fam in ('py', 'smt'):
                for j, v in enumerate(vs if fam == 'py' else vs[:3]):
                    hows = ['positional'] + (['keyword', 'mixed'] if d[0] == 'prod' else [])
                    dfs = [None] + ([0, 1] if gen == 'assembler' else [])
                    for how in hows:
                        for df in dfs:
                            ck.case('parts', gen, fam, d, v, how, df)
                    ck.case('nested_parts', gen, fam, d, v)
                for w in wrong(d):
                    ck.case('rejects', gen, fam, d, vs[0], w)
    wss = list(itertools.product(range(1, 6), repeat=2)) + [(4, 5, 9), (9, 4, 5), (16, 7, 3), (3, 8, 32)]
    for gen in GENS:
        for ws in wss:
            named = (('b', ('bv', ws[1])),) + tuple(('a%d' % i, ('bv', w)) for i, w in enumerate(ws) if i != 1)
            for d in (('prod', named), ('tu', named), ('sum', tuple(('bv', w) for w in sorted(set(ws))))):
                if d[0] == 'sum' and len(set(ws)) < 2:
                    continue
                vs = [[(1 << width(e)) - 1 - i for i, (m, e) in enumerate(subs(d))]] if d[0] == 'prod' else [
                    (i, y) for i, (m, e) in enumerate(subs(d)) for y in (0, (1 << width(e)) - 1)]
                for v in vs:
                    for df in [None] + ([0, 1] if gen == 'assembler' else []):
                        ck.case('parts', gen, 'py', d, v, 'positional', df)
