"""ISA type descriptors, their hwtypes types, values, and an independent specification
of what an opcode of the type is.

Descriptor (a literal, so replay files can carry it):
  ('bit',)  ('bv', n)  ('s', n)  ('u', n)            leaves
  ('enum', ((name, int|None), ...))                  None: auto
  ('prod', ((name, d), ...))  ('tup', (d, ...))
  ('sum', (d, ...))           ('tu', ((name, d), ...))
Value of a descriptor:
  bit/bv/s/u: int;  enum: member index;  prod/tup: tuple of values;
  sum/tu: (variant index, value)
"""
import itertools
import random
import types
from functools import lru_cache

import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion


class Build:
    """Build the hwtypes type once per descriptor (types are compared by identity)."""

    def __init__(self):
        self.memo = {}
        self.n = 0

    def __call__(self, d):
        if d not in self.memo:
            self.memo[d] = self._b(d)
        return self.memo[d]

    def _b(self, d):
        k = d[0]
        if k == 'bit':
            return Bit
        if k == 'bv':
            return BitVector[d[1]]
        if k == 's':
            return SIntVector[d[1]]
        if k == 'u':
            return UIntVector[d[1]]
        self.n += 1
        nm = '%s%d' % (k.capitalize(), self.n)
        if k == 'enum':
            return types.new_class(nm, (Enum,), {}, lambda ns: [
                ns.__setitem__(m, Enum.Auto() if v is None else v) for m, v in d[1]] and None)
        if k == 'prod':
            return Product.from_fields(nm, {m: self(x) for m, x in d[1]}, cache=False)
        if k == 'tu':
            return TaggedUnion.from_fields(nm, {m: self(x) for m, x in d[1]}, cache=False)
        if k == 'tup':
            return Tuple[tuple(self(x) for x in d[1])]
        if k == 'sum':
            return Sum[tuple(self(x) for x in d[1])]
        raise ValueError(d)

    def val(self, d, v):
        """the hwtypes value"""
        T = self(d)
        k = d[0]
        if k in ('bit', 'bv', 's', 'u'):
            return T(v)
        if k == 'enum':
            return getattr(T, d[1][v][0])
        if k == 'prod':
            return T(*[self.val(x, y) for (_, x), y in zip(d[1], v)])
        if k == 'tup':
            return T(*[self.val(x, y) for x, y in zip(d[1], v)])
        if k == 'sum':
            return T(self.val(d[1][v[0]], v[1]))
        if k == 'tu':
            return T(**{d[1][v[0]][0]: self.val(d[1][v[0]][1], v[1])})
        raise ValueError(d)


def subs(d):
    """[(key, descriptor)] components of a composite"""
    if d[0] in ('prod', 'tu'):
        return list(d[1])
    if d[0] in ('tup', 'sum'):
        return list(enumerate(d[1]))
    return []


def enum_codes(d):
    """canonical member codes"""
    used = {v for _, v in d[1] if v is not None}
    out, c = [], 0
    for _, v in d[1]:
        if v is None:
            while c in used:
                c += 1
            used.add(c)
            out.append(c)
        else:
            out.append(v)
    return out


def tag_width(d):
    return (len(d[1]) - 1).bit_length()


@lru_cache(None)
def width(d):
    k = d[0]
    if k == 'bit':
        return 1
    if k in ('bv', 's', 'u'):
        return d[1]
    if k == 'enum':
        return max(enum_codes(d)).bit_length()
    if k in ('prod', 'tup'):
        return sum(width(x) for _, x in subs(d))
    return tag_width(d) + max(width(x) for _, x in subs(d))


class Spec:
    """tags(d) -> list of tags by variant index (observed once from the code; that
    they are a deterministic bijection is property C04)."""

    def __init__(self, tags):
        self.tags = tags

    def enc(self, d, v):
        k = d[0]
        if k in ('bit', 'bv', 'u'):
            return v
        if k == 's':
            return v % (1 << d[1])
        if k == 'enum':
            return enum_codes(d)[v]
        if k in ('prod', 'tup'):
            off = r = 0
            for (_, x), y in zip(subs(d), v):
                r |= self.enc(x, y) << off
                off += width(x)
            return r
        i, y = v
        return self.tags(d)[i] | self.enc(subs(d)[i][1], y) << tag_width(d)

    def used(self, d, v):
        """mask of the bits the value's chosen variants use"""
        k = d[0]
        if k in ('bit', 'bv', 's', 'u', 'enum'):
            return (1 << width(d)) - 1
        if k in ('prod', 'tup'):
            off = r = 0
            for (_, x), y in zip(subs(d), v):
                r |= self.used(x, y) << off
                off += width(x)
            return r
        i, y = v
        tw = tag_width(d)
        return (1 << tw) - 1 | self.used(subs(d)[i][1], y) << tw

    def dec(self, d, b):
        """value denoted by the opcode, or None if it is invalid"""
        k = d[0]
        if k in ('bit', 'bv', 'u', 's'):
            return b
        if k == 'enum':
            c = enum_codes(d)
            return c.index(b) if b in c else None
        if k in ('prod', 'tup'):
            out = []
            for _, x in subs(d):
                w = width(x)
                y = self.dec(x, b & (1 << w) - 1)
                if y is None:
                    return None
                out.append(y)
                b >>= w
            return tuple(out)
        tw = tag_width(d)
        t = b & (1 << tw) - 1
        tags = self.tags(d)
        if t not in tags:
            return None
        i = tags.index(t)
        x = subs(d)[i][1]
        y = self.dec(x, b >> tw & (1 << width(x)) - 1)
        return None if y is None else (i, y)


def ranges(d, off=0):
    """[(path, lo, hi, descriptor)] of all nested fields (spec layout)"""
    out = []
    if d[0] in ('prod', 'tup'):
        for m, x in subs(d):
            w = width(x)
            out.append(((m,), off, off + w, x))
            out += [((m,) + p, a, b, y) for p, a, b, y in ranges(x, off)]
            off += w
    elif d[0] in ('sum', 'tu'):
        o = off + tag_width(d)
        for m, x in subs(d):
            out.append(((m,), o, o + width(x), x))
            out += [((m,) + p, a, b, y) for p, a, b, y in ranges(x, o)]
    return out


def values(d, limit=None):
    """all values (or an evenly spread subset of at most `limit`)"""
    k = d[0]
    if k == 'bit':
        return [0, 1]
    if k in ('bv', 'u', 's'):
        n = 1 << d[1]
        if limit is None or n <= limit:
            return list(range(n))
        step = n // limit
        return sorted(set([0, 1, n - 1, n // 2] + [i * step + (i % step if step > 1 else 0) for i in range(limit)]))
    if k == 'enum':
        return list(range(len(d[1])))
    if k in ('prod', 'tup'):
        ls = [values(x, limit) for _, x in subs(d)]
        tot = 1
        for l in ls:
            tot *= len(l)
        if limit is None or tot <= limit:
            return list(itertools.product(*ls))
        r = random.Random(repr(d))
        out = [tuple(l[0] for l in ls), tuple(l[-1] for l in ls)]
        out += [tuple(r.choice(l) for l in ls) for _ in range(limit)]
        return list(dict.fromkeys(out))
    out = []
    for i, (_, x) in enumerate(subs(d)):
        out += [(i, y) for y in values(x, limit)]
    if limit and len(out) > 2 * limit:
        r = random.Random(repr(d))
        keep = [next(o for o in out if o[0] == i) for i in range(len(subs(d)))]
        out = keep + r.sample(out, limit)
    return out


def min_width_ok(d):
    """every component (and tag) at least one bit wide"""
    if d[0] in ('sum', 'tu') and tag_width(d) < 1:
        return False
    return width(d) >= 1 and all(min_width_ok(x) for _, x in subs(d))


# ---------------------------------------------------------------- families of types
E3 = ('enum', (('a', 0), ('b', 1), ('c', 2)))
ENUMS = [
    ('enum', (('a', 0),)),
    ('enum', (('a', 1),)),
    ('enum', (('a', None), ('b', None))),
    E3,
    ('enum', (('a', 1), ('b', 2), ('c', 4))),
    ('enum', (('a', 0), ('b', 1), ('c', 2), ('e', 4))),
    ('enum', (('a', 5), ('b', None), ('c', 0), ('e', None))),
    ('enum', (('a', None), ('b', 0), ('c', 1))),
    ('enum', (('a', 1), ('b', 3), ('c', 4), ('e', 6), ('f', 7))),
    ('enum', (('a', 2), ('b', 3), ('c', 4))),
    ('enum', (('z', 9), ('y', None), ('x', 8), ('w', None), ('v', 1))),
    ('enum', (('a', 0), ('b', 1), ('c', 2), ('e', 5), ('f', 6), ('g', 7), ('h', 11))),
    ('enum', (('a', 4), ('b', 5), ('c', 6), ('e', 7))),
    ('enum', (('a', 3), ('b', 4), ('c', 5))),
    ('enum', tuple(('m%d' % i, None) for i in range(9))),
]


def nested(seed=0, n=60, depth=3, maxw=24):
    """deterministic random nested descriptors"""
    r = random.Random(seed)

    def leaf():
        c = r.random()
        if c < .15:
            return ('bit',)
        if c < .5:
            return ('bv', r.choice([1, 1, 2, 3, 4, 5, 7, 8]))
        if c < .6:
            return (r.choice(['s', 'u']), r.choice([1, 2, 3, 4]))
        if c < .9:
            return r.choice(ENUMS)
        vals = r.sample(range(16), r.randint(2, 6))
        ms = [('m%d' % i, v if r.random() < .7 else None) for i, v in enumerate(vals)]
        return ('enum', tuple(ms))

    def go(k):
        if k == 0 or r.random() < .2:
            return leaf()
        c = r.choice(['prod', 'tup', 'sum', 'tu'])
        m = r.randint(1, 4)
        fs = [go(k - 1) for _ in range(m)]
        if c == 'tup':
            return ('tup', tuple(fs))
        if c == 'sum':
            return ('sum', tuple(dict.fromkeys(fs)))
        names = r.sample(['p', 'q', 'aa', 'b', 'zz', 'x1', 'x10', 'x2', 'Q', 'k'], len(fs))
        if c == 'tu' and r.random() < .4 and len(fs) > 1:
            fs[-1] = fs[0]
        return (c, tuple(zip(names, fs)))
    out = []
    while len(out) < n:
        d = go(depth)
        if d[0] in ('prod', 'tup', 'sum', 'tu') and width(d) <= maxw and d not in out and sum_ok(d):
            out.append(d)
    return out


_SB = Build()


def sum_ok(d):
    """variant types of a Sum must be distinct as Python types"""
    # (and none a Python subclass of another: hwtypes picks the variant by isinstance)
    if d[0] == 'sum':
        Ts = [_SB(x) for x in d[1]]
        if any(a is not b and issubclass(a, b) for a in Ts for b in Ts) or len(set(Ts)) != len(Ts):
            return False
    return all(sum_ok(x) for _, x in subs(d))


BASE = [
    ('bit',), ('bv', 1), ('bv', 8), ('bv', 70), ('s', 4), ('u', 5),
    ('prod', (('a', ('bv', 3)), ('b', ('bit',)), ('c', E3))),
    ('prod', (('a', ('bv', 33)), ('b', ('bv', 40)))),
    ('tup', (('bit',), ('bv', 2), ('bv', 1), E3)),
    ('sum', (('bv', 3), ('bit',), E3)),
    ('sum', (('bv', 2), ('bv', 4))),
    ('sum', (('bv', 5),)),
    ('tu', (('y', ('bv', 3)), ('x', ('bv', 3)), ('z', ('bit',)))),
    ('tu', (('a', ('bv', 2)), ('b', E3), ('c', ('bv', 2)), ('e', ('bit',)), ('f', ('bv', 2)))),
    ('prod', (('op', ('tu', (('i', ('bv', 4)), ('j', ('prod', (('p', ('bit',)), ('q', ('bv', 2)))))))), ('t', ('tup', (E3, ('bit',)))))),
    ('tup', (('sum', (('bv', 1), ('bv', 3), ('prod', (('m', ('bit',)), ('n', ENUMS[6]))))), ('bv', 2))),
    ('sum', (('prod', (('a', ('bv', 2)),)), ('tup', (('bv', 2), ('bit',))), ('bit',))),
    ('prod', (('e', ENUMS[0]), ('b', ('bv', 2)))),
    ('prod', (('b', ('bv', 2)), ('e', ENUMS[1]), ('c', ENUMS[8]))),
]


def catalogue(seed=1, n=60, maxw=24):
    return BASE + ENUMS + nested(seed, n, 3, maxw)
