"""Enum codes and variant tags: proved for every constructor (symbolic explicit codes, every
mix of explicit and automatic members, every equal/different pattern of variant types);
determinism and agreement of the generations over a catalogue, in fresh processes with
different hash seeds."""
import itertools
import json
import os
import random
import subprocess
import sys
from vc.isa import *
from checks.asmcommon import *
from checks.asmcommon import _B

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


@case
def enum(gen, d):
    B, a, T = setup(gen, d)
    codes = enum_codes(d)
    for i, (m, c) in enumerate(zip(d[1], codes)):
        op = a.assemble(getattr(T, m[0]))
        assert int(op) == c, 'member %s is encoded %d, expected %d' % (m[0], int(op), c)
        assert op.size == a.width
    assert a.width == max(codes).bit_length(), 'width %d' % a.width


@case
def tags(gen, d):
    """tags are 0..n-1, one per variant; tag functions inverse; tag validity"""
    B, a, T = setup(gen, d)
    n = len(subs(d))
    tw = tag_width(d)
    seen = []
    for i, (m, x) in enumerate(subs(d)):
        ts = set()
        for v in values(x, 4):
            op = a.assemble(B.val(d, (i, v)))
            ts.add(int(op) & (1 << tw) - 1)
        assert len(ts) == 1, 'tag of variant %r depends on the payload' % (m,)
        t = ts.pop()
        seen.append(t)
        key = B(x) if d[0] == 'sum' else m
        if gen == 'assembler':
            for BVT in (BitVector, UIntVector):
                tb = a.assemble_tag(key, BVT)
                assert isinstance(tb, BVT[tw]) and int(tb) == t, 'assemble_tag(%r) is %r' % (m, tb)
                assert a.disassemble_tag(tb) == key
    assert sorted(seen) == list(range(n)), 'tags %r' % (seen,)
    if gen == 'assembler':
        assert a.tag_width == tw
        for t in range(1 << tw):
            tb = BitVector[tw](t)
            ok = bool(a.is_valid_tag(tb))
            assert ok == (t < n), 'is_valid_tag(%d) is %r with %d variants' % (t, ok, n)
            if not ok:
                try:
                    a.disassemble_tag(tb)
                except ValueError:
                    continue
                assert False, 'invalid tag disassembled'


PROG = '''
import sys, json
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import vc.fresh
from vc.isa import *
from vc.isa import Build
import importlib
ds = eval(sys.stdin.read())
order = sys.argv[1]
B = Build()
for d in ds: B(d)                      # same names whatever the order
out = {}
idx = list(range(len(ds)))
if order == 'rev': idx.reverse()
for i in idx:
    d = ds[i]
    r = []
    for gen in (('assembler', 'assembler2') if order != 'rev' else ('assembler2', 'assembler')):
        A = importlib.import_module('peak.' + gen).Assembler
        try:
            r.append((gen, [int(A(B(d)).assemble(B.val(d, v))) for v in values(d, 30)]))
        except Exception as e:
            r.append((gen, repr(e)))
    r.sort()
    out[i] = r
print(json.dumps([out[i] for i in range(len(ds))]))
'''


def encodings(ds, seed, order='fwd'):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, '-c', PROG % here, order], input=repr(ds), capture_output=True, text=True, env=env)
    if r.returncode:
        raise RuntimeError(r.stderr[-800:])
    return json.loads(r.stdout)


def distinct_names(d):
    """variant types of every Sum print differently"""
    if d[0] == 'sum' and len({repr(_B(x)) for x in d[1]}) != len(d[1]):
        return False
    return all(distinct_names(x) for _, x in subs(d))


@case
def deterministic(ds, seeds):
    ref = None
    for s in seeds:
        out = encodings(ds, s, 'rev' if s % 2 else 'fwd')
        for d, (g1, g2) in zip(ds, out):
            assert g1[1] == g2[1], 'generations differ on %r: %r / %r' % (d, g1[1], g2[1])
        if ref is None:
            ref = out
        for d, x, y in zip(ds, ref, out):
            assert x == y, 'opcodes of %r depend on the process: %r / %r' % (d, x, y)


def run(ck):
    prove(ck, 'C04')
    n = 300 if ck.thorough else 100
    r = random.Random(ck.seed)
    ds = [d for d in catalogue(ck.seed, n, 40) if distinct_names(d)]
    en = list(ENUMS)
    for k in range(1, 5):
        for pat in itertools.product([None, 0, 1, 2, 3, 5, 8], repeat=k):
            e = [p for p in pat if p is not None]
            if len(set(e)) == len(e) and (k < 4 or r.random() < (1 if ck.thorough else .15)):
                en.append(('enum', tuple(('m%d' % i, p) for i, p in enumerate(pat))))
    ck.bound('%d enums of up to 4 members over codes {auto,0,1,2,3,5,8}; %d composite types; hash seeds %s' % (
        len(en), len(ds), '0-3' if not ck.thorough else '0-11'))
    for gen in GENS:
        for d in en:
            ck.case('enum', gen, d)
        done = set()

        def rec(d):
            if d in done:
                return
            done.add(d)
            if d[0] in ('sum', 'tu'):
                ck.case('tags', gen, d)
            elif d[0] == 'enum':
                ck.case('enum', gen, d)
            for _, x in subs(d):
                rec(x)
        for d in ds:
            rec(d)
        for k in range(1, 10):
            rec(('tu', tuple(('v%d' % (i * 7 % 10), ('bv', 1 + i % 3)) for i in range(k))))
            rec(('sum', tuple(('bv', 1 + i) for i in range(k))))
    seeds = tuple(range(12 if ck.thorough else 4))
    for i in range(0, len(ds), 40):
        ck.case('deterministic', tuple(ds[i:i + 40]), seeds)
