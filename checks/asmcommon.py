import functools
from vc import fresh
from vc.isa import *
from vc.isa import Build
from vc.asmproofs import Proofs

GENS = ('assembler', 'assembler2')
ASM_FUNCS = ['assembler.%s' % f for f in (
    'Assembler.__init__', 'Assembler.width', 'Assembler.layout', 'Assembler.assemble', 'Assembler.disassemble',
    'Assembler.is_valid', 'Assembler.assemble_tag', 'Assembler.disassemble_tag', 'Assembler.is_valid_tag',
    '_enum', '_tuple', '_sum', '_field', '_gen_is_valid (tag sets)', 'Sub')] + ['assembler2.%s' % f for f in (
    'Assembler.__init__', 'Assembler.width', 'Assembler.assemble', 'Assembler.disassemble', 'Assembler.is_valid',
    'Assembler.extract', 'Assembler.match', '_enum', '_tuple', '_sum', '_field', '_extend_to_width')]
_B = Build()


def prove(ck, *want):
    ck.under_contract(*ASM_FUNCS)
    ck.trust('contract of hwtypes BitVector/Bit operations (slice, concat, zext, shift, or, comparison) as written in vc/sym.py',
             'hwtypes ADT construction and value_dict (executed, not verified)',
             'induction principle: a contract proved for every constructor from the contract of its components holds for every finite type',
             'mechanical load changes listed in vc/load.py')
    ck.assume('number of fields/variants per constructor enumerated up to %d (enum members up to %d); widths, values, opcodes and explicit codes unbounded' % (
        (5, 4) if ck.thorough else (4, 3)),
        'explicit enum codes are distinct nonnegative integers',
        'variant types of one sum have distinct printed names')
    P = Proofs(ck, want, N=5 if ck.thorough else 4)
    P.all()


@functools.lru_cache(None)
def asm_class(gen):
    import importlib
    return importlib.import_module('peak.' + gen).Assembler


def setup(gen, d):
    T = _B(d)
    return _B, asm_class(gen)(T), T


def norm(d, v):
    return v


def smt_ok(d):
    return min_width_ok(d)


def to_desc_value(d, x):
    """descriptor value of a hwtypes value"""
    k = d[0]
    if k == 'bit':
        return int(bool(x))
    if k in ('bv', 'u', 's'):
        return x.as_uint()
    if k == 'enum':
        return [n for n, _ in d[1]].index(x.name)
    if k in ('prod', 'tup'):
        return tuple(to_desc_value(y, x.value_dict[m]) for m, y in subs(d))
    for i, (m, y) in enumerate(subs(d)):
        key = m if k == 'tu' else _B(y)
        if x.value_dict[key] is not None:
            return (i, to_desc_value(y, x.value_dict[key]))
    raise AssertionError('no variant')


@functools.lru_cache(None)
def observed_tags(gen):
    """tags of a sum descriptor observed by assembling one value per variant"""
    @functools.lru_cache(None)
    def tags(d):
        B, a, T = setup(gen, d)
        out = []
        for i, (_, x) in enumerate(subs(d)):
            op = a.assemble(B.val(d, (i, values(x, 2)[0])))
            out.append(int(op) & (1 << tag_width(d)) - 1)
        return out
    return tags
