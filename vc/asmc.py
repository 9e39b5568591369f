"""Contracts of the two assembler generations, attached to the real classes."""
from . import sym
from .sym import *  # noqa
from .load import Pkg


class Gen:
    """A fresh load of one assembler generation with the contract of
    Assembler(F) installed for abstract ISA types F (see AbsMeta)."""

    def __init__(self, gen):
        self.gen = gen
        self.pkg = Pkg('peak/' + gen)
        self.mod = self.pkg['assembler']
        self.Assembler = A = self.mod.Assembler
        install(A, gen)
        # a reference to the class held elsewhere in the package is the same object

    def close(self):
        self.pkg.close()


def install(A, gen):
    orig_init = A.__init__

    def __init__(self, isa, *a, **k):
        if not sym.real_isinstance(isa, AbsMeta):
            return orig_init(self, isa, *a, **k)
        self._isa = isa
        self._width = isa.width
        self._layout = {}
        if gen == 'assembler':
            self._asm = lambda inst: SBits(_inst(isa, inst).fn, isa.width)
        else:
            self._asm = lambda inst, bv_type: SymBV(isa.width, _inst(isa, inst).fn)
        self._dsm = lambda bv: abs_dsm(isa, bv)
        self._isv = self._is_valid = lambda bv: abs_valid(isa, bv)
        self._contract_ = isa

    A.__init__ = __init__

    def wrap(name, contract):
        orig = getattr(A, name)

        def method(self, *a, **k):
            isa = getattr(self, '_contract_', None)
            if isa is None:
                return orig(self, *a, **k)
            return contract(self, isa, *a, **k)
        setattr(A, name, method)

    def c_assemble(self, isa, inst, bv_type=BV):
        return SymBV(isa.width, _inst(isa, inst).fn)

    def c_disassemble(self, isa, bv):
        if gen == 'assembler' and not abs_valid(isa, bv):
            raise ValueError('invalid opcode')
        return abs_dsm(isa, bv)

    wrap('assemble', c_assemble)
    wrap('disassemble', c_disassemble)
    wrap('is_valid', lambda self, isa, bv: abs_valid(isa, bv))
    A.width = property(_width(A.width.fget))


def _width(orig):
    def width(self):
        isa = getattr(self, '_contract_', None)
        return orig(self) if isa is None else isa.width
    return width


def _inst(isa, v):
    if type(v) is not isa:
        raise Anomaly('assembling a value of another type')
    return v
