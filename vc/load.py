"""Load modules of /repo for symbolic execution, from the current source, on every run.

What the load changes (and nothing else):
  * annotations are not evaluated (PEP 563 compile flag): they mention vectors of
    symbolic width and play no part in the functions verified this way;
  * an empty dict display {} and set() make containers that compare their keys
    with == (as Python does up to hashing), so keys may be symbolic;
  * the builtins int, isinstance, issubclass, len, range, max, min, sum, sorted
    seen by the module accept the proxies of sym.py as well as ordinary values.
Every module of the package is compiled from the text in /repo at that moment;
helper modules added to the package are found the same way.
"""
import ast
import builtins
import __future__
import os
import sys
import types
from . import sym
from .sym import *  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}


class _ShadowInt(type):
    def __call__(cls, x=0, *a):
        if sym.real_isinstance(x, (SInt, SBits)):
            return x
        if sym.real_isinstance(x, AbsVal):
            return SBits(x.fn, x.width)
        if sym.real_isinstance(x, SymBV):
            return x.as_uint()
        if sym.real_isinstance(x, SBit):
            return SBits(lambda k: z3.And(k == 0, x.e), 1)
        return sym.real_int(x, *a)

    def __instancecheck__(cls, x):
        return sym.real_isinstance(x, (sym.real_int, SInt, SBits))

    def __subclasscheck__(cls, T):
        return sym.real_issubclass(T, (sym.real_int, SInt, SBits))

    def __eq__(cls, o):
        return o is cls or o is sym.real_int

    def __hash__(cls):
        return hash(sym.real_int)


class ShadowInt(metaclass=_ShadowInt):
    from_bytes = int.from_bytes


def _flat(T):
    if sym.real_isinstance(T, tuple):
        for t in T:
            yield from _flat(t)
    else:
        yield T


def make_builtins():
    import hwtypes
    ABV, ABit = hwtypes.AbstractBitVector, hwtypes.AbstractBit

    def s_isinstance(x, T):
        for t in _flat(T):
            if t is ShadowInt or t is sym.real_int:
                if sym.real_isinstance(x, (sym.real_int, SInt, SBits)):
                    return True
            elif sym.real_isinstance(t, BVType):
                if sym.real_isinstance(x, SymBV) and bool(x.size == t.size):
                    return True
            elif t is ABV or t is hwtypes.BitVector or t is BV:
                if sym.real_isinstance(x, SymBV):
                    return True
                if t is not BV and sym.real_isinstance(x, t):
                    return True
            elif t is ABit or t is hwtypes.Bit:
                if sym.real_isinstance(x, SBit) or sym.real_isinstance(x, t):
                    return True
            elif sym.real_isinstance(x, AbsMeta) and getattr(t, '__name__', '') == 'GetitemSyntax':
                return True
            elif sym.real_isinstance(x, t):
                return True
        return False

    def s_issubclass(S, T):
        for t in _flat(T):
            if t is ABV:
                if sym.real_isinstance(S, (BVType, BVFactory)) or getattr(S, '_sym_leaf_', None) == 'bv':
                    return True
            if t is ABit:
                if S is SBit or getattr(S, '_sym_leaf_', None) == 'bit':
                    return True
            if sym.real_isinstance(S, (BVType, BVFactory)):
                continue
            if t is ShadowInt:
                t = sym.real_int
            if sym.real_isinstance(t, (BVType, BVFactory)):
                continue
            if sym.real_issubclass(S, t):
                return True
        return False

    def s_len(x):
        return sym.real_len(x)

    def s_range(*a):
        return sym.real_range(*[sym.real_int(i) if sym.real_isinstance(i, SInt) else i for i in a])

    def _mm(real, two):
        def f(*a, **k):
            if len(a) == 1:
                items = list(a[0])
            else:
                items = list(a)
            if 'key' in k or not any(sym.real_isinstance(i, SInt) for i in items):
                return real(items, **k)
            d = [k['default']] if not items and 'default' in k else items
            r = d[0]
            for i in d[1:]:
                r = two(r, i)
            return r
        return f

    def s_set(it=()):
        return SSet(it)

    class _M(type):
        def __instancecheck__(cls, x):
            return sym.real_isinstance(x, dict)

        def __call__(cls, *a, **k):
            r = SDict(*a)
            r.update(k)
            return r

    class _SDictT(metaclass=_M):
        pass

    b = dict(vars(builtins))
    b.update(isinstance=s_isinstance, issubclass=s_issubclass, int=ShadowInt, len=s_len,
             range=s_range, set=s_set, dict=_SDictT, __sdict__=SDict, max=_mm(max, smax), min=_mm(min, smin))
    return b


_BUILTINS = None


class Finder:
    """meta path finder for the private package names _pv<n>.*"""

    def __init__(self):
        self.pk = {}

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        top, _, rest = name.partition('.')
        if top not in self.pk:
            return None
        f = os.path.join(self.pk[top], rest.replace('.', '/') + '.py')
        if not os.path.exists(f):
            return None
        return importlib.machinery.ModuleSpec(name, Loader(f), origin=f)


class Loader:
    def __init__(self, f):
        self.f = f

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__file__ = self.f
        return m

    def exec_module(self, m):
        global _BUILTINS
        if _BUILTINS is None:
            _BUILTINS = make_builtins()
        if self.f not in _code:
            tree = _Dicts().visit(ast.parse(open(self.f).read(), self.f))
            ast.fix_missing_locations(tree)
            _code[self.f] = compile(tree, self.f, 'exec',
                                    flags=__future__.annotations.compiler_flag, dont_inherit=True)
        m.__dict__['__builtins__'] = _BUILTINS
        exec(_code[self.f], m.__dict__)


class _Dicts(ast.NodeTransformer):
    """empty dict displays become SDict()"""

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys:
            return n
        return ast.Call(func=ast.Name('__sdict__', ast.Load()), args=[], keywords=[])


_finder = Finder()
sys.meta_path.insert(0, _finder)
_n = 0


class Pkg:
    """A fresh copy of a package directory of /repo (its __init__ is not run)."""

    def __init__(self, subdir):
        global _n
        _n += 1
        self.name = '_pv%d' % _n
        pkg = types.ModuleType(self.name)
        pkg.__path__ = []
        pkg.__package__ = self.name
        sys.modules[self.name] = pkg
        _finder.pk[self.name] = os.path.join(REPO, subdir)

    def __getitem__(self, mod):
        import importlib
        return importlib.import_module(self.name + '.' + mod)

    def close(self):
        for k in [k for k in sys.modules if k == self.name or k.startswith(self.name + '.')]:
            del sys.modules[k]
        _finder.pk.pop(self.name, None)
