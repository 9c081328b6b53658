"""Compiles /repo/gdspy/*.py for symbolic execution (fresh from the working tree each run)."""
from __future__ import annotations
import ast
import builtins
import importlib
import math
import os
import sys
import types
from fractions import Fraction

from . import core, nshim
from .stub import CLIPPER_STUB
from .core import SymNum, SymBool, Unsupported
from .cplx import SymComplex
from .sbytes import SymBytes, SymStr, Piece, StructShim, SymFile, SymTextFile

REPO = os.environ.get("GDSPY_REPO", "/repo")


class OSet(set):
    """set with insertion-order iteration (keeps path replay deterministic)."""

    def __init__(self, it=()):
        super().__init__()
        self._o = {}
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            set.add(self, x)
            self._o[x] = None

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def discard(self, x):
        set.discard(self, x)
        self._o.pop(x, None)

    def remove(self, x):
        set.remove(self, x)
        self._o.pop(x, None)

    def pop(self):
        for x in self._o:
            break
        else:
            raise KeyError("pop from an empty set")
        self.remove(x)
        return x

    def clear(self):
        set.clear(self)
        self._o.clear()

    def __iter__(self):
        return iter(list(self._o))

    def copy(self):
        return OSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return OSet(copy.deepcopy(x, memo) for x in self)

    def __or__(self, o):
        r = OSet(self)
        r.update(o)
        return r

    def union(self, *o):
        r = OSet(self)
        r.update(*o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        return OSet(x for x in self if x in o)

    def intersection(self, *os):
        r = self
        for o in os:
            o = OSet(o)
            r = OSet(x for x in r if x in o)
        return r

    def __sub__(self, o):
        return OSet(x for x in self if x not in o)

    def difference(self, *os):
        r = self
        for o in os:
            o = OSet(o)
            r = OSet(x for x in r if x not in o)
        return r

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __xor__(self, o):
        return (self - o) | (OSet(o) - self)

    def intersection_update(self, *os):
        r = self.intersection(*os)
        for x in list(self):
            if x not in r:
                self.discard(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SymNum) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntType(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return core.s_trunc(x)
        if isinstance(x, SymBool):
            return builtins.int(bool(x))
        if isinstance(x, nshim.SymArray) and x.size == 1:
            return IntType(x.reshape(-1)[0])
        return builtins.int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        return SymBytes.of(b).to_int(signed, byteorder == "big")


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SymNum) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatType(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return core.toreal(x)
        if isinstance(x, nshim.SymArray) and x.size == 1:
            return FloatType(x.reshape(-1)[0])
        return builtins.float(x)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.complex, SymComplex))

    def __getattr__(cls, n):
        return getattr(builtins.complex, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class ComplexType(metaclass=_ComplexMeta):
    def __new__(cls, re=0, im=0):
        if isinstance(re, SymComplex) and not isinstance(im, SymNum):
            return re
        if isinstance(re, SymNum) or isinstance(im, SymNum):
            return SymComplex(re, im)
        return builtins.complex(re, im)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bytes, SymBytes))

    def __getattr__(cls, n):
        return getattr(builtins.bytes, n)


class BytesType(metaclass=_BytesMeta):
    def __new__(cls, x=b"", *a):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (list, tuple)) and any(isinstance(t, SymNum) for t in x):
            return SymBytes(list(x))
        if isinstance(x, SymStr):
            return x.encode()
        return SymBytes.of(builtins.bytes(x, *a))


def s_max(*a, key=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and xs and any(isinstance(x, SymNum) for x in xs) and all(isinstance(x, (SymNum, int, float)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_max2(r, x)
        return r
    return builtins.max(xs, key=key, **kw) if xs or "default" in kw else builtins.max(xs)


def s_min(*a, key=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and xs and any(isinstance(x, SymNum) for x in xs) and all(isinstance(x, (SymNum, int, float)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_min2(r, x)
        return r
    return builtins.min(xs, key=key, **kw) if xs or "default" in kw else builtins.min(xs)


class VFS:
    files = {}


def s_open(name, mode="r", *a, **kw):
    f = VFS.files.get(str(name))
    if "b" in mode:
        if "w" in mode:
            f = SymFile()
            VFS.files[str(name)] = f
        elif f is None:
            raise FileNotFoundError(2, "No such file or directory: %s" % name)
        f.pos = 0
        f.closed = False
        f.disk = True
        if "a" in mode:
            f.pos = len(f.items)
        return f
    if "w" in mode:
        f = SymTextFile()
        VFS.files[str(name)] = f
        return f
    raise Unsupported("open text for reading")


class MathShim:
    def __getattr__(self, n):
        return getattr(math, n)

    @property
    def pi(self):
        return core.ENGINE.pi_value()

    cos = staticmethod(nshim.el_cos)
    sin = staticmethod(nshim.el_sin)
    tan = staticmethod(nshim.el_tan)
    sqrt = staticmethod(lambda x: core.s_sqrt(x) if isinstance(x, SymNum) else math.sqrt(x))
    atan2 = staticmethod(nshim.el_arctan2)
    hypot = staticmethod(nshim.el_hypot)
    floor = staticmethod(core.s_floor)
    ceil = staticmethod(core.s_ceil)
    trunc = staticmethod(core.s_trunc)
    fabs = staticmethod(abs)
    radians = staticmethod(lambda a: a * core.ENGINE.pi_value() / 180)
    degrees = staticmethod(lambda a: a * 180 / core.ENGINE.pi_value())
    log2 = staticmethod(nshim.el_log2)
    frexp = staticmethod(nshim.frexp)
    ldexp = staticmethod(nshim.ldexp)
    acos = staticmethod(nshim.ELEMENT["arccos"])
    isnan = staticmethod(nshim.ELEMENT["isnan"])
    isfinite = staticmethod(nshim.ELEMENT["isfinite"])
    isinf = staticmethod(nshim.ELEMENT["isinf"])

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return abs(a - b) <= core.s_max2(rel_tol * core.s_max2(abs(a), abs(b)), abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


class Recorder:
    """Stand-in for a hash engine: keeps what it is fed."""

    def __init__(self, data=b""):
        self.parts = []
        if data:
            self.parts.append(data)

    def update(self, x):
        self.parts.append(x)

    def hexdigest(self):
        return self

    def digest(self):
        return self

    def data(self):
        return SymBytes.concat(self.parts)


class HashlibShim:
    sha1 = Recorder
    sha256 = Recorder
    md5 = Recorder

    @staticmethod
    def new(name, data=b""):
        return Recorder(data)


SHIMS = {"numpy": nshim.SHIM, "struct": StructShim(), "math": MathShim(), "hashlib": HashlibShim()}


def decimal_literal(v):
    """A decimal literal: the number it denotes where the harness asks for it, or else the nearest float."""
    if core.ENGINE is not None and getattr(core.ENGINE, "exact_literals", False):
        return core.SymNum({core.ONE: Fraction(repr(v))}, False)
    return v


class Xform(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(ast.Name("__sx_bytes__", ast.Load()), [ast.Constant(n.value)], []), n)
        if isinstance(n.value, float) and math.isfinite(n.value) and n.value.as_integer_ratio()[1] > 2 ** 20:
            return ast.copy_location(ast.Call(ast.Name("__sx_flt__", ast.Load()), [ast.Constant(n.value)], []), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return n

    def visit_Expr(self, n):   # keep docstrings and bare constants
        if isinstance(n.value, ast.Constant):
            return n
        self.generic_visit(n)
        return n


class Loader:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.bi = dict(builtins.__dict__)
        self.bi.update(__import__=self.imp, int=IntType, float=FloatType, complex=ComplexType, bytes=BytesType, set=OSet, max=s_max,
                       min=s_min, open=s_open, __sx_bytes__=lambda b: SymBytes.of(b), __sx_set__=OSet, __sx_flt__=decimal_literal)
        self.clipper = types.ModuleType("gdspy.clipper")
        exec(CLIPPER_STUB, self.clipper.__dict__)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "gdspy"
            name = pkg + ("." + name if name else "")
        if name in SHIMS:
            return SHIMS[name]
        if name == "numpy.linalg":
            return nshim.SHIM.linalg if fromlist else nshim.SHIM
        if name == "gdspy" or name.startswith("gdspy."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == "gdspy" and os.path.exists(os.path.join(self.repo, "gdspy", f + ".py")):
                        self.load("gdspy." + f)
                    elif f == "clipper" and name == "gdspy":
                        m.clipper = self.clipper
                return m
            return self.load("gdspy")
        if name in ("tkinter", "tkinter.messagebox"):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "gdspy.clipper":
            self.mods[name] = self.clipper
            return self.clipper
        if name == "gdspy.viewer":
            m = types.ModuleType(name)

            class LayoutViewer:
                pass
            m.LayoutViewer = LayoutViewer
            self.mods[name] = m
            return m
        if name == "gdspy":
            path = os.path.join(self.repo, "gdspy", "__init__.py")
        else:
            path = os.path.join(self.repo, *name.split(".")) + ".py"
            if not os.path.exists(path):
                path = os.path.join(self.repo, *name.split("."), "__init__.py")
                if not os.path.exists(path):
                    raise ModuleNotFoundError(name)
            self.load("gdspy")
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = "gdspy"
        m.__path__ = []
        m.__builtins__ = self.bi
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        tree = ast.fix_missing_locations(Xform().visit(ast.parse(src, path)))
        code = compile(tree, path, "exec", dont_inherit=True)
        if "." in name:
            setattr(self.load("gdspy"), name.rsplit(".", 1)[1], m)
        exec(code, m.__dict__)
        return m


_loaded = None


def _ideal(mods):
    """With ENGINE.ideal_reals, a symbolic real is carried through the 8-byte field unchanged
    (that the codec is exact is property C01)."""
    g = mods.get("gdspy.gdsiiformat")
    enc = getattr(g, "_eight_byte_real", None)
    dec = getattr(g, "_eight_byte_real_to_float", None)

    def enc2(value, *a, **k):
        if core.ENGINE.ideal_reals and isinstance(value, SymNum):
            return SymBytes.from_real(core.toreal(value))
        return enc(value, *a, **k)

    def dec2(value, *a, **k):
        if isinstance(value, SymBytes) and len(value) == 8 and isinstance(value.items[0], Piece) and value.items[0].kind == "real":
            v = value.items[0].val
            if all(isinstance(b, Piece) and b.val is v and b.k == i for i, b in enumerate(value.items)):
                return v
        if isinstance(value, SymBytes) and value.concrete():
            value = SymBytes(list(value.items))
        return dec(value, *a, **k)
    for m in mods.values():
        for n, o, w in (("_eight_byte_real", enc, enc2), ("_eight_byte_real_to_float", dec, dec2)):
            if o is not None and m.__dict__.get(n) is o:
                setattr(m, n, w)


def gdspy():
    global _loaded
    if _loaded is None:
        _loaded = Loader()
        if core.ENGINE is None:
            from .explore import Engine
            core.ENGINE = Engine()
        _loaded.load("gdspy")
        _ideal(_loaded.mods)
    return _loaded.load("gdspy")


def loader():
    gdspy()
    return _loaded
