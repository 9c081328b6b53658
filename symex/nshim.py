"""numpy stand-in given to the instrumented modules.

All float arrays are object arrays (SymArray) whose elements are floats or SymNum, so the
real numpy does the shape work and the element arithmetic is symbolic."""
from __future__ import annotations
import builtins
import math
import numpy as np

from . import core
from .core import SymNum, SymBool, Unsupported, sand, sor, toreal

INTKINDS = {"int", "uint", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}


def norm_dtype(d):
    """-> ('f'|'i'|'b'|'o'|'c', tag) ; tag is the numpy dtype string for byte layouts."""
    if d is None:
        return None, None
    nm = getattr(d, "__name__", None)
    if d is builtins.float or nm in ("float", "float64", "float32", "double", "FloatType"):
        return "f", None
    if d is builtins.int or nm in INTKINDS or nm == "IntType":
        return "i", np.dtype("int64" if d is builtins.int or nm in ("int", "IntType") else nm).str
    if d is builtins.bool or nm in ("bool", "bool_"):
        return "b", None
    if d is builtins.object:
        return "o", None
    if d is builtins.complex or nm in ("complex", "complex128", "ComplexType"):
        return "c", None
    dd = np.dtype(d)
    if dd.kind in "iu":
        return "i", dd.str
    if dd.kind == "f":
        return "f", dd.str
    if dd.kind == "b":
        return "b", None
    if dd.kind == "c":
        return "c", None
    if dd.kind == "O":
        return "o", None
    raise Unsupported("dtype %r" % (d,))


def toint(x):
    if isinstance(x, SymNum):
        return core.s_trunc(x)
    if isinstance(x, SymBool):
        return x
    return int(x)


def tofloat(x):
    if isinstance(x, SymNum):
        return toreal(x)
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, (bool, int)) or type(x).__module__ == "numpy":
        return float(x)
    return x


def conv(x, kind):
    if kind == "i":
        return toint(x)
    if kind == "f":
        return tofloat(x)
    if kind == "b":
        return x if isinstance(x, SymBool) else (x != 0 if isinstance(x, SymNum) else bool(x))
    return x


def has_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if type(x).__name__ == "SymComplex":
        return True
    return False


class SymArray(np.ndarray):
    __array_priority__ = 1000
    sdtype = None
    skind = "f"

    def __array_finalize__(self, o):
        if o is not None:
            self.sdtype = getattr(o, "sdtype", None)
            self.skind = getattr(o, "skind", "f")

    # ---- construction
    @staticmethod
    def make(a, kind="f", tag=None):
        a = np.asarray(a, dtype=object)
        r = a.view(SymArray)
        r.skind = kind
        r.sdtype = tag
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        h = FUNCS.get(name)
        if h is not None:
            return h(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    def __setitem__(self, k, v):
        k = fixindex(k)
        if self.skind in ("i", "f", "b"):
            if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
                v = np.asarray(v, dtype=object)
                v = mapel(lambda t: conv(t, self.skind), v)
            else:
                v = conv(v, self.skind)
        super().__setitem__(k, v)

    def __getitem__(self, k):
        r = super().__getitem__(fixindex(k))
        return r

    def astype(self, dtype, *a, **kw):
        kind, tag = norm_dtype(dtype)
        if kind == "o":
            return self.copy()
        return SymArray.make(mapel(lambda t: conv(t, kind), np.asarray(self)), kind, tag)

    def tobytes(self, *a):
        from .sbytes import SymBytes
        if self.sdtype is None:
            raise Unsupported("tobytes of an array without a known layout")
        dt = np.dtype(self.sdtype)
        out = []
        for v in np.asarray(self).ravel():
            out.append(SymBytes.from_int(v, dt.itemsize, dt.kind == "i", dt.byteorder == ">"))
        return SymBytes.concat(out)

    tostring = tobytes

    def byteswap(self, inplace=False):
        dt = np.dtype(self.sdtype)
        r = self if inplace else self.copy()
        r.sdtype = dt.newbyteorder().str
        return r

    def newbyteorder(self, *a):
        return self

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return builtins.float(self.reshape(-1)[0])

    def __complex__(self):
        raise Unsupported("complex of array")

    def any(self, axis=None, **kw):
        return reduce_bool(sor, self, axis)

    def all(self, axis=None, **kw):
        return reduce_bool(sand, self, axis)

    def max(self, axis=None, **kw):
        return reduce_axis(core.s_max2, self, axis)

    def min(self, axis=None, **kw):
        return reduce_axis(core.s_min2, self, axis)

    def sum(self, axis=None, **kw):
        return reduce_axis(lambda a, b: a + b, self, axis, 0.0)

    def prod(self, axis=None, **kw):
        return reduce_axis(lambda a, b: a * b, self, axis, 1.0)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def round(self, decimals=0, *a, **kw):
        return s_around(self, decimals)

    def dot(self, o):
        return np_dot(self, o)

    def argsort(self, axis=-1, kind=None, **kw):
        return f_argsort(self)

    def sort(self, axis=-1, **kw):
        idx = f_argsort(self)
        self[...] = np.asarray(self)[idx]

    def argmax(self, axis=None, **kw):
        if axis is not None:
            raise Unsupported("argmax axis")
        best = 0
        f = np.asarray(self).ravel()
        for i in range(1, f.size):
            if bool(f[i] > f[best]):
                best = i
        return best

    def argmin(self, axis=None, **kw):
        if axis is not None:
            raise Unsupported("argmin axis")
        best = 0
        f = np.asarray(self).ravel()
        for i in range(1, f.size):
            if bool(f[i] < f[best]):
                best = i
        return best

    def nonzero(self):
        return np.nonzero(np.asarray(mapel(lambda t: bool(t != 0) if isinstance(t, SymNum) else bool(t), np.asarray(self))).astype(bool))

    def conj(self, *a, **kw):
        return mapel(lambda t: t.conjugate(), self)

    conjugate = conj

    @property
    def real(self):
        return mapel(lambda t: t.real, self)

    @property
    def imag(self):
        return mapel(lambda t: t.imag, self)

    def tolist(self):
        return np.asarray(self).tolist()

    def __reduce__(self):
        raise Unsupported("pickle of symbolic array")

    def __deepcopy__(self, memo):
        r = self.copy()
        return r

    def __matmul__(self, o):
        return np_dot(self, o)

    def __rmatmul__(self, o):
        return np_dot(o, self)

    def __eq__(self, o):
        return ufunc_dispatch(np.equal, "__call__", (self, o), {})

    def __ne__(self, o):
        return ufunc_dispatch(np.not_equal, "__call__", (self, o), {})

    __hash__ = None


def fixindex(k):
    """Symbolic masks/indices become concrete ones (each a solver-decided branch)."""
    if isinstance(k, tuple):
        return tuple(fixindex(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymNum):
        return k.__index__()
    if isinstance(k, slice):
        f = lambda x: x.__index__() if isinstance(x, SymNum) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, np.ndarray) and k.dtype == object:
        fl = np.asarray(k).ravel()
        if fl.size and all(isinstance(x, (SymBool, bool, np.bool_)) for x in fl):
            return np.array([bool(x) for x in fl], dtype=bool).reshape(k.shape)
        return np.array([int(x) for x in fl], dtype=int).reshape(k.shape)
    if isinstance(k, list) and any(isinstance(x, (SymBool, SymNum)) for x in k):
        return [fixindex(x) for x in k]
    return k


def mapel(f, a):
    if not isinstance(a, np.ndarray):
        return f(a)
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), np.asarray(a).reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    r = out.view(SymArray)
    return r


def reduce_axis(f, a, axis, init=None):
    b = np.asarray(a)
    if axis is None:
        fl = b.ravel()
        if fl.size == 0:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return init
        r = fl[0]
        for x in fl[1:]:
            r = f(r, x)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    m = np.moveaxis(b, axis, 0)
    if m.shape[0] == 0:
        if init is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return SymArray.make(np.full(m.shape[1:], init, dtype=object))
    r = m[0]
    for row in m[1:]:
        out = np.empty(r.shape, dtype=object) if isinstance(r, np.ndarray) else None
        if out is None:
            r = f(r, row)
        else:
            of, rf, wf = out.reshape(-1), np.asarray(r).reshape(-1), row.reshape(-1)
            for i in range(rf.size):
                of[i] = f(rf[i], wf[i])
            r = out
    return SymArray.make(r) if isinstance(r, np.ndarray) else r


def reduce_bool(f, a, axis):
    one = lambda t: t if isinstance(t, SymBool) else (t != 0 if isinstance(t, SymNum) else bool(t))
    b = np.asarray(a)
    if axis is None:
        return f(*[one(x) for x in b.ravel()])
    m = np.moveaxis(b, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        out[ix] = f(*[one(x) for x in m[ix]])
    r = out.view(SymArray)
    r.skind = "b"
    return r


def _f1(f):
    return lambda x: f(x)


def el_cos(x):
    return core.s_cos(x) if isinstance(x, SymNum) else math.cos(x)


def el_sin(x):
    return core.s_sin(x) if isinstance(x, SymNum) else math.sin(x)


def el_tan(x):
    return core.s_sin(x) / core.s_cos(x) if isinstance(x, SymNum) else math.tan(x)


def el_sqrt(x):
    if isinstance(x, SymNum):
        return core.s_sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


def el_rint(x):
    return toreal(core.s_round(x)) if isinstance(x, SymNum) else float(np.rint(x))


def el_log2(x):
    if isinstance(x, SymNum):
        return core.ENGINE.log2(x)
    return float(np.log2(x))


def el_exp(x):
    if type(x).__name__ == "SymComplex":
        return x.exp()
    if isinstance(x, complex):
        import cmath
        return cmath.exp(x)
    if isinstance(x, SymNum):
        raise Unsupported("exp")
    return math.exp(x)


def el_arctan2(y, x):
    return core.s_arctan2(y, x)


def el_floordiv(a, b):
    return a // b


def el_div(a, b):
    if not isinstance(b, (SymNum,)) and not isinstance(a, SymNum):
        if b == 0 and not isinstance(b, complex) and type(b).__name__ != "SymComplex":
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))
    return a / b


def el_hypot(a, b):
    return core.s_sqrt(a * a + b * b) if isinstance(a, SymNum) or isinstance(b, SymNum) else math.hypot(a, b)


def _logical(f):
    one = lambda t: t if isinstance(t, SymBool) else (t != 0 if isinstance(t, SymNum) else bool(t))
    return lambda a, b: f(one(a), one(b))


def _pow(a, b):
    if isinstance(a, (SymNum,)) or isinstance(b, SymNum):
        return a ** b
    return a ** b


ELEMENT = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": el_div, "true_divide": el_div, "floor_divide": el_floordiv, "remainder": lambda a, b: a % b,
    "power": _pow, "float_power": _pow, "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": lambda a: abs(a), "fabs": lambda a: abs(a),
    "cos": el_cos, "sin": el_sin, "tan": el_tan, "sqrt": el_sqrt, "square": lambda a: a * a,
    "rint": el_rint, "floor": lambda a: toreal(core.s_floor(a)), "ceil": lambda a: toreal(core.s_ceil(a)),
    "trunc": lambda a: toreal(core.s_trunc(a)),
    "log2": el_log2, "exp": el_exp, "arctan2": el_arctan2, "hypot": el_hypot,
    "arccos": lambda a: core.s_arccos(a) if isinstance(a, SymNum) else math.acos(a),
    "maximum": core.s_max2, "minimum": core.s_min2, "fmax": core.s_max2, "fmin": core.s_min2,
    "sign": core.s_sign,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "logical_and": _logical(lambda a, b: sand(a, b)), "logical_or": _logical(lambda a, b: sor(a, b)),
    "logical_not": lambda a: ~a if isinstance(a, SymBool) else (a == 0 if isinstance(a, SymNum) else not a),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b, "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: (not a) if isinstance(a, (bool, np.bool_)) else ~a,
    "isnan": lambda a: False if isinstance(a, SymNum) else a != a,
    "isfinite": lambda a: True if isinstance(a, SymNum) else math.isfinite(a),
    "isinf": lambda a: False if isinstance(a, SymNum) else math.isinf(a),
    "deg2rad": lambda a: a * core.ENGINE.pi_value() / 180, "radians": lambda a: a * core.ENGINE.pi_value() / 180,
    "rad2deg": lambda a: a * 180 / core.ENGINE.pi_value(), "degrees": lambda a: a * 180 / core.ENGINE.pi_value(),
    "conjugate": lambda a: a.conjugate(),
    "left_shift": lambda a, b: a << b, "right_shift": lambda a, b: a >> b,
}
BOOLUF = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or",
          "logical_not", "isnan", "isfinite", "isinf"}


def as_obj(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.asarray(x)
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return np.asarray(np.array(x, dtype=object))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    if name == "matmul":
        r = np_dot(inputs[0], inputs[1])
    elif method == "__call__":
        f = ELEMENT.get(name)
        if f is None:
            raise Unsupported("ufunc " + name)
        if kw.get("where", True) is not True:
            raise Unsupported("ufunc where=")
        arrs = [as_obj(x) for x in inputs]
        if all(a.ndim == 0 for a in arrs):
            r = f(*[a[()] for a in arrs])
        else:
            bs = np.broadcast_arrays(*arrs)
            res = np.empty(bs[0].shape, dtype=object)
            rf = res.reshape(-1)
            cols = [b.reshape(-1) for b in bs]
            for i in range(rf.size):
                rf[i] = f(*[c[i] for c in cols])
            r = res.view(SymArray)
            if name in BOOLUF:
                r.skind = "b"
            else:
                ks = [getattr(x, "skind", None) for x in inputs if isinstance(x, np.ndarray)]
                r.skind = "o" if "o" in ks else "f"
                if all(k == "i" for k in ks) and name in ("add", "subtract", "multiply", "negative", "floor_divide", "remainder", "absolute", "maximum", "minimum") \
                        and all(core.isintlike(x) for x in inputs if not isinstance(x, np.ndarray)):
                    r.skind = "i"
                    r.sdtype = [getattr(x, "sdtype", None) for x in inputs if isinstance(x, np.ndarray)][0]
                else:
                    r.sdtype = None
    elif method == "reduce":
        axis = kw.get("axis", 0)
        f = ELEMENT[name]
        init = {"add": 0.0, "multiply": 1.0}.get(name)
        if name in ("logical_or", "logical_and"):
            r = reduce_bool(sor if name == "logical_or" else sand, as_obj(inputs[0]), axis)
        else:
            r = reduce_axis(f, as_obj(inputs[0]), axis, init)
    elif method == "accumulate":
        f = ELEMENT[name]
        a = as_obj(inputs[0])
        ax = kw.get("axis", 0)
        m = np.moveaxis(a, ax, 0).copy()
        for i in range(1, m.shape[0]):
            if m.ndim == 1:
                m[i] = f(m[i - 1], m[i])
            else:
                m[i] = np.asarray(mapel2(f, m[i - 1], m[i]))
        r = SymArray.make(np.moveaxis(m, 0, ax))
    elif method == "outer":
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        r = mapel2(ELEMENT[name], a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        if isinstance(out, SymArray):
            if method == "__call__" and out.skind == "i" and getattr(r, "skind", "f") == "f" and name in ("divide", "true_divide"):
                raise TypeError("cannot cast ufunc output")
            out[...] = r
            return out
        if has_sym(r):
            raise Unsupported("symbolic result into a concrete array")
        out[...] = r
        return out
    return r


def mapel2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    o, x, y = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(o.size):
        o[i] = f(x[i], y[i])
    return out.view(SymArray)


def np_dot(a, b):
    a, b = as_obj(a), as_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_dispatch(np.multiply, "__call__", (a, b), {})

    def ip(u, v):
        if u.size != v.size:
            raise ValueError("shapes not aligned")
        if u.size == 0:
            return 0.0
        t = u[0] * v[0]
        for i in range(1, u.size):
            t = t + u[i] * v[i]
        return t
    if a.ndim == 1 and b.ndim == 1:
        return ip(a, b)
    if a.ndim == 1:
        return SymArray.make(np.array([ip(a, b[:, j]) for j in range(b.shape[1])] + [None], dtype=object)[:-1])
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            out[ix] = ip(a[ix], b)
        return SymArray.make(out)
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = ip(a[i], b[:, j])
        return SymArray.make(out)
    raise Unsupported("dot of higher dimension")


def f_argsort(a, *args, **kw):
    v = list(np.asarray(a).ravel())
    import functools
    idx = sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: -1 if bool(v[i] < v[j]) else (1 if bool(v[j] < v[i]) else 0)))
    return np.array(idx, dtype=int)


def s_around(a, decimals=0, out=None):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if decimals == 0:
        return ufunc_dispatch(np.rint, "__call__", (a,), {})
    k = 10 ** decimals if decimals > 0 else core.SymNum({core.ONE: core.Fraction(1, 10 ** (-decimals))})
    return ufunc_dispatch(np.rint, "__call__", (a * k,), {}) / k


def guess(a):
    """Array from nested data; object array when anything is symbolic or float."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray) and a.dtype != object:
        return a
    if not has_sym(a):
        return np.array(a)
    r = np.array(untuple(a), dtype=object)
    return r


def untuple(a):
    if isinstance(a, np.ndarray):
        return [untuple(x) for x in a] if a.ndim else a[()]
    if isinstance(a, (list, tuple)):
        return [untuple(x) for x in a]
    if hasattr(a, "__iter__") and not isinstance(a, (str, bytes)):
        return [untuple(x) for x in a]
    return a


def array(a, dtype=None, copy=True, ndmin=0, **kw):
    kind, tag = norm_dtype(dtype)
    if isinstance(a, SymArray) and kind is None:
        return a.copy() if copy else a
    sym = has_sym(a) or (hasattr(a, "__iter__") and not isinstance(a, (list, tuple, np.ndarray, str, bytes)))
    if not sym:
        try:
            r = np.array(a)
        except ValueError:
            raise
        if kind is None:
            if r.dtype.kind == "f":
                return SymArray.make(r.astype(object), "f")
            if r.dtype.kind in "iu":
                return SymArray.make(r.astype(object), "i", r.dtype.str)
            return r
        if r.dtype.kind not in "iufb":
            return np.array(a, dtype=dtype)
        if kind == "c":
            return np.array(a, dtype=complex)
        if kind == "b":
            return r.astype(bool)
        r = mapel(lambda t: conv(t, kind), np.asarray(r.astype(object)))
        r.skind, r.sdtype = kind, tag
        return r
    if isinstance(a, np.ndarray):
        r = np.array(a, dtype=object)
    else:
        u = untuple(a)
        sh = shape_of(u)
        r = np.empty(sh, dtype=object)
        if sh == ():
            r[()] = u
        else:
            fill(r, u)
    if kind is None:
        fl = r.ravel()
        if all(isinstance(x, (SymBool, bool, np.bool_)) for x in fl) and fl.size:
            kind = "b"
        elif any(type(x).__name__ == "SymComplex" or isinstance(x, complex) for x in fl):
            kind = "o"
        elif all(core.isintlike(x) or isinstance(x, bool) for x in fl) and fl.size:
            kind, tag = "i", "<i8"
        else:
            kind = "f"
    r = mapel(lambda t: conv(t, kind), r)
    r.skind, r.sdtype = kind, tag
    return r


def shape_of(u):
    if isinstance(u, list):
        if not u:
            return (0,)
        s = shape_of(u[0])
        for x in u[1:]:
            if shape_of(x) != s:
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return (len(u),) + s
    return ()


def fill(r, u):
    if r.ndim == 1:
        for i, x in enumerate(u):
            r[i] = x
    else:
        for i, x in enumerate(u):
            fill(r[i], x)


def asarray(a, dtype=None, **kw):
    if isinstance(a, SymArray) and dtype is None:
        return a
    if isinstance(a, SymArray):
        k, t = norm_dtype(dtype)
        if k == a.skind and (t == a.sdtype or k == "f"):
            return a
    return array(a, dtype)


def _new(shape, val, dtype=None, kind0="f"):
    kind, tag = norm_dtype(dtype)
    kind = kind or kind0
    if kind == "b":
        return SymArray.make(np.full(fixshape(shape), bool(val), dtype=object), "b")
    if kind == "c":
        return SymArray.make(np.full(fixshape(shape), val, dtype=object), "o")
    a = np.empty(fixshape(shape), dtype=object)
    v = conv(val, kind)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = v
    return SymArray.make(a, kind, tag)


def fixshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() if isinstance(x, SymNum) else int(x) for x in s)
    return s.__index__() if isinstance(s, SymNum) else s


def zeros(shape, dtype=None, **kw):
    return _new(shape, 0.0, dtype)


def ones(shape, dtype=None, **kw):
    return _new(shape, 1.0, dtype)


def empty(shape, dtype=None, **kw):
    return _new(shape, 0.0, dtype)


def full(shape, v, dtype=None, **kw):
    return _new(shape, v, dtype, "i" if core.isintlike(v) else ("b" if isinstance(v, (bool, SymBool)) else "f"))


def _like(a):
    k = getattr(a, "skind", None)
    if k is None:
        k = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(np.asarray(a).dtype.kind, "o")
    return k, getattr(a, "sdtype", None)


def empty_like(a, dtype=None, **kw):
    a = asarray(a)
    r = _new(a.shape, 0.0, dtype)
    if dtype is None:
        k, t = _like(a)
        r = mapel(lambda x: conv(x, k), r)
        r.skind, r.sdtype = k, t
    return r


zeros_like = empty_like


def ones_like(a, dtype=None, **kw):
    return full_like(a, 1, dtype)


def full_like(a, v, dtype=None, **kw):
    a = asarray(a)
    k, t = _like(a)
    if dtype is not None:
        k, t = norm_dtype(dtype)
    r = _new(a.shape, v, None)
    r = mapel(lambda x: conv(v, k), r)
    r.skind, r.sdtype = k, t
    return r


def arange(*a, **kw):
    dtype = kw.get("dtype")
    a = list(a)
    if all(core.isintlike(x) and not isinstance(x, SymNum) for x in a):
        r = np.arange(*a)
        k, t = norm_dtype(dtype)
        if k == "f":
            return SymArray.make(r.astype(float).astype(object), "f")
        return SymArray.make(np.array([int(x) for x in r] + [None], dtype=object)[:-1], "i", "<i8")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    n = core.s_ceil((stop - start) / step)
    n = max(0, n.__index__() if isinstance(n, SymNum) else int(n))
    return array([start + i * step for i in range(n)] or [], None) if n else zeros(0)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__() if isinstance(num, SymNum) else int(num)
    div = (num - 1) if endpoint else num
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        start, stop = asarray(start), asarray(stop)
    out = []
    for i in range(num):
        if div <= 0:
            v = start + 0.0
        elif endpoint and i == num - 1:
            v = stop + 0.0
        else:
            v = start + (stop - start) * core.SymNum({core.ONE: core.Fraction(i, div)}) if i else start + 0.0
        out.append(v)
    if not has_sym([start, stop]):
        return SymArray.make(np.linspace(start, stop, num, endpoint).astype(object), "f")
    return array(out, float) if out else zeros(0)


def vstack(t, **kw):
    t = [atleast_2d(x) for x in t]
    return concatenate(t, 0)


def atleast_2d(x):
    x = asarray(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        return x[np.newaxis, :]
    return x


def atleast_1d(x):
    x = asarray(x)
    return x.reshape(1) if x.ndim == 0 else x


def hstack(t, **kw):
    t = [atleast_1d(x) for x in t]
    return concatenate(t, 0 if t[0].ndim == 1 else 1)


def concatenate(t, axis=0, **kw):
    t = [asarray(x) for x in t]
    ks = [_like(x) for x in t]
    r = np.concatenate([as_obj(x) for x in t], axis=axis)
    k = ks[0] if all(x == ks[0] for x in ks) else ("i", "<i8") if all(x[0] == "i" for x in ks) else (("o", None) if any(x[0] == "o" for x in ks) else ("f", None))
    return SymArray.make(mapel(lambda e: conv(e, k[0]), r), *k)


def stack(t, axis=0, **kw):
    t = [asarray(x) for x in t]
    return SymArray.make(np.stack([as_obj(x) for x in t], axis=axis))


def column_stack(t):
    t = [asarray(x) for x in t]
    return concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in t], 1)


def tile(a, reps):
    a = asarray(a)
    k = _like(a)
    return SymArray.make(np.tile(as_obj(a), fixshape(reps)), *k)


def repeat(a, n, axis=None):
    a = asarray(a)
    k = _like(a)
    return SymArray.make(np.repeat(as_obj(a), n, axis), *k)


def roll(a, shift, axis=None):
    a = asarray(a)
    k = _like(a)
    return SymArray.make(np.roll(as_obj(a), shift, axis), *k)


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return mapel2(lambda x, y: x * y, as_obj(a).reshape(-1, 1), as_obj(b).reshape(1, -1))


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_dot(a, b)
    return np_dot(a, as_obj(b).T)


def cross(a, b, **kw):
    a, b = as_obj(asarray(a)), as_obj(asarray(b))
    if a.shape[-1] != 2:
        raise Unsupported("cross 3d")
    return SymArray.make(as_obj(a[..., 0]) * b[..., 1] - a[..., 1] * b[..., 0]) if a.ndim > 1 else a[0] * b[1] - a[1] * b[0]


def eye(n, *a, **kw):
    return SymArray.make(np.eye(n).astype(object), "f")


def where(c, *a):
    if not a:
        return nonzero(c)
    c = asarray(c)
    f = lambda m, x, y: x if bool(m) else y
    cc, x, y = np.broadcast_arrays(as_obj(c), as_obj(a[0]), as_obj(a[1]))
    out = np.empty(cc.shape, dtype=object)
    for ix in np.ndindex(*cc.shape):
        out[ix] = f(cc[ix], x[ix], y[ix])
    return SymArray.make(out)


def nonzero(a):
    a = asarray(a)
    if isinstance(a, SymArray):
        return a.nonzero()
    return np.nonzero(a)


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def isscalar(x):
    return isinstance(x, (SymNum, SymBool)) or np.isscalar(x)


def solve(A, b):
    A, b = as_obj(asarray(A)), as_obj(asarray(b))
    n = A.shape[0]
    if b.ndim == 1:
        A, b = np.array(A), np.array(b)
        for i in range(n):
            # a factor common to the whole row does not matter
            row = [core.topoly(v) for v in list(A[i]) + [b[i]]]
            f = core.common_monomial([p for p in row if p])
            if f:
                f = SymNum({f: 1})
                if not bool(f == 0):
                    for j in range(n):
                        A[i, j] = A[i, j] / f
                    b[i] = b[i] / f
    if n == 2 and b.ndim == 1:
        for i in (0, 1):
            for j in (0, 1):
                u, v = core.nearly_const(A[i, j]), core.nearly_const(A[i, 1 - j])
                if v == 0 and u:
                    # one unknown is known
                    x = [None, None]
                    x[j] = b[i] / A[i, j]
                    if bool(A[1 - i, 1 - j] == 0):
                        raise np.linalg.LinAlgError("Singular matrix")
                    x[1 - j] = (b[1 - i] - A[1 - i, j] * x[j]) / A[1 - i, 1 - j]
                    return array(x, float)
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        if bool(det == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        return array([(b[0] * A[1, 1] - b[1] * A[0, 1]) / det, (A[0, 0] * b[1] - A[1, 0] * b[0]) / det], float)
    flat = [core.nearly_const(v) for v in list(A.ravel()) + list(b.ravel())]
    if all(v is not None for v in flat):
        return array(np.linalg.solve(np.array(flat[:A.size]).reshape(A.shape), np.array(flat[A.size:]).reshape(b.shape)))
    if b.ndim != 1:
        raise Unsupported("linalg.solve")
    return array(core.ENGINE.solve_linear([[A[i, j] for j in range(n)] for i in range(n)], [b[i] for i in range(n)]), float)


def norm(x, ord=None, axis=None, **kw):
    x = asarray(x)
    if axis is None:
        return core.s_sqrt((x * x).sum())
    return ufunc_dispatch(np.sqrt, "__call__", ((x * x).sum(axis),), {})


def fsum(a, axis=None, **kw):
    return SymArray.sum(asarray(a).view(SymArray) if isinstance(a, SymArray) else SymArray.make(as_obj(asarray(a))), axis)


def format_float_positional(x, precision=None, trim="k", **kw):
    if isinstance(x, SymNum):
        return core.ENGINE.token(x, ("pos", precision, trim))
    return np.format_float_positional(x, precision=precision, trim=trim, **kw)


def frombuffer(buf, dtype=float, count=-1, offset=0):
    from .sbytes import SymBytes
    if not isinstance(buf, SymBytes):
        return array(np.frombuffer(buf, dtype, count, offset))
    dt = np.dtype(dtype)
    vals = []
    b = buf[offset:]
    for i in range(0, len(b), dt.itemsize):
        vals.append(b[i:i + dt.itemsize].to_int(dt.kind == "i", dt.byteorder == ">"))
    return SymArray.make(np.array(vals + [None], dtype=object)[:-1], "i", dt.str)


def angle(z, deg=False):
    if type(z).__name__ == "SymComplex":
        r = core.s_arctan2(z.imag, z.real)
    elif isinstance(z, np.ndarray):
        return mapel(lambda t: angle(t, deg), z)
    else:
        return float(np.angle(z, deg))
    return r * 180 / core.ENGINE.pi_value() if deg else r


def _wrap_reduce(name):
    def f(a, axis=None, **kw):
        a = asarray(a)
        if not isinstance(a, SymArray):
            a = SymArray.make(as_obj(a))
        return getattr(a, name)(axis)
    return f


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a, b = asarray(a), asarray(b)
    d = a - b
    m = mapel2(lambda x, y: abs(x) - atol - rtol * abs(y) <= 0, as_obj(d), as_obj(b) if isinstance(b, np.ndarray) else as_obj(b))
    return reduce_bool(sand, m, None)


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    d = a - b
    if isinstance(d, np.ndarray):
        return mapel2(lambda x, y: abs(x) - atol - rtol * abs(y) <= 0, as_obj(d), as_obj(b))
    return abs(d) - atol - rtol * abs(b) <= 0


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and reduce_bool(sand, ufunc_dispatch(np.equal, "__call__", (a, b), {}), None)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if axis == -1:
        axis = a.ndim - 1
    sl = [slice(None)] * a.ndim
    s2 = list(sl)
    sl[axis], s2[axis] = slice(1, None), slice(None, -1)
    return a[tuple(sl)] - a[tuple(s2)]


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return ufunc_dispatch(np.add, "accumulate", (a,), {"axis": axis})


def np_sort(a, axis=-1, **kw):
    a = asarray(a)
    return a[f_argsort(a)]


def unique(a, *r, **kw):
    if r or kw:
        raise Unsupported("unique options")
    v = np_sort(asarray(a).ravel())
    out = []
    for x in v:
        if not out or bool(out[-1] != x):
            out.append(x)
    return array(out) if out else zeros(0)


def delete(a, idx, axis=None):
    a = asarray(a)
    k = _like(a)
    return SymArray.make(np.delete(as_obj(a), idx, axis), *k)


def insert(a, idx, v, axis=None):
    a = asarray(a)
    k = _like(a)
    return SymArray.make(np.insert(as_obj(a), idx, as_obj(v), axis), *k)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([asarray(a).ravel(), atleast_1d(asarray(v)).ravel()])
    return concatenate([a, v], axis)


def frexp(x):
    if isinstance(x, SymNum):
        return core.ENGINE.frexp(x)
    if isinstance(x, np.ndarray):
        raise Unsupported("frexp of an array")
    m, e = math.frexp(x)
    return m, e


def ldexp(x, e):
    if isinstance(e, SymNum):
        e = e.__index__()
    return x * core.SymNum({core.ONE: core.Fraction(2) ** int(e)}) if isinstance(x, SymNum) else math.ldexp(x, e)


FUNCS = {}
_OVR = dict(array=array, asarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full, empty_like=empty_like,
            zeros_like=zeros_like, ones_like=ones_like, full_like=full_like, arange=arange, linspace=linspace,
            vstack=vstack, hstack=hstack, concatenate=concatenate, stack=stack, column_stack=column_stack, tile=tile,
            repeat=repeat, roll=roll, outer=outer, inner=inner, cross=cross, eye=eye, identity=eye, where=where,
            nonzero=nonzero, flatnonzero=flatnonzero, isscalar=isscalar, round=s_around, around=s_around,
            format_float_positional=format_float_positional, frombuffer=frombuffer, angle=angle, dot=np_dot,
            matmul=np_dot, allclose=allclose, isclose=isclose, array_equal=array_equal, diff=diff, cumsum=cumsum,
            sort=np_sort, argsort=f_argsort, unique=unique, delete=delete, insert=insert, append=append,
            atleast_1d=atleast_1d, atleast_2d=atleast_2d, asanyarray=asarray, ascontiguousarray=asarray,
            sum=_wrap_reduce("sum"), max=_wrap_reduce("max"), min=_wrap_reduce("min"), amax=_wrap_reduce("max"),
            amin=_wrap_reduce("min"), any=_wrap_reduce("any"), all=_wrap_reduce("all"), prod=_wrap_reduce("prod"),
            mean=_wrap_reduce("mean"))
_OVR.update(frexp=frexp, ldexp=ldexp)
for _k in ("argmax", "argmin"):
    _OVR[_k] = _wrap_reduce(_k)
FUNCS.update(_OVR)


def _mkuf(name):
    uf = getattr(np, name)

    def f(*a, **kw):
        return ufunc_dispatch(uf, "__call__", a, dict(kw))
    f.__name__ = name
    f.reduce = lambda a, axis=0, **kw: ufunc_dispatch(uf, "reduce", (a,), dict(axis=axis))
    f.accumulate = lambda a, axis=0, **kw: ufunc_dispatch(uf, "accumulate", (a,), dict(axis=axis))
    f.outer = lambda a, b, **kw: ufunc_dispatch(uf, "outer", (a, b), {})
    return f


_UF = {}
for _n in list(ELEMENT):
    if hasattr(np, _n):
        _UF[_n] = _mkuf(_n)
_UF["abs"] = _UF["absolute"]
_UF["mod"] = _UF["remainder"]
_UF["conj"] = _UF["conjugate"]
_UF["acos"] = _UF["arccos"]
_UF["atan2"] = _UF["arctan2"]
_UF["pow"] = _UF["power"]


class _Linalg:
    solve = staticmethod(solve)
    norm = staticmethod(norm)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        raise Unsupported("numpy.linalg." + n)


class NumpyShim:
    """The module object the instrumented code sees as numpy."""
    __name__ = "numpy"
    linalg = _Linalg()
    ndarray = np.ndarray
    newaxis = None
    nan = math.nan
    inf = math.inf
    float64 = builtins.float
    int64 = builtins.int

    @property
    def pi(self):
        return core.ENGINE.pi_value() if core.ENGINE is not None else math.pi

    def __getattr__(self, n):
        if n in _OVR:
            return _OVR[n]
        if n in _UF:
            return _UF[n]
        return getattr(np, n)


SHIM = NumpyShim()
