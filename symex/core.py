"""Symbolic numbers, booleans and the path explorer.

Numbers are Laurent polynomials with rational coefficients over *atoms*.  An atom is a
z3 Real or Int constant, possibly with axioms that define it (absolute value, rounding,
square root, cosine of an angle, reciprocal, ...).  Comparisons give SymBool; asking a
SymBool for its truth value is a branch, decided by the solver under the path condition.
"""
from __future__ import annotations
import math
import numbers
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)


class SymAbort(BaseException):
    """Leaves the code under test; never caught by `except Exception`."""


class PathDone(SymAbort):
    pass


class PathInfeasible(SymAbort):
    pass


class Unsupported(SymAbort):
    """The engine cannot encode what the code asked for."""


class LimitReached(SymAbort):
    pass


class Hang(SymAbort):
    pass


ENGINE = None


def eng():
    return ENGINE


# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ("name", "z", "isint", "axioms", "axatoms", "approx", "lo", "hi", "rule", "key", "deps", "floor_of", "zi", "inv_of")

    def __init__(self, name, isint=False, relaxed=False):
        """relaxed: integer-valued, but a real for the solver."""
        self.name = name
        self.isint = isint
        self.zi = isint and not relaxed
        self.z = z3.Int(name) if self.zi else z3.Real(name)
        self.axioms = []       # z3 Bool
        self.axatoms = set()   # atoms mentioned by the axioms
        self.approx = None     # callable env -> float, for concretisation
        self.rule = None       # rewriting: atom**2 -> poly
        self.key = None
        self.floor_of = None
        self.inv_of = None

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.name < o.name


# monomial: tuple of (Atom, exponent) sorted by atom name
ONE = ()


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda t: t[0].name))


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


MAXTERMS = 20000


def _pmul(p, q):
    if len(p) * len(q) > MAXTERMS:
        raise Unsupported("polynomial too large")
    r = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            for a, e in m:
                if e >= 2 and a.rule is not None:
                    red = True
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    if red:
        r = _preduce(r)
    return r


def _pmul_named(p, q):
    """Product; a large factor is replaced by a name for it (a fresh atom with its definition as axiom)."""
    while len(p) > 1 and len(q) > 1 and len(p) * len(q) > ENGINE.name_limit:
        if len(p) >= len(q):
            p = ENGINE.named(p)
        else:
            q = ENGINE.named(q)
    return _pmul(p, q)


def _preduce(p):
    """Apply atom**2 -> rule rewriting."""
    work = dict(p)
    out = {}
    n = 0
    while work:
        m, c = work.popitem()
        hit = None
        for a, e in m:
            if e >= 2 and a.rule is not None:
                hit = (a, e)
                break
        if hit is None:
            t = out.get(m, 0) + c
            if t:
                out[m] = t
            else:
                out.pop(m, None)
            continue
        n += 1
        if n > MAXTERMS:
            raise Unsupported("polynomial rewriting too large")
        a, e = hit
        rest = tuple((b, f) if b is not a else (a, e - 2) for b, f in m if not (b is a and e == 2))
        for m2, c2 in a.rule.items():
            mm = _mono_mul(rest, m2)
            t = work.get(mm, 0) + c * c2
            if t:
                work[mm] = t
            else:
                work.pop(mm, None)
    return out


def _patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def _pkey(p):
    return tuple(sorted(((tuple((a.name, e) for a, e in m)), c) for m, c in p.items()))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("nan/inf mixed with symbolic value")
        return Fraction(x)
    if hasattr(x, "item"):
        return frac(x.item())
    raise TypeError(type(x))


def _num(x):
    """Python/numpy number -> Fraction or None."""
    if isinstance(x, (int, float, Fraction)):
        return frac(x)
    if isinstance(x, numbers.Real):
        return Fraction(float(x)) if not hasattr(x, "item") else frac(x.item())
    tn = type(x).__module__
    if tn == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        y = x.item()
        if isinstance(y, (int, float)):
            return frac(y)
    return None


def isintlike(x):
    if isinstance(x, SymNum):
        return x.isint
    return isinstance(x, numbers.Integral) and not isinstance(x, bool) or type(x).__name__.startswith(("int", "uint"))


class SymBool:
    __slots__ = ("z", "atoms", "src")
    __array_priority__ = 2000

    def __init__(self, z, atoms, src=None):
        self.z = z
        self.atoms = atoms
        self.src = src      # (key of a polynomial, signs for which the condition holds)

    def __bool__(self):
        return ENGINE.branch(self)

    def __repr__(self):
        return "<SymBool>"

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z, self.atoms | o.atoms)
        if isinstance(o, bool) or type(o).__name__ == "bool_" or type(o).__name__ == "bool":
            return self if o else ~self
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __invert__(self):
        return SymBool(z3.Not(self.z), self.atoms, self.src and (self.src[0], 7 - self.src[1]))

    def logical_not(self):
        return ~self

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z), self.atoms | o.atoms)
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z), self.atoms | o.atoms)
        return True if o else self

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.z, o.z), self.atoms | o.atoms)
        return ~self if o else self

    __rxor__ = __xor__

    # arithmetic: decide
    def _i(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __index__(self):
        return self._i()

    def __int__(self):
        return self._i()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def sand(*xs):
    r = True
    for x in xs:
        r = x & r if isinstance(x, SymBool) else (r if x else False)
        if r is False:
            return False
    return r


def sor(*xs):
    r = False
    for x in xs:
        if isinstance(x, SymBool):
            r = x | r
        elif x:
            return True
    return r


def snot(x):
    return ~x if isinstance(x, SymBool) else not x


def mk(p, isint=False):
    """Poly -> number; integer constants become int."""
    if not p:
        return 0 if isint else SymNum({}, False)
    if isint and len(p) == 1 and ONE in p and p[ONE].denominator == 1:
        return int(p[ONE])
    return SymNum(p, isint)


def topoly(x):
    if isinstance(x, SymNum):
        return x.p
    f = _num(x)
    if f is None:
        if isinstance(x, SymBool):
            return {ONE: Fraction(1)} if bool(x) else {}
        return None
    return {ONE: f} if f else {}


class SymNum:
    __slots__ = ("p", "isint")
    __array_priority__ = 2000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # -- helpers
    def const(self):
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and ONE in self.p:
            return self.p[ONE]
        return None

    def __repr__(self):
        if len(self.p) > 6:
            return "<poly %d terms>" % len(self.p)
        return "<" + (" + ".join("%s%s" % (c, "".join("*%s^%s" % (a.name, e) for a, e in m)) for m, c in self.p.items()) or "0") + ">"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic value")

    # -- arithmetic
    def _bin(self, o, f, rev=False):
        q = topoly(o)
        if q is None:
            return NotImplemented
        isint = self.isint and isintlike(o)
        return mk(f(q, self.p) if rev else f(self.p, q), isint)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nshim
        return nshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def __add__(self, o):
        if hasattr(o, "__array_function__") and getattr(o, "ndim", 0):
            return NotImplemented
        if isinstance(o, complex):
            from .cplx import SymComplex
            return SymComplex(self, 0) + o
        return self._bin(o, _padd)

    __radd__ = __add__

    def __sub__(self, o):
        if hasattr(o, "__array_function__") and getattr(o, "ndim", 0):
            return NotImplemented
        if isinstance(o, complex):
            from .cplx import SymComplex
            return SymComplex(self, 0) - o
        return self._bin(o, lambda a, b: _padd(a, b, -1))

    def __rsub__(self, o):
        if isinstance(o, complex):
            from .cplx import SymComplex
            return o + SymComplex(-self, 0)
        return self._bin(o, lambda a, b: _padd(a, b, -1), True)

    def __mul__(self, o):
        if hasattr(o, "__array_function__") and getattr(o, "ndim", 0):
            return NotImplemented
        if isinstance(o, complex):
            from .cplx import SymComplex
            return SymComplex(self, 0) * o
        if isinstance(o, (list, tuple, str)) or type(o).__name__ == "SymBytes":
            return o * self.__index__()
        return self._bin(o, _pmul_named if ENGINE is not None and ENGINE.name_limit else _pmul)

    __rmul__ = __mul__

    def __neg__(self):
        return mk({m: -c for m, c in self.p.items()}, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __truediv__(self, o):
        if hasattr(o, "__array_function__") and getattr(o, "ndim", 0):
            return NotImplemented
        q = topoly(o)
        if q is None:
            return NotImplemented
        return mk((_pmul_named if ENGINE is not None and ENGINE.name_limit else _pmul)(self.p, recip_poly(q)), False)

    def __rtruediv__(self, o):
        q = topoly(o)
        if q is None:
            return NotImplemented
        return mk(_pmul(q, recip_poly(self.p)), False)

    def __floordiv__(self, o):
        q = topoly(o)
        if q is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        q = topoly(o)
        if q is None:
            return NotImplemented
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        return o - floordiv(o, self) * self

    def __divmod__(self, o):
        d = floordiv(self, o)
        return d, self - d * o

    def __pow__(self, o):
        if isinstance(o, SymNum):
            o = o.concrete_exponent()
        f = _num(o)
        if f is None:
            return NotImplemented
        if f == Fraction(1, 2):
            return s_sqrt(self)
        if f.denominator != 1:
            raise Unsupported("power %r" % (o,))
        n = int(f)
        if n < 0:
            return 1 / (self ** (-n))
        r = 1
        b = self
        while n:
            if n & 1:
                r = b * r
            b = b * b
            n >>= 1
        return r

    def concrete_exponent(self):
        if self.const() is not None:
            return self.const()
        if self.isint:
            return self.__index__()
        raise Unsupported("symbolic exponent")

    def __rpow__(self, o):
        e = self.concrete_exponent()
        if e.denominator != 1 if isinstance(e, Fraction) else False:
            raise Unsupported("fractional symbolic exponent")
        e = int(e)
        if isinstance(o, float) or e < 0:
            b = Fraction(o)
            v = b ** e
            return SymNum({ONE: v} if v else {}, False)
        return o ** e

    # -- bit operations on integers
    def __and__(self, o):
        if isinstance(o, SymNum) and o.const() is not None:
            o = int(o.const())
        if isinstance(o, (SymNum, SymBool)):
            raise Unsupported("symbolic & symbolic")
        o = int(o)
        if o < 0:
            # x & ~mask == x - (x & mask)
            return self - (self & (~o))
        r = 0
        bit = 0
        while o >> bit:
            if not (o >> bit) & 1:
                bit += 1
                continue
            hi = bit
            while (o >> hi) & 1:
                hi += 1
            r = ((self // (1 << bit)) % (1 << (hi - bit))) * (1 << bit) + r
            bit = hi
        return r

    __rand__ = __and__

    def __or__(self, o):
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def _cmp(self, o, op):
        if hasattr(o, "__array_function__") and getattr(o, "ndim", 0):
            return NotImplemented
        if isinstance(o, float) and (o != o or abs(o) == math.inf):
            if o != o:
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        q = topoly(o)
        if q is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        d = _padd(self.p, q, -1)
        if op in ("==", "!=") and len(d) > 1 and ENGINE.angles:
            ENGINE.vanishing_angle(d)
        return pcmp(d, op)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        r = self._cmp(0, "!=")
        return bool(r)

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        ENGINE.note("hash of symbolic number")
        return ENGINE.symhash(self)

    # -- conversions
    def __index__(self):
        c = self.const()
        if c is not None:
            if c.denominator != 1:
                raise TypeError("non-integer index")
            return int(c)
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENGINE.choose_int(self)

    def __int__(self):
        t = s_trunc(self)
        if isinstance(t, SymNum):
            return ENGINE.choose_int(t)
        return t

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        return ENGINE.concretize(self)

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n is None:
            return s_round(self)
        k = 10 ** n
        return s_round(self * k) / k

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return s_trunc(self)

    def __format__(self, spec):
        c = self.const()
        return ENGINE.token(self, spec)

    def __str__(self):
        return ENGINE.token(self, "")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        return s_floor(self) == self

    # numpy object-array unary methods
    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def tan(self):
        return s_sin(self) / s_cos(self)

    def sqrt(self):
        return s_sqrt(self)

    def rint(self):
        return toreal(s_round(self))

    def floor(self):
        return toreal(s_floor(self))

    def ceil(self):
        return toreal(s_ceil(self))

    def item(self):
        return self

    def copy(self):
        return self

    ndim = 0
    shape = ()
    size = 1
    dtype = None


def nearly_const(v, tol=1e-7):
    """The float that a number is in effect (constant but for rounding of the code's own constants), or None."""
    if not isinstance(v, SymNum):
        return float(v)
    c = v.const()
    if c is not None:
        return float(c)
    lo, hi = ENGINE.interval(v.p) or (None, None)
    if lo is not None and hi is not None and hi - lo < tol:
        return float((lo + hi) / 2)
    return None


def toreal(x):
    if isinstance(x, SymNum):
        return SymNum(x.p, False) if x.isint else x
    if isinstance(x, int) and not isinstance(x, bool):
        return float(x) if abs(x) < 2 ** 53 else SymNum({ONE: Fraction(x)}, False)
    return x


# ---------------------------------------------------------------- z3 translation

def zmono(m):
    t = None
    for a, e in m:
        z = a.z
        if a.zi:
            z = z3.ToReal(z)
        if e < 0:
            z = ENGINE.inv_atom({((a, 1),): Fraction(1)}).z
            e = -e
        for _ in range(e):
            t = z if t is None else t * z
    return t


def zval(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def zpoly(p):
    """Real-sorted z3 term."""
    terms = []
    for m, c in sorted(p.items(), key=lambda t: tuple((a.name, e) for a, e in t[0])):
        if m == ONE:
            terms.append(zval(c))
        else:
            t = zmono(m)
            terms.append(t if c == 1 else zval(c) * t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def zpoly_atoms(p):
    s = set()
    for m in p:
        for a, e in m:
            s.add(a)
            if e < 0:
                s.add(ENGINE.inv_atom({((a, 1),): Fraction(1)}))
    return s


def allint(p):
    for m, c in p.items():
        for a, e in m:
            if not a.isint or e < 0:
                return False
    return True


def allzi(p):
    """All atoms are integers for the solver."""
    for m, c in p.items():
        for a, e in m:
            if not a.zi or e < 0:
                return False
    return True


def zint(p):
    """Int-sorted term for p times the lcm of denominators (only the sign matters)."""
    l = 1
    for c in p.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    terms = []
    for m, c in sorted(p.items(), key=lambda t: tuple((a.name, e) for a, e in t[0])):
        k = int(c * l)
        t = None
        for a, e in m:
            for _ in range(e):
                t = a.z if t is None else t * a.z
        if t is None:
            terms.append(z3.IntVal(k))
        else:
            terms.append(t if k == 1 else k * t)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


FLIP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


def pcmp(d, op):
    """Compare polynomial d with 0."""
    if not d:
        return op in ("==", "<=", ">=")
    if len(d) == 1 and ONE in d:
        c = d[ONE]
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    e = ENGINE
    r = e.quick(d, op)
    if r is not None:
        return r
    if len(d) > 1 and ONE not in d:
        # divide by common factors of known sign
        com = None
        for m in d:
            com = dict(m) if com is None else {a: min(x, com[a]) for a, x in m if a in com}
            if not com:
                break
        div = []
        for a, x in (com or {}).items():
            lo, hi = e.bounds.get(a) or (None, None)
            if x > 0 and lo is not None and lo > 0:
                div.append((a, -x))
            elif x > 0 and hi is not None and hi < 0:
                div.append((a, -x))
                if x % 2:
                    op = FLIP[op]
        if div:
            div = tuple(sorted(div, key=lambda t: t[0].name))
            return pcmp({_mono_mul(m, div): c for m, c in d.items()}, op)
    terms = sorted(((tuple((a.name, x) for a, x in m)), c) for m, c in d.items())
    # signs (1 negative, 2 zero, 4 positive) of d that satisfy the condition, for d with a positive first coefficient
    lead = terms[0][1]
    want = {"==": 2, "!=": 5, "<": 1, "<=": 3, ">": 4, ">=": 6}[op]
    if lead < 0:
        want = (want & 2) | (want & 1) << 2 | (want & 4) >> 2
    if lead != 1:
        terms = [(m, c / lead) for m, c in terms]
    pk = tuple(terms)
    known = e.signs.get(pk, 7)
    if known & want == known:
        return True
    if not known & want:
        return False
    key = (pk, want)
    hit = e.cmpcache.get(key)
    if hit is not None:
        return hit
    ints = True
    plain = True
    for m in d:
        for a, x in m:
            if not a.zi:
                ints = False
            if x < 0:
                plain = False
    if plain:
        # the same condition on another path is the same term
        gk = (pk, want, tuple([a.zi for m in d for a, x in m]))
        z = ZCACHE.get(gk)
        ats = frozenset([a for m in d for a, x in m])
    else:
        z = None
        ats = frozenset(zpoly_atoms(d))
    if z is None:
        if ints and plain:
            t = zint(d)
            zero = z3.IntVal(0)
        else:
            t = zpoly(d)
            zero = z3.RealVal(0)
        z = (t == zero if op == "==" else t != zero if op == "!=" else t < zero if op == "<" else t <= zero if op == "<=" else
             t > zero if op == ">" else t >= zero)
        if plain:
            if len(ZCACHE) > 50000:
                ZCACHE.clear()
            ZCACHE[gk] = z
    b = SymBool(z, ats, (pk, want))
    e.cmpcache[key] = b
    return b


ZCACHE = {}


# ---------------------------------------------------------------- derived atoms

def _pconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def common_monomial(ps):
    """The monomial (positive powers) that divides all these polynomials."""
    best = None
    for p in ps:
        for m in p:
            d = {a: e for a, e in m if e > 0}
            best = d if best is None else {a: min(e, d[a]) for a, e in best.items() if a in d}
            if not best:
                return ()
    return tuple(sorted((best or {}).items(), key=lambda t: t[0].name))


def recip_poly(q):
    c = _pconst(q)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return {ONE: 1 / c}
    if ENGINE.assume_nonzero:
        r = pcmp(q, "!=")
        if r is False:
            raise ZeroDivisionError("division by zero")
        if r is not True and not ENGINE.sign_known(q):
            ENGINE.note("denominators are assumed to be different from zero")
    elif bool(pcmp(q, "==")):
        raise ZeroDivisionError("division by zero")
    if len(q) == 1:
        (m, c), = q.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    # normalise leading coefficient
    lead = min(q, key=lambda m: tuple((a.name, e) for a, e in m))
    k = q[lead]
    n = {m: c / k for m, c in q.items()}
    a = ENGINE.inv_atom(n)
    return {((a, 1),): 1 / k}


def exact_quotient(a, b):
    """Polynomial q with q * b = a (denominator of several terms), or None."""
    p, d = topoly(a), topoly(b)
    if len(d) < 2 or len(p) < len(d) or any(e < 0 for m in d for _, e in m) or any(e < 0 for m in p for _, e in m):
        return None
    names = sorted({v for m in p for v, _ in m} | {v for m in d for v, _ in m})

    def order(m):
        x = dict(m)
        return tuple(x.get(v, 0) for v in names)
    dl = max(d, key=order)
    q = {}
    for _ in range(40):
        if not p:
            return mk(q, False)
        pl = max(p, key=order)
        have = dict(pl)
        if any(have.get(v, 0) < e for v, e in dl):
            return None
        m = _mono_mul(pl, tuple((v, -e) for v, e in dl))
        c = p[pl] / d[dl]
        q[m] = c
        p = _padd(p, {_mono_mul(m, n): c * k for n, k in d.items()}, -1)
    return None


def as_int(x):
    return x


def _const_floor(p):
    iv = ENGINE.interval(p)
    if iv is not None and iv[0] is not None and iv[1] is not None and math.floor(iv[0]) == math.floor(iv[1]):
        return math.floor(iv[0])
    return None


def s_floor(x):
    if not isinstance(x, SymNum):
        return math.floor(x)
    if x.isint:
        return x
    c = x.const()
    if c is not None:
        return math.floor(c)
    # integer part passes through
    if allint(x.p) and all(v.denominator == 1 for v in x.p.values()):
        return mk(x.p, True)
    ip = {m: v for m, v in x.p.items() if v.denominator == 1 and all(a.isint and e > 0 for a, e in m)}
    rest = {m: v for m, v in x.p.items() if m not in ip}
    n = _const_floor(rest)
    if n is not None:
        return mk(_padd(ip, {ONE: Fraction(n)}), True)
    if len(rest) == 1:
        (m, v), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and v.numerator == 1 and getattr(m[0][0], "floor_of", None) is not None:
            # floor(floor(y)/k) == floor(y/k)
            return mk(_padd(ip, topoly(s_floor(SymNum({k: c * v for k, c in m[0][0].floor_of.items()})))), True)
    a = ENGINE.def_atom("floor", rest, True)
    a.floor_of = rest
    return mk(_padd(ip, {((a, 1),): Fraction(1)}), True)


def s_ceil(x):
    if not isinstance(x, SymNum):
        return math.ceil(x)
    if x.isint:
        return x
    return -s_floor(-x)


def s_trunc(x):
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return x
    c = x.const()
    if c is not None:
        return math.trunc(c)
    if allint(x.p) and all(v.denominator == 1 for v in x.p.values()):
        return mk(x.p, True)
    a = ENGINE.def_atom("trunc", x.p, True)
    return mk({((a, 1),): Fraction(1)}, True)


def s_round(x):
    if not isinstance(x, SymNum):
        return round(x)
    if x.isint:
        return x
    c = x.const()
    if c is not None:
        return round(c)
    if allint(x.p) and all(v.denominator == 1 for v in x.p.values()):
        return mk(x.p, True)
    a = ENGINE.def_atom("round", x.p, True)
    return mk({((a, 1),): Fraction(1)}, True)


def floordiv(a, b):
    pb = topoly(b)
    c = _pconst(pb)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError()
        r = s_floor(mk(_pmul(topoly(a), {ONE: 1 / c}), False))
    else:
        r = s_floor(a / b)
    if not (isintlike(a) and isintlike(b)):
        r = toreal(r)
    return r


def s_abs(x):
    if not isinstance(x, SymNum):
        return abs(x)
    c = x.const()
    if c is not None:
        return mk({ONE: abs(c)} if c else {}, x.isint)
    # canonical sign
    lead = min(x.p, key=lambda m: tuple((a.name, e) for a, e in m))
    p = x.p
    if p[lead] < 0:
        p = {m: -v for m, v in p.items()}
    k = p[lead]
    q = {m: v / k for m, v in p.items()} if not x.isint else p
    s = ENGINE.sign_known(q)
    if s is not None:
        return mk(p if s >= 0 else {m: -v for m, v in p.items()}, x.isint)
    a = ENGINE.def_atom("abs", q, x.isint)
    return mk({((a, 1),): k if not x.isint else Fraction(1)}, x.isint)


def s_max2(a, b):
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return a if a >= b else b
    d = a - b
    if not isinstance(d, SymNum) or d.const() is not None:
        c = d.const() if isinstance(d, SymNum) else d
        return a if c >= 0 else b
    s = ENGINE.sign_known(d.p)
    if s is not None:
        return a if s >= 0 else b
    # max(a,b) = b + max(d,0)
    isint = isintlike(a) and isintlike(b)
    at = ENGINE.def_atom("pos", d.p, isint)
    return mk(_padd(topoly(b), {((at, 1),): Fraction(1)}), isint)


def s_min2(a, b):
    return -s_max2(-a, -b)


def s_sign(x):
    if not isinstance(x, SymNum):
        return (x > 0) - (x < 0)
    if bool(x > 0):
        return 1
    if bool(x < 0):
        return -1
    return 0


def s_sqrt(x):
    if not isinstance(x, SymNum):
        x = SymNum(topoly(x), False)
    c = x.const()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of negative")
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            f = Fraction(n, d)
            return SymNum({ONE: f} if f else {}, False)
        if not ENGINE.exact_trig:
            return math.sqrt(c)
    else:
        # single monomial with even powers: |m|
        if len(x.p) == 1:
            (m, v), = x.p.items()
            if v > 0 and all(e % 2 == 0 for _, e in m):
                return s_sqrt(v) * s_abs(SymNum({tuple((a, e // 2) for a, e in m): Fraction(1)}, False))
        r = perfect_square(x.p)
        if r is not None:
            return s_abs(SymNum(r, False))
        if bool(x < 0):
            raise Unsupported("sqrt of negative")
    a = ENGINE.def_atom("sqrt", x.p, False)
    return SymNum({((a, 1),): Fraction(1)}, False)


def perfect_square(p):
    """Tiny attempt: (sum k_i m_i)^2 for up to 4 terms."""
    sq = []
    for m, v in p.items():
        if all(e % 2 == 0 for _, e in m) and v > 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                sq.append((tuple((a, e // 2) for a, e in m), Fraction(n, d)))
    if not sq or len(sq) > 4 or len(p) > 16:
        return None
    import itertools
    sq.sort(key=lambda t: tuple((a.name, e) for a, e in t[0]))
    for signs in itertools.product((1, -1), repeat=len(sq) - 1):
        c = {sq[0][0]: sq[0][1]}
        for s, (m, v) in zip(signs, sq[1:]):
            c[m] = s * v
        if _pmul(c, c) == p:
            return c
    return None


# angles -----------------------------------------------------------------

_SPECIAL = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}


def _cossin(x):
    if not isinstance(x, SymNum):
        f = _num(x)
        if f is None:
            raise Unsupported("cos of %r" % (x,))
        if f == 0:
            return 1, 0
        x = SymNum({ONE: f}, False)
    e = ENGINE
    key = _pkey(x.p)
    hit = e.cscache.get(key)
    if hit is not None:
        return hit
    c, s = SymNum({ONE: Fraction(1)}), SymNum({})
    for m, v in sorted(x.p.items(), key=lambda t: tuple((a.name, k) for a, k in t[0])):
        ci, si = e.angle_term(m, v)
        c, s = c * ci - s * si, s * ci + c * si
        c = SymNum(topoly(c)); s = SymNum(topoly(s))
    e.cscache[key] = (c, s)
    return c, s


def _fc(x):
    """In float-constant mode: the float value of a constant, else None."""
    if ENGINE.exact_trig:
        return None
    c = x.const() if isinstance(x, SymNum) else _num(x)
    if c is None and isinstance(x, SymNum):
        # polynomial in pi
        P = ENGINE.PIatom
        if all(len(m) <= 1 and all(t is P for t, _ in m) for m in x.p):
            return float(sum(float(v) * math.pi ** (m[0][1] if m else 0) for m, v in x.p.items()))
    return None if c is None else float(c)


def s_cos(x):
    f = _fc(x)
    if f is not None:
        return math.cos(f)
    return _cossin(x)[0]


def s_sin(x):
    f = _fc(x)
    if f is not None:
        return math.sin(f)
    return _cossin(x)[1]


def s_arctan2(y, x):
    if not isinstance(x, SymNum) and not isinstance(y, SymNum):
        return math.atan2(y, x)
    e = ENGINE
    fx, fy = _fc(x), _fc(y)
    if fx is not None and fy is not None:
        return math.atan2(fy, fx)
    px, py = topoly(x), topoly(y)
    sx, sy = SymNum(px), SymNum(py)
    # decide special directions first: exact constants
    if bool(sy == 0):
        if bool(sx >= 0):
            return SymNum({})
        return e.PI
    if bool(sx == 0):
        return e.PI / 2 if bool(sy > 0) else -e.PI / 2
    r = s_sqrt(sx * sx + sy * sy)
    if not e.exact_trig:
        cc, cs = topoly(sx / r), topoly(sy / r)
        if all(len(p) == 1 and ONE in p for p in (cc, cs)):
            return math.atan2(cs[ONE], cc[ONE])
    key = ("atan2", _pkey(topoly(sx / r)), _pkey(topoly(sy / r)))
    hit = e.angcache.get(key)
    if hit is None:
        a = e.fresh_atom("at", False)
        c = sx / r
        s = sy / r
        e.register_angle(a, c, s)
        n = SymNum({((a, 1),): Fraction(1)})
        e.axiom(a, sand(n > -e.PI, n <= e.PI))
        e.axiom(a, sor(sand(sy > 0, n > 0, n < e.PI), sand(sy < 0, n < 0)))
        e.axiom(a, sor(sand(sx > 0, n * 2 < e.PI, n * 2 > -e.PI), sand(sx < 0, sor(n * 2 > e.PI, n * 2 < -e.PI))))
        e.note_approx(a, lambda env, fy=sy, fx=sx: math.atan2(e.evalf(fy.p, env), e.evalf(fx.p, env)))
        e.angcache[key] = hit = n
    return hit


def s_arccos(v):
    f = _fc(v)
    if f is not None:
        return math.acos(f)
    if not isinstance(v, SymNum):
        v = SymNum(topoly(v))
    e = ENGINE
    k = v.const()
    if k is not None:
        for val, q in ((1, Fraction(0)), (0, Fraction(1, 2)), (-1, Fraction(1)), (Fraction(1, 2), Fraction(1, 3)), (Fraction(-1, 2), Fraction(2, 3))):
            if k == val:
                return e.PI * q if q else SymNum({})
    if bool(v > 1) or bool(v < -1):
        raise Unsupported("arccos out of range")
    key = ("acos", _pkey(v.p))
    hit = e.angcache.get(key)
    if hit is None:
        a = e.fresh_atom("ac", False)
        s = s_sqrt(1 - v * v)
        e.register_angle(a, v, s)
        n = SymNum({((a, 1),): Fraction(1)})
        e.axiom(a, sand(n >= 0, n <= e.PI))
        e.axiom(a, sor(sand(v > 0, n * 2 < e.PI), sand(v <= 0, n * 2 >= e.PI)))
        e.note_approx(a, lambda env, fv=v: math.acos(max(-1, min(1, e.evalf(fv.p, env)))))
        e.angcache[key] = hit = n
    return hit
