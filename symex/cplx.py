"""Complex numbers with symbolic parts (only what simple code needs)."""
from . import core
from .core import SymNum


class SymComplex:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, complex):
            return SymComplex(x.real, x.imag)
        return SymComplex(x, 0)

    def __add__(self, o):
        o = self.of(o)
        return SymComplex(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = self.of(o)
        return SymComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return self.of(o) - self

    def __mul__(self, o):
        o = self.of(o)
        return SymComplex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __truediv__(self, o):
        o = self.of(o)
        n = o.real * o.real + o.imag * o.imag
        return SymComplex((self.real * o.real + self.imag * o.imag) / n, (self.imag * o.real - self.real * o.imag) / n)

    def __rtruediv__(self, o):
        return self.of(o) / self

    def __abs__(self):
        return core.s_sqrt(self.real * self.real + self.imag * self.imag)

    def conjugate(self):
        return SymComplex(self.real, -self.imag)
    conj = conjugate

    def exp(self):
        if isinstance(self.real, SymNum) and self.real.const() == 0 or not isinstance(self.real, SymNum) and self.real == 0:
            return SymComplex(core.s_cos(self.imag), core.s_sin(self.imag))
        raise core.Unsupported("complex exp")

    def __eq__(self, o):
        o = self.of(o)
        return core.sand(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return core.snot(self == o)

    __hash__ = None
