"""Symbolic execution of LLVM IR (clang -O1 of the extension module's C++ source).

Each function is translated on first use to a Python function over the engine's values: integers are
Python ints (wrapped to their width when concrete) or integer SymNum (no overflow within the stated
bounds, checked by interval), doubles are floats or SymNum (exact reals), pointers are concrete addresses
in a flat memory of typed cells.  Branches on symbolic conditions are branches of the path explorer.
Reads and writes outside live blocks, and uncaught C++ exceptions, raise.
"""
from __future__ import annotations
from fractions import Fraction
import bisect
import math
import os
import re
import struct
import subprocess
import sys
import tempfile

from .core import SymNum, SymBool, Unsupported, s_trunc, s_abs, s_sqrt, s_cos, s_sin, s_arctan2
from . import core


class MemoryError_(Exception):
    """The code reads or writes outside its memory."""


class CxxThrow(Exception):
    """A C++ exception."""


class Undef:
    def __repr__(self):
        return "undef"

    def __bool__(self):
        raise MemoryError_("branch on an uninitialised value")

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = _p
    __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __rtruediv__ = __neg__ = _p
    __hash__ = None

    def __eq__(self, o):
        return self
    __ne__ = __eq__

    def __index__(self):
        raise MemoryError_("an uninitialised value is used as an address or size")


UNDEF = Undef()

# ---------------------------------------------------------------- types

TOK = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|c"(?:[^"\\]|\\.)*"|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|![\w.]*|"[^"]*"|<\{|\}>|[(){}\[\],<>=*#:|])')


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("IR text %r" % s[i:i + 40])
        out.append(m.group(1))
        i = m.end()
    return out


class Toks:
    def __init__(self, ts):
        self.t, self.i = ts, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported("IR: %r expected in %r" % (x, " ".join(self.t[self.i - 3:self.i + 8])))


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "readnone", "writeonly", "noalias", "immarg", "returned", "inreg", "nofree", "nest", "swiftself", "nosync",
         "tail", "musttail", "notail", "fastcc", "nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "contract", "arcp", "afn", "reassoc", "volatile", "unnamed_addr", "dso_local", "local_unnamed_addr",
         "inrange", "nneg", "disjoint", "noreturn", "nounwind"}


def skip_attrs(t):
    while True:
        p = t.peek()
        if p in ATTRS:
            t.next()
        elif p == "align" or p == "dereferenceable" or p == "dereferenceable_or_null" or p in ("sret", "byval", "range", "memory", "captures"):
            t.next()
            if t.eat("("):
                d = 1
                while d:
                    x = t.next()
                    d += (x == "(") - (x == ")")
            else:
                t.next()
        else:
            return


class Module:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.types = {}
        self.layouts = {}
        self.funcs = {}      # name -> (first line, last line)
        self.globals = {}    # name -> definition text
        self.aliases = {}
        self.declared = set()
        i = 0
        n = len(self.lines)
        while i < n:
            l = self.lines[i]
            if l.startswith("define "):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                j = i
                while self.lines[j] != "}":
                    j += 1
                self.funcs[m.group(1)] = (i, j)
                i = j
            elif l.startswith("%"):
                k = l.index(" = type ")
                self.types[l[:k]] = l[k + 8:]
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
                if re.search(r"\balias\b", m.group(2)):
                    self.aliases[m.group(1)] = m.group(2).rsplit("@", 1)[1].split(",")[0].strip()
                else:
                    self.globals[m.group(1)] = m.group(2)
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.declared.add(m.group(1))
            i += 1
        self.compiled = {}
        self.executed = {}

    # types are: ("i", bits) ("d",) ("p",) ("v",) ("f", ...) ("s", [types], packed) ("a", n, type) ("m",)
    def type(self, t):
        x = t.next()
        if x == "ptr":
            return ("p",)
        if x == "void":
            return ("v",)
        if x == "double":
            return ("d",)
        if x == "metadata":
            return ("m",)
        if re.fullmatch(r"i\d+", x):
            return ("i", int(x[1:]))
        if x.startswith("%"):
            r = self.layouts.get(x)
            if r is None:
                r = self.layouts[x] = self.type(Toks(tokens(self.types[x])))
            return r
        if x == "[":
            n = int(t.next())
            t.expect("x")
            e = self.type(t)
            t.expect("]")
            return ("a", n, e)
        if x in ("{", "<{"):
            fs = []
            close = "}" if x == "{" else "}>"
            while not t.eat(close):
                fs.append(self.type(t))
                t.eat(",")
            return ("s", tuple(fs), x == "<{")
        raise Unsupported("IR type %r" % x)

    def align(self, ty):
        k = ty[0]
        if k == "i":
            return min(8, (ty[1] + 7) // 8)
        if k in "dp":
            return 8
        if k == "a":
            return self.align(ty[2])
        if ty[2]:
            return 1
        return max([self.align(f) for f in ty[1]] or [1])

    def size(self, ty):
        k = ty[0]
        if k == "i":
            return (ty[1] + 7) // 8
        if k in "dp":
            return 8
        if k == "a":
            return ty[1] * self.size(ty[2])
        o = self.offset(ty, len(ty[1]))
        a = self.align(ty)
        return (o + a - 1) // a * a

    def offset(self, ty, n):
        o = 0
        for j, f in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if j == n:
                return o
            o += self.size(f)
        return o


def wrap(x, bits):
    h = 1 << (bits - 1)
    if -h <= x < h:
        return x
    return ((x + h) & ((1 << bits) - 1)) - h


class Machine:
    """Memory and externals of one execution."""
    M63 = 1 << 63

    def __init__(self, mod):
        self.mod = mod
        self.mem, self.ms = {}, {}
        self.top = 0x100000
        self.blocks = {}
        self.starts = []
        self.addr_of = {}
        self.func_at = {}
        self.handles = {}
        self.handle_of = {}
        self.error = None
        self.steps = 0
        self.limit = 3000000
        self.types_made = False

    # ---------------------------------------------------------- memory
    def alloc(self, n):
        if type(n) is not int:
            n = n.__index__()
        if n < 0 or n > 1 << 24:
            raise CxxThrow("bad_alloc")
        a = self.top
        self.top = (a + n + 47) // 16 * 16
        self.blocks[a] = n
        self.starts.append(a)
        return a

    def free(self, a):
        if a == 0:
            return
        n = self.blocks.pop(a, None)
        if n is None:
            raise MemoryError_("free of an address that is not a live block")
        mem, ms = self.mem, self.ms
        if n > 4096 and len(mem) < n:
            for k in [k for k in mem if a <= k < a + n]:
                del mem[k], ms[k]
        else:
            for k in range(a, a + n):
                if k in ms:
                    del mem[k], ms[k]

    def live(self, a, n):
        i = bisect.bisect_right(self.starts, a) - 1
        if i >= 0:
            s = self.starts[i]
            if s in self.blocks and a + n <= s + self.blocks[s]:
                return True
        return False

    def load(self, a, k):
        """k: 8 pointer or 64-bit integer, -8 double, 4, 2, 1"""
        if self.ms.get(a) == k:
            return self.mem[a]
        return self.slow_load(a, k)

    def slow_load(self, a, k):
        n = abs(k)
        if not self.live(a, n):
            raise MemoryError_("read of %d bytes at %s outside live memory" % (n, "null" if a < 4096 else "an address"))
        s = self.ms.get(a)
        if s is not None and abs(s) == n:
            v = self.mem[a]
            if v is UNDEF:
                return v
            if isinstance(v, SymNum) or isinstance(v, SymBool):
                if s == -8 and k == 8:
                    return v    # bits of a symbolic double, only moved around
                raise Unsupported("bits of a symbolic number")
            if k == -8:
                return v if isinstance(v, float) else struct.unpack("<d", struct.pack("<q", wrap(v, 64)))[0]
            return struct.unpack("<q", struct.pack("<d", v))[0]
        if n == 8:
            i, src = a, None
            while i < a + 8:
                v = self.mem.get(i)
                if not isinstance(v, Slice) or v.lo != 8 * (i - a) or (src is not None and v.src is not src) or v.n != 8 * abs(self.ms[i]):
                    break
                src = v.src
                i += v.n // 8
            else:
                if i == a + 8:
                    return src
        self.split(a, n)
        bs = []
        for i in range(a, a + n):
            if i not in self.ms:
                return UNDEF
            if isinstance(self.mem[i], SymNum):
                raise Unsupported("bytes of a symbolic number")
            bs.append(self.mem[i] & 255)
        b = bytes(bs)
        if k == -8:
            return struct.unpack("<d", b)[0]
        return int.from_bytes(b, "little", signed=True)

    def split(self, a, n):
        """Cells overlapping [a, a+n) become bytes."""
        mem, ms = self.mem, self.ms
        for i in range(a - 7, a + n):
            s = ms.get(i)
            if s is None or s == 1:
                continue
            w = abs(s)
            if i + w <= a:
                continue
            v = mem[i]
            if v is UNDEF:
                del mem[i], ms[i]
                continue
            if isinstance(v, SymNum) and (s > 0 or isinstance(v, Slice)):
                src, lo = (v.src, v.lo) if isinstance(v, Slice) else (v, 0)
                del mem[i], ms[i]
                for j in range(w):
                    mem[i + j] = Slice(src, lo + 8 * j, 8)
                    ms[i + j] = 1
                continue
            if isinstance(v, (SymNum, SymBool)):
                raise Unsupported("bytes of a symbolic number")
            b = struct.pack("<d", v) if s == -8 else (int(v) & ((1 << 8 * w) - 1)).to_bytes(w, "little")
            del mem[i], ms[i]
            for j, x in enumerate(b):
                mem[i + j] = x - 256 if x > 127 else x
                ms[i + j] = 1

    def store(self, a, k, v):
        if self.ms.get(a) == k:
            self.mem[a] = v
            return
        self.slow_store(a, k, v)

    def slow_store(self, a, k, v):
        n = abs(k)
        if not self.live(a, n):
            raise MemoryError_("write of %d bytes at %s outside live memory" % (n, "null" if a < 4096 else "an address"))
        self.clear(a, n)
        self.mem[a] = v
        self.ms[a] = k

    def clear(self, a, n):
        mem, ms = self.mem, self.ms
        for i in range(a - 7, a):
            s = ms.get(i)
            if s is not None and i + abs(s) > a:
                self.split(a, n)
                break
        if n <= 8:
            for i in range(a + max(0, n - 7), a + n):
                s = ms.get(i)
                if s is not None and i + abs(s) > a + n:
                    self.split(a, n)
                    break
        else:
            for i in range(a + n - 7, a + n):
                s = ms.get(i)
                if s is not None and i + abs(s) > a + n:
                    self.split(i, 1)
        for i in range(a, a + n):
            if i in ms:
                del mem[i], ms[i]

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = n.__index__()
        if n == 0:
            return
        if not self.live(s, n) or not self.live(d, n):
            raise MemoryError_("copy outside live memory")
        ms, mem = self.ms, self.mem
        for i in range(s - 7, s):
            w = ms.get(i)
            if w is not None and i + abs(w) > s:
                self.split(s, 1)
                break
        for i in range(s + n - 7, s + n):
            w = ms.get(i)
            if w is not None and i + abs(w) > s + n:
                self.split(i, 1)
        got = [(i - s, ms[i], mem[i]) for i in range(s, s + n) if i in ms]
        self.clear(d, n)
        for o, w, v in got:
            ms[d + o] = w
            mem[d + o] = v

    def memset(self, a, v, n):
        if type(n) is not int:
            n = n.__index__()
        if n == 0:
            return
        if not self.live(a, n):
            raise MemoryError_("memset outside live memory")
        self.clear(a, n)
        ms, mem = self.ms, self.mem
        i = a
        v &= 255
        w8 = int.from_bytes(bytes([v]) * 8, "little", signed=True)
        while i + 8 <= a + n and i % 8 == 0:
            ms[i] = 8
            mem[i] = w8
            i += 8
        while i < a + n:
            ms[i] = 1
            mem[i] = wrap(v, 8)
            i += 1

    def cstr(self, a):
        b = bytearray()
        while True:
            v = self.load(a, 1) & 255
            if not v:
                return bytes(b)
            b.append(v)
            a += 1

    def put_cstr(self, s):
        a = self.alloc(len(s) + 1)
        for i, c in enumerate(s + b"\0"):
            self.slow_store(a + i, 1, wrap(c, 8))
        return a

    # ---------------------------------------------------------- globals
    def address(self, name):
        a = self.addr_of.get(name)
        if a is not None:
            return a
        m = self.mod
        if name in m.aliases:
            a = self.address(m.aliases[name])
            self.addr_of[name] = a
            return a
        if name in m.funcs or name in m.declared:
            a = self.addr_of[name] = self.alloc(1)
            self.func_at[a] = name
            return a
        d = m.globals[name]
        t = Toks(tokens(re.sub(r", (align \d+|comdat|section .*)", "", d)))
        ext = False
        while t.peek() not in ("global", "constant"):
            ext = ext or t.next() == "external"
            if t.peek() is None:
                raise Unsupported("global " + name)
        if "external" in d.split("global")[0].split("constant")[0]:
            ext = True
        t.next()
        ty = m.type(t)
        n = max(8, m.size(ty))
        a = self.addr_of[name] = self.alloc(n)
        if ext:
            self.slow_store(a, 8, self.alloc(64))
        else:
            self.init(a, ty, t)
        return a

    def init(self, a, ty, t):
        m = self.mod
        k = ty[0]
        x = t.peek()
        if x == "zeroinitializer":
            t.next()
            self.memset(a, 0, m.size(ty))
        elif x in ("undef", "poison"):
            t.next()
        elif k == "a":
            if x.startswith('c"'):
                t.next()
                b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda r: bytes([int(r.group(1), 16)]), x[2:-1].encode("latin1"))
                for i, c in enumerate(b):
                    self.slow_store(a + i, 1, wrap(c, 8))
                return
            t.expect("[")
            for i in range(ty[1]):
                e = m.type(t)
                self.init(a + i * m.size(e), e, t)
                t.eat(",")
            t.expect("]")
        elif k == "s":
            close = "}>" if ty[2] else "}"
            t.next()
            for i, f in enumerate(ty[1]):
                m.type(t)
                self.init(a + m.offset(ty, i), f, t)
                t.eat(",")
            t.expect(close)
        else:
            v = eval(Func(m, None).value(ty, t), {"E": self, "Fr": None, "UNDEF": UNDEF})
            self.slow_store(a, KIND(ty), v)

    # ---------------------------------------------------------- Python objects
    IMMORTAL = 0xFFFFFFFF

    def pyobj(self, o):
        """Handle of a Python object."""
        if not self.types_made:
            self.make_types()
        a = self.alloc(32)
        self.slow_store(a, 8, self.IMMORTAL)
        self.slow_store(a + 8, 8, self.typ)
        self.handles[a] = o
        return a

    def make_types(self):
        self.types_made = True
        self.seq = self.alloc(80)
        self.memset(self.seq, 0, 80)
        f = self.alloc(1)
        self.func_at[f] = "PySequence_GetItem"
        self.slow_store(self.seq + 24, 8, f)
        f = self.alloc(1)
        self.func_at[f] = "PySequence_Size"
        self.slow_store(self.seq, 8, f)
        self.typ = self.alloc(408)
        self.memset(self.typ, 0, 408)
        self.slow_store(self.typ + 104, 8, self.seq)
        self.tupletyp = self.alloc(408)
        self.memset(self.tupletyp, 0, 408)
        self.slow_store(self.tupletyp + 104, 8, self.seq)
        self.slow_store(self.tupletyp + 168, 8, 1 << 26)

    def pytuple(self, n):
        if not self.types_made:
            self.make_types()
        if type(n) is not int:
            n = n.__index__()
        a = self.alloc(24 + 8 * n)
        self.memset(a, 0, 24 + 8 * n)
        self.slow_store(a, 8, self.IMMORTAL)
        self.slow_store(a + 8, 8, self.tupletyp)
        self.slow_store(a + 16, 8, n)
        self.handles[a] = None
        return a

    def object(self, a):
        """The Python object of a handle."""
        if a not in self.handles:
            raise MemoryError_("not a Python object")
        if self.load(a + 8, 8) == self.tupletyp:
            return tuple(self.object(self.load(a + 24 + 8 * i, 8)) for i in range(self.load(a + 16, 8)))
        return self.handles[a]

    # ---------------------------------------------------------- calls
    def fn(self, name):
        f = self.mod.compiled.get(name)
        if f is None:
            if name in self.mod.aliases:
                return self.fn(self.mod.aliases[name])
            if name in self.mod.funcs:
                f = Func(self.mod, name).compile()
            else:
                f = EXTERN.get(name)
                if f is None:
                    raise Unsupported("external function " + name)
            self.mod.compiled[name] = f
        return f

    def icall(self, a, *args):
        n = self.func_at.get(a)
        if n is None:
            raise MemoryError_("call of an address that is not a function")
        return self.fn(n)(self, *args)

    def call(self, name, *args):
        """A METH_VARARGS function of the module on Python objects."""
        self.error = None
        try:
            r = self.fn(name)(self, 0, self.pyobj(args))
        except CxxThrow as e:
            raise RuntimeError("the process ends by an uncaught C++ exception (%s)" % e)
        if self.error is not None or r == 0:
            raise self.error or SystemError("NULL without exception")
        return self.object(r)


def KIND(ty):
    if ty[0] == "p":
        return 8
    if ty[0] == "d":
        return -8
    if ty[0] == "i":
        return (ty[1] + 7) // 8
    raise Unsupported("memory access of type %r" % (ty,))


# ---------------------------------------------------------------- runtime helpers of the translated code

def w(x, b):
    c = x.__class__
    if c is int:
        h = 1 << (b - 1)
        if -h <= x < h:
            return x
        return ((x + h) & ((1 << b) - 1)) - h
    if c is bool:
        return w(int(x), b)
    return x


def wm(x, b):
    """Of products: symbolic ones must be within the width."""
    if x.__class__ is SymNum:
        iv = core.ENGINE.interval(x.p)
        h = 1 << (b - 1)
        if iv is None or iv[0] is None or iv[1] is None or iv[0] < -h or iv[1] >= h:
            raise Unsupported("integer product may overflow within the bounds")
        return x
    return w(x, b)


def u(x, b):
    """Unsigned reading."""
    if x.__class__ is int:
        return x & ((1 << b) - 1)
    if x.__class__ is SymNum and bool(x < 0):
        return x + (1 << b)
    return x


def sel(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return a if c else b


def selb(c, a, b):
    """select between truth values, without branching."""
    if c is True:
        return a
    if c is False:
        return b
    if c is UNDEF:
        return b if a is b else UNDEF
    if a is UNDEF or b is UNDEF:
        return a if c else b
    return (c & a) | (~c & b)


def lnot(c):
    return (not c) if c.__class__ is bool else (c if c is UNDEF else ~c)


def zx(c):
    return 1 if c else 0


def sx(c):
    return -1 if c else 0


class Slice(SymNum):
    """Some bytes of a symbolic integer, only moved around."""
    __slots__ = ("src", "lo", "n", "_p")

    def __init__(self, src, lo, n):
        self.src, self.lo, self.n, self._p = src, lo, n, None
        self.isint = True

    @property
    def p(self):
        if self._p is None:
            if self.lo + self.n < 64:
                raise Unsupported("truncation of a symbolic number")
            self._p = core.topoly(u(self.src, 64) // (1 << self.lo))
        return self._p


def trunc_i(x, b):
    if x is UNDEF:
        return x
    if b == 1:
        if isinstance(x, SymNum):
            raise Unsupported("low bit of a symbolic number")
        return bool(x & 1)
    if isinstance(x, SymNum):
        iv = core.ENGINE.interval(x.p)
        h = 1 << (b - 1)
        if iv is None or iv[0] is None or iv[1] is None or iv[0] < -h or iv[1] >= h:
            if b % 8 == 0:
                return Slice(x.src, x.lo, b) if isinstance(x, Slice) else Slice(x, 0, b)
            raise Unsupported("truncation of a symbolic number")
        return x
    return w(x, b)


def sdiv(a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise ZeroDivisionError("integer division by zero (a signal)")
        q = abs(a) // abs(b)
        return w(q if (a < 0) == (b < 0) else -q, bits)
    if bool(b == 0):
        raise ZeroDivisionError("integer division by zero (a signal)")
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        q = core.exact_quotient(a, b)
        if q is not None:
            return s_trunc(q)
    return s_trunc(core.toreal(a) / b if isinstance(a, SymNum) else a / b)


def udiv(a, b, bits):
    return w(u(a, bits) // u(b, bits), bits)


def urem(a, b, bits):
    return w(u(a, bits) % u(b, bits), bits)


def srem(a, b, bits):
    return a - sdiv(a, b, bits) * b


def ashr(a, n, bits):
    if a.__class__ is int:
        return a >> n
    return a // (1 << n)


def lshr(a, n, bits):
    if bits == 64 and n.__class__ is int and n % 8 == 0 and n and isinstance(a, SymNum) and not isinstance(a, Slice):
        return Slice(a, n, 64 - n)
    return w(u(a, bits) >> n, bits) if a.__class__ is int else u(a, bits) // (1 << n)


def shl(a, n, bits):
    if a.__class__ is int:
        return w(a << n, bits)
    return wm(a * (1 << n), bits)


def band(a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    raise Unsupported("bits of a symbolic integer")


def bor(a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is int and a == 0:
        return b
    if b.__class__ is int and b == 0:
        return a
    raise Unsupported("bits of a symbolic integer")


def bxor(a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if b.__class__ is int and b == -1:
        return -a - 1
    if a is UNDEF or b is UNDEF:
        return UNDEF
    raise Unsupported("bits of a symbolic integer")


def sitofp(x):
    return float(x) if x.__class__ is int else x


def uitofp(x, b):
    return sitofp(u(x, b))


def fptosi(x, b):
    if x.__class__ is float:
        if x != x or abs(x) >= 2.0 ** (b - 1):
            return -(1 << (b - 1))
        return int(x)
    if x.__class__ is int:
        return x
    c = x.const()
    if c is not None:
        return math.trunc(c)
    return core.s_floor(x) if bool(x >= 0) else core.s_ceil(x)


def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if b.__class__ is SymNum:
        c = b.const()
        if c is None:
            if bool(b == 0):
                return fdiv(a if a.__class__ is float else float(bool(a > 0)) - float(bool(a < 0)), 0.0)
        elif c == 0:
            return fdiv(a if a.__class__ is float else float(bool(a > 0)) - float(bool(a < 0)), 0.0)
        q = core.exact_quotient(a, b) if isinstance(a, SymNum) else None
        return fcoll(a / b if q is None else q)
    if b == 0:
        return fdiv(float(bool(a > 0)) - float(bool(a < 0)), b)
    return fcoll(a / b)


def fmul(a, b):
    if a.__class__ is SymNum and b.__class__ is SymNum:
        for p, q in ((a, b), (b, a)):
            if len(p.p) == 1:
                (m, c), = p.p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].inv_of is not None:
                    r = core.exact_quotient(q, SymNum(m[0][0].inv_of))
                    if r is not None:
                        return fcoll(r * c)
    return fcoll(a * b)


def fcoll(x):
    """Constant reals become doubles."""
    if x.__class__ is SymNum:
        c = x.const()
        if c is not None and (c.denominator > 10 ** 12 or Fraction(float(c)) == c):
            return float(c)
    return x


def fl(x):
    """A constant as a double."""
    c = x.const() if x.__class__ is SymNum else None
    return x if c is None else float(c)


def fcmp(op, a, b):
    if a.__class__ is float and b.__class__ is float:
        nan = a != a or b != b
    else:
        nan = (a.__class__ is float and a != a) or (b.__class__ is float and b != b)
    if nan:
        return op[0] == "u" and op != "uno" or op == "uno"
    if op in ("ord", "uno"):
        return op == "ord"
    o = op[1:]
    if o == "eq":
        r = a == b
    elif o == "ne":
        r = a != b
    elif o == "lt":
        r = a < b
    elif o == "le":
        r = a <= b
    elif o == "gt":
        r = a > b
    else:
        r = a >= b
    return r if r is True or r is False or isinstance(r, SymBool) else bool(r)


def cb(r):
    """Comparison results as bool or SymBool."""
    return r


def mn(a, b):
    return a if a.__class__ is int and b.__class__ is int and a <= b else (min(a, b) if a.__class__ is int and b.__class__ is int else (a if bool(a <= b) else b))


def mx(a, b):
    return (a if a >= b else b) if a.__class__ is int and b.__class__ is int else (a if bool(a >= b) else b)


# ---------------------------------------------------------------- translation

class Func:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def var(self, x):
        return "v_" + re.sub(r"\W", lambda m: "_%x_" % ord(m.group()), x[1:])

    # ---- operands: Python expressions
    def value(self, ty, t):
        x = t.next()
        if x[0] == "%":
            return self.var(x)
        if x[0] == "@":
            return "E.address(%r)" % x[1:]
        if x == "null":
            return "0"
        if x in ("true", "false"):
            return x.capitalize()
        if x in ("undef", "poison"):
            return "UNDEF"
        if x == "zeroinitializer":
            return self.zero(ty)
        if ty[0] == "d":
            if x.startswith("0x"):
                return repr(struct.unpack(">d", bytes.fromhex(x[2:].zfill(16)))[0]).replace("inf", "INF").replace("nan", "NAN")
            return repr(float(x))
        if ty[0] == "i" or ty[0] == "p":
            if x == "getelementptr":
                skip_attrs(t)
                t.expect("(")
                base = self.mod.type(t)
                t.expect(",")
                ops = []
                while True:
                    skip_attrs(t)
                    k = self.mod.type(t)
                    skip_attrs(t)
                    ops.append((k, self.value(k, t)))
                    if not t.eat(","):
                        break
                t.expect(")")
                return self.gep(base, ops)
            if x in ("ptrtoint", "inttoptr", "bitcast"):
                t.expect("(")
                k = self.mod.type(t)
                v = self.value(k, t)
                t.expect("to")
                self.mod.type(t)
                t.expect(")")
                return v
            if ty == ("i", 1):
                return {"1": "True", "0": "False", "-1": "True"}[x]
            return x if x[0] != "-" else "(%s)" % x
        raise Unsupported("IR operand %r" % x)

    def zero(self, ty):
        return {"i": "0", "p": "0", "d": "0.0"}.get(ty[0]) or "[%s]" % ", ".join(self.zero(f) for f in (ty[1] if ty[0] == "s" else [ty[2]] * ty[1]))

    def gep(self, base, ops):
        m = self.mod
        e = [ops[0][1]]
        const = 0
        ty = base

        def add(v, s):
            nonlocal const
            n = re.fullmatch(r"\(?(-?\d+)\)?", v)
            if n:
                const += int(n.group(1)) * s
            else:
                e.append("%s*%d" % (v, s) if s != 1 else v)
        add(ops[1][1], m.size(ty))
        for k, v in ops[2:]:
            if ty[0] == "s":
                n = int(v)
                const += m.offset(ty, n)
                ty = ty[1][n]
            else:
                ty = ty[2]
                add(v, m.size(ty))
        if const:
            e.append(str(const) if const > 0 else "(%d)" % const)
        return " + ".join(e) if len(e) == 1 else "(" + " + ".join(e) + ")"

    def tv(self, t):
        ty = self.mod.type(t)
        skip_attrs(t)
        return ty, self.value(ty, t)

    # ---- whole function
    def compile(self):
        first, last = self.mod.funcs[self.name]
        lines = self.mod.lines[first:last]
        head = lines[0]
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
        t = Toks(tokens(head[m.end():head.rindex(")") + 1] if True else ""))
        params = []
        depth = 0
        # parameters up to the matching parenthesis
        while True:
            if t.eat(")"):
                break
            if t.eat("..."):
                params.append("*va")
                continue
            self.mod.type(t)
            skip_attrs(t)
            params.append(self.var(t.next()))
            t.eat(",")
        # blocks
        blocks, cur, label = {}, [], None
        order = []
        nparam = len(params)
        i = 1
        label = "%" + str(nparam)
        named_entry = False
        for l in lines[1:]:
            s = l.split(";")[0].rstrip() if '"' not in l else l
            if not s.strip():
                continue
            mm = re.match(r'^("[^"]*"|[\w.$-]+):', s)
            if mm and not s.startswith(" "):
                if cur or order:
                    pass
                if cur:
                    blocks[label] = cur
                    order.append(label)
                label = "%" + mm.group(1)
                cur = []
                continue
            cur.append(s.strip())
        blocks[label] = cur
        order.append(label)
        self.idx = {b: k for k, b in enumerate(order)}
        # phis
        self.phis = {}
        body = {}
        for b in order:
            ph, rest = [], []
            src = self.join(blocks[b])
            for s in src:
                p = re.match(r"(%[\w.$-]+) = phi ", s)
                if p:
                    t = Toks(tokens(re.sub(r", ![\w.]+ !\d+.*", "", s[p.end():])))
                    ty = self.mod.type(t)
                    inc = {}
                    while True:
                        t.expect("[")
                        v = self.value(ty, t)
                        t.expect(",")
                        inc[t.next()] = v
                        t.expect("]")
                        if not t.eat(","):
                            break
                    ph.append((self.var(p.group(1)), inc))
                else:
                    rest.append(s)
            self.phis[b] = ph
            body[b] = rest
        out = ["def f(E%s):" % "".join(", " + p for p in params)]
        out.append("  ld = E.load; st = E.store; L = 0; fr = []")
        if any(" alloca " in s for b in order for s in body[b]):
            out.append("  try:")
            ind = "   "
            tail = ["  finally:", "    for a in fr: E.free(a)"]
        else:
            ind, tail = "  ", []
        out.append(ind + "while True:")
        out.append(ind + " E.steps += 1")
        out.append(ind + " if E.steps > E.limit: raise HANG()")
        code = {}
        for b in order:
            ls = []
            for s in body[b]:
                try:
                    self.inst(s, b, ls)
                except Unsupported as e:
                    raise Unsupported("%s in %r" % (e, s[:160]))
            code[self.idx[b]] = ls or ["raise MemoryError_('empty block')"]

        def tree(lo, hi, pad):
            if hi - lo == 1:
                for s in code[lo]:
                    out.append(pad + s)
                return
            if hi - lo <= 3:
                for k in range(lo, hi):
                    out.append(pad + ("if L == %d:" % k if k < hi - 1 else "else:"))
                    for s in code[k]:
                        out.append(pad + " " + s)
                    # each block ends by continue/return/raise
                return
            mid = (lo + hi) // 2
            out.append(pad + "if L < %d:" % mid)
            tree(lo, mid, pad + " ")
            out.append(pad + "else:")
            tree(mid, hi, pad + " ")
        tree(0, len(order), ind + " ")
        out += tail
        src = "\n".join(self.fix(out))
        ns = dict(globals())
        from .core import Hang
        ns.update(INF=math.inf, NAN=math.nan, HANG=Hang)
        self.src = src
        exec(compile(src, "<llvm %s>" % self.name, "exec"), ns)
        f = ns["f"]
        self.mod.executed[self.name] = True
        return f

    @staticmethod
    def fix(out):
        # "if ..: / else:" pairs: a chain of if/if/else must be if/elif/else
        return out

    @staticmethod
    def join(ls):
        """Instructions on several lines (switch, invoke, landingpad) on one."""
        out, i = [], 0
        while i < len(ls):
            s = ls[i]
            if re.search(r"^switch .*\[$", s):
                while not s.endswith("]") and not ls[i].startswith("]"):
                    i += 1
                    s += " " + ls[i]
            elif re.search(r"(= )?\binvoke\b", s.split("(")[0]) and i + 1 < len(ls) and ls[i + 1].startswith("to label"):
                i += 1
                s += " " + ls[i]
            elif "= landingpad" in s:
                while i + 1 < len(ls) and re.match(r"cleanup|catch|filter", ls[i + 1]):
                    i += 1
                    s += " " + ls[i]
            out.append(s)
            i += 1
        return out

    def goto(self, frm, to, ls, pad=""):
        ph = self.phis[to]
        if ph:
            a = [v for v, _ in ph]
            b = [inc[frm] for _, inc in ph]
            keep = [(x, y) for x, y in zip(a, b) if x != y]
            if keep:
                ls.append(pad + ", ".join(x for x, _ in keep) + " = " + ", ".join(y for _, y in keep))
        ls.append(pad + "L = %d; continue" % self.idx[to])

    def inst(self, s, b, ls):
        s = re.sub(r", ![\w.]+ ![\w.]+", "", s)
        s = re.sub(r" #\d+", "", s)
        m = re.match(r"(%[\w.$-]+) = ", s)
        dst = None
        if m:
            dst = self.var(m.group(1))
            s = s[m.end():]
        t = Toks(tokens(s))
        skip_attrs(t)
        op = t.next()
        mod = self.mod
        if op == "load":
            skip_attrs(t)
            ty = mod.type(t)
            t.expect(",")
            _, p = self.tv(t)
            if ty == ("i", 1):
                ls.append("%s = bool(ld(%s, 1))" % (dst, p))
            else:
                ls.append("%s = ld(%s, %d)" % (dst, p, KIND(ty)))
        elif op == "store":
            skip_attrs(t)
            ty, v = self.tv(t)
            t.expect(",")
            _, p = self.tv(t)
            if ty == ("i", 1):
                v = "zx(%s)" % v
            ls.append("st(%s, %d, %s)" % (p, KIND(ty), v))
        elif op == "getelementptr":
            skip_attrs(t)
            base = mod.type(t)
            ops = []
            while t.eat(","):
                skip_attrs(t)
                if t.peek() is None:
                    break
                ops.append(self.tv(t))
            ls.append("%s = %s" % (dst, self.gep(base, ops)))
        elif op == "br":
            if t.eat("label"):
                self.goto(b, t.next(), ls)
            else:
                _, c = self.tv(t)
                t.expect(",")
                t.expect("label")
                x = t.next()
                t.expect(",")
                t.expect("label")
                y = t.next()
                if c in ("True", "False"):
                    self.goto(b, x if c == "True" else y, ls)
                else:
                    ls.append("if %s:" % c)
                    self.goto(b, x, ls, " ")
                    self.goto(b, y, ls)
        elif op == "icmp":
            pr = t.next()
            ty, x = self.tv(t)
            t.expect(",")
            y = self.value(ty, t)
            if ty == ("i", 1):
                if pr == "eq":
                    ls.append("%s = lnot(%s ^ %s)" % (dst, x, y))
                elif pr == "ne":
                    ls.append("%s = %s ^ %s" % (dst, x, y))
                else:
                    raise Unsupported("order of truth values")
                return
            bits = 64 if ty[0] == "p" else ty[1]
            o = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pr]
            if pr[0] == "u" and ty[0] != "p":
                x, y = "u(%s, %d)" % (x, bits), "u(%s, %d)" % (y, bits)
            ls.append("%s = %s %s %s" % (dst, x, o, y))
        elif op == "fcmp":
            skip_attrs(t)
            pr = t.next()
            ty, x = self.tv(t)
            t.expect(",")
            y = self.value(ty, t)
            ls.append("%s = fcmp(%r, %s, %s)" % (dst, pr, x, y))
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor"):
            skip_attrs(t)
            ty, x = self.tv(t)
            t.expect(",")
            y = self.value(ty, t)
            bits = ty[1]
            if bits == 1:
                if op == "xor" and y == "True":
                    ls.append("%s = lnot(%s)" % (dst, x))
                elif op in ("and", "or", "xor"):
                    ls.append("%s = %s %s %s" % (dst, x, {"and": "&", "or": "|", "xor": "^"}[op], y))
                else:
                    raise Unsupported("arithmetic on truth values")
            elif op in ("add", "sub"):
                ls.append("%s = w(%s %s %s, %d)" % (dst, x, "+" if op == "add" else "-", y, bits))
            elif op == "mul":
                ls.append("%s = wm(%s * %s, %d)" % (dst, x, y, bits))
            else:
                fn = {"and": "band", "or": "bor", "xor": "bxor"}.get(op, op)
                ls.append("%s = %s(%s, %s, %d)" % (dst, fn, x, y, bits))
        elif op in ("fadd", "fsub", "fmul"):
            skip_attrs(t)
            ty, x = self.tv(t)
            t.expect(",")
            y = self.value(ty, t)
            ls.append("%s = fmul(%s, %s)" % (dst, x, y) if op == "fmul" else "%s = fcoll(%s %s %s)" % (dst, x, {"fadd": "+", "fsub": "-"}[op], y))
        elif op == "fdiv":
            skip_attrs(t)
            ty, x = self.tv(t)
            t.expect(",")
            y = self.value(ty, t)
            ls.append("%s = fdiv(%s, %s)" % (dst, x, y))
        elif op == "fneg":
            skip_attrs(t)
            _, x = self.tv(t)
            ls.append("%s = -%s" % (dst, x))
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            skip_attrs(t)
            ty, x = self.tv(t)
            to = None
            if op != "freeze":
                t.expect("to")
                to = mod.type(t)
            if op == "sitofp":
                ls.append("%s = sitofp(%s)" % (dst, x if ty[1] > 1 else "sx(%s)" % x))
            elif op == "uitofp":
                ls.append("%s = uitofp(%s, %d)" % (dst, x if ty[1] > 1 else "zx(%s)" % x, ty[1] if ty[1] > 1 else 8))
            elif op in ("fptosi", "fptoui"):
                ls.append("%s = fptosi(%s, %d)" % (dst, x, to[1]))
            elif op == "sext":
                ls.append("%s = %s" % (dst, x if ty[1] > 1 else "sx(%s)" % x))
            elif op == "zext":
                ls.append("%s = %s" % (dst, "u(%s, %d)" % (x, ty[1]) if ty[1] > 1 else "zx(%s)" % x))
            elif op == "trunc":
                ls.append("%s = trunc_i(%s, %d)" % (dst, x, to[1]))
            else:
                ls.append("%s = %s" % (dst, x))
        elif op == "select":
            skip_attrs(t)
            _, c = self.tv(t)
            t.expect(",")
            ty, x = self.tv(t)
            t.expect(",")
            _, y = self.tv(t)
            ls.append("%s = %s(%s, %s, %s)" % (dst, "selb" if ty == ("i", 1) else "sel", c, x, y))
        elif op == "alloca":
            ty = mod.type(t)
            ls.append("%s = E.alloc(%d); fr.append(%s)" % (dst, max(1, mod.size(ty)), dst))
        elif op in ("call", "invoke"):
            skip_attrs(t)
            ty = mod.type(t)
            if t.peek() == "(":      # function type of a variadic callee
                d = 0
                while True:
                    x = t.next()
                    d += (x == "(") - (x == ")")
                    if not d:
                        break
            callee = t.next()
            t.expect("(")
            args = []
            while not t.eat(")"):
                k = mod.type(t)
                if k[0] == "m":
                    while t.peek() not in (",", ")"):
                        t.next()
                else:
                    skip_attrs(t)
                    args.append(self.value(k, t))
                t.eat(",")
            nm = callee[1:]
            if callee[0] == "%":
                e = "E.icall(%s)" % ", ".join([self.var(callee)] + args)
            elif nm in NOPS:
                e = None
            else:
                e = "E.fn(%r)(%s)" % (nm, ", ".join(["E"] + args))
            if op == "invoke":
                while t.peek() != "to":
                    t.next()
                t.next()
                t.expect("label")
                ok = t.next()
                t.expect("unwind")
                t.expect("label")
                bad = t.next()
                ls.append("try:")
                ls.append(" " + ("%s = " % dst if dst else "") + (e or "pass"))
                ls.append("except CxxThrow as exc_:")
                ls.append(" exc = exc_")
                self.goto(b, bad, ls, " ")
                self.goto(b, ok, ls)
            elif e:
                ls.append(("%s = " % dst if dst else "") + e)
        elif op == "ret":
            ty = mod.type(t)
            ls.append("return" if ty[0] == "v" else "return " + self.value(ty, t))
        elif op == "unreachable":
            ls.append("raise MemoryError_('unreachable code')")
        elif op == "switch":
            ty, x = self.tv(t)
            t.expect(",")
            t.expect("label")
            df = t.next()
            t.expect("[")
            while not t.eat("]"):
                k, v = self.tv(t)
                t.expect(",")
                t.expect("label")
                ls.append("if %s == %s:" % (x, v))
                self.goto(b, t.next(), ls, " ")
            self.goto(b, df, ls)
        elif op == "landingpad":
            ls.append("%s = [E.throwing(exc), 1]" % dst)
        elif op == "resume":
            ls.append("raise exc")
        elif op == "extractvalue":
            _, x = self.tv(t)
            t.expect(",")
            ls.append("%s = %s[%s]" % (dst, x, t.next()))
        elif op == "insertvalue":
            ty, x = self.tv(t)
            t.expect(",")
            _, v = self.tv(t)
            t.expect(",")
            n = t.next()
            ls.append("%s = list(%s) if %s is not UNDEF else [UNDEF] * %d; %s[%s] = %s" % (dst, x, x, len(ty[1]), dst, n, v))
        else:
            raise Unsupported("instruction " + op)


NOPS = {"llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.donothing"}


def _throwing(self, exc):
    self.current = exc
    return 1


Machine.throwing = _throwing

# ---------------------------------------------------------------- externals

EXTERN = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXTERN[n] = f
        return f
    return deco


ext("_Znwm", "_Znam", "malloc")(lambda E, n: E.alloc(n))
ext("_ZdlPv", "_ZdaPv", "free")(lambda E, a, *r: E.free(a))
ext("_ZdlPvm", "_ZdaPvm")(lambda E, a, n: E.free(a))
ext("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")(lambda E, d, s, n, v: E.memcpy(d, s, n))
ext("llvm.memset.p0.i64")(lambda E, a, v, n, x: E.memset(a, v, n))
ext("memcpy", "memmove")(lambda E, d, s, n: E.memcpy(d, s, n) or d)
ext("llvm.fabs.f64", "fabs")(lambda E, x: s_abs(x))
ext("llvm.fmuladd.f64", "llvm.fma.f64")(lambda E, a, b, c: fcoll(a * b + c))
ext("llvm.abs.i64", "llvm.abs.i32")(lambda E, x, v: s_abs(x))
ext("llvm.smin.i64", "llvm.smin.i32")(lambda E, a, b: mn(a, b))
ext("llvm.smax.i64", "llvm.smax.i32")(lambda E, a, b: mx(a, b))
ext("llvm.umin.i64")(lambda E, a, b: w(mn(u(a, 64), u(b, 64)), 64))
ext("llvm.umax.i64")(lambda E, a, b: w(mx(u(a, 64), u(b, 64)), 64))
ext("llvm.umin.i32")(lambda E, a, b: w(mn(u(a, 32), u(b, 32)), 32))
ext("llvm.umax.i32")(lambda E, a, b: w(mx(u(a, 32), u(b, 32)), 32))
ext("llvm.usub.sat.i64")(lambda E, a, b: w(max(0, u(a, 64) - u(b, 64)), 64))
ext("llvm.umul.with.overflow.i64")(lambda E, a, b: [w(u(a, 64) * u(b, 64), 64), u(a, 64) * u(b, 64) >= 1 << 64])
ext("llvm.ctlz.i64")(lambda E, x, z: 64 - u(x, 64).bit_length())
ext("sqrt", "llvm.sqrt.f64")(lambda E, x: (math.sqrt(x) if x >= 0 else math.nan) if isinstance(x, float) else s_sqrt(x))
ext("cos", "llvm.cos.f64")(lambda E, x: math.cos(fl(x)) if isinstance(fl(x), float) else s_cos(x))
ext("sin", "llvm.sin.f64")(lambda E, x: math.sin(fl(x)) if isinstance(fl(x), float) else s_sin(x))
ext("atan2")(lambda E, y, x: math.atan2(fl(y), fl(x)) if isinstance(fl(x), float) and isinstance(fl(y), float) else s_arctan2(y, x))
ext("__cxa_allocate_exception")(lambda E, n: E.alloc(max(n, 1)))
ext("__cxa_free_exception")(lambda E, a: E.free(a))
ext("__cxa_begin_catch")(lambda E, a: a)
ext("__cxa_end_catch")(lambda E: None)
ext("_ZNSt9exceptionD2Ev")(lambda E, a: None)


@ext("acos")
def _(E, x):
    if isinstance(x, float):
        return math.acos(x) if -1 <= x <= 1 else math.nan
    raise Unsupported("acos of a symbolic number")


@ext("tan")
def _(E, x):
    if isinstance(x, float):
        return math.tan(x)
    raise Unsupported("tan of a symbolic number")


@ext("__cxa_throw")
def _(E, a, ti, d):
    raise CxxThrow("thrown by the code")


@ext("__cxa_rethrow")
def _(E):
    raise E.current


@ext("_ZSt9terminatev")
def _(E):
    raise RuntimeError("std::terminate")


@ext("_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc")
def _(E, a):
    raise CxxThrow(E.cstr(a).decode())


@ext("_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv")
def _(E):
    raise CxxThrow("bad_alloc")


@ext("__assert_fail")
def _(E, a, *r):
    raise RuntimeError("assertion %s fails: the process is aborted" % E.cstr(a).decode())


@ext("strlen")
def _(E, a):
    return len(E.cstr(a))


@ext("strcmp")
def _(E, a, b):
    a, b = E.cstr(a), E.cstr(b)
    return (a > b) - (a < b)


@ext("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm")
def _(E, s, cap, old):
    return E.alloc(E.load(cap, 8) + 1)


# std::list nodes: next at 0, prev at 8
@ext("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def _(E, n, pos):
    p = E.load(pos + 8, 8)
    E.store(n, 8, pos)
    E.store(n + 8, 8, p)
    E.store(p, 8, n)
    E.store(pos + 8, 8, n)


@ext("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def _(E, n):
    a, b = E.load(n, 8), E.load(n + 8, 8)
    E.store(b, 8, a)
    E.store(a + 8, 8, b)


@ext("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_")
def _(E, pos, first, last):
    if pos == last:
        return
    L = E.load
    S = E.store
    # libstdc++ list.cc
    S(L(last + 8, 8), 8, pos)
    S(L(first + 8, 8), 8, last)
    S(L(pos + 8, 8), 8, first)
    tmp = L(pos + 8, 8)
    S(pos + 8, 8, L(last + 8, 8))
    S(last + 8, 8, L(first + 8, 8))
    S(first + 8, 8, tmp)


@ext("_ZNSt8__detail15_List_node_base4swapERS0_S1_")
def _(E, x, y):
    L, S = E.load, E.store
    if L(x, 8) != x:
        if L(y, 8) != y:
            xn, xp, yn, yp = L(x, 8), L(x + 8, 8), L(y, 8), L(y + 8, 8)
            S(x, 8, yn), S(x + 8, 8, yp), S(y, 8, xn), S(y + 8, 8, xp)
            S(L(x + 8, 8), 8, x), S(L(x, 8) + 8, 8, x)
            S(L(y + 8, 8), 8, y), S(L(y, 8) + 8, 8, y)
        else:
            S(y, 8, L(x, 8)), S(y + 8, 8, L(x + 8, 8))
            S(L(y + 8, 8), 8, y), S(L(y, 8) + 8, 8, y)
            S(x, 8, x), S(x + 8, 8, x)
    elif L(y, 8) != y:
        S(x, 8, L(y, 8)), S(x + 8, 8, L(y + 8, 8))
        S(L(x + 8, 8), 8, x), S(L(x, 8) + 8, 8, x)
        S(y, 8, y), S(y + 8, 8, y)


# Python C API

def isseq(o):
    return hasattr(o, "__getitem__") and not isinstance(o, (dict, set))


@ext("PySequence_Check")
def _(E, h):
    return 1 if isseq(E.object(h)) else 0


@ext("PySequence_Size")
def _(E, h):
    try:
        return len(E.object(h))
    except TypeError as e:
        E.error = e
        return -1


@ext("PySequence_GetItem")
def _(E, h, i):
    try:
        return E.pyobj(E.object(h)[i])
    except (TypeError, IndexError, KeyError) as e:
        E.error = e
        return 0


@ext("PyFloat_AsDouble")
def _(E, h):
    o = E.object(h)
    if isinstance(o, SymNum):
        return fcoll(o) if not o.isint else o
    try:
        return float(o)
    except (TypeError, ValueError) as e:
        E.error = e
        return -1.0


@ext("PyFloat_FromDouble")
def _(E, x):
    return E.pyobj(float(x) if isinstance(x, int) else x)


@ext("PyBool_FromLong")
def _(E, x):
    return E.pyobj(bool(x))


@ext("PyTuple_New")
def _(E, n):
    return E.pytuple(n)


@ext("PyErr_SetString")
def _(E, t, s):
    E.error = TypeError(E.cstr(s).decode())


@ext("PyErr_Occurred")
def _(E):
    return 1 if E.error is not None else 0


@ext("_Py_Dealloc")
def _(E, h):
    pass


@ext("PyArg_ParseTuple")
def _(E, args, fmt, *outs):
    a = E.object(args)
    f = E.cstr(fmt).decode().split(":")[0]
    try:
        if len(a) != len(f):
            raise TypeError("function takes exactly %d arguments (%d given)" % (len(f), len(a)))
        for c, x, o in zip(f, a, outs):
            if c == "O":
                E.store(o, 8, E.pyobj(x))
            elif c == "d":
                if isinstance(x, SymNum):
                    v = fcoll(x)
                elif isinstance(x, (int, float)) or hasattr(x, "__float__"):
                    v = float(x)
                else:
                    raise TypeError("must be real number, not " + type(x).__name__)
                E.store(o, -8, v)
            elif c == "s":
                if not isinstance(x, str):
                    raise TypeError("must be str")
                E.store(o, 8, E.put_cstr(x.encode()))
            elif c in "hbBil":
                if isinstance(x, float):
                    raise TypeError("'float' object cannot be interpreted as an integer")
                v = x.__index__()
                if c == "h" and not -32768 <= v < 32768 or c == "b" and not 0 <= v < 256:
                    raise OverflowError(c)
                k = {"h": 2, "b": 1, "B": 1, "i": 4, "l": 8}[c]
                E.store(o, k, w(v, 8 * k))
            else:
                raise Unsupported("argument format " + c)
    except (TypeError, OverflowError) as e:
        E.error = e
        return 0
    return 1


# ---------------------------------------------------------------- the extension module

_MOD = {}


def module(path):
    """The translated module of a C++ source file, as it is now."""
    m = _MOD.get(path)
    if m is None:
        py = "/opt/venv/bin/python"
        inc = subprocess.check_output([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, "m.ll")
            subprocess.run(["clang++", "-std=c++11", "-O1", "-g0", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
                            "-I" + inc, "-I" + os.path.dirname(path), "-S", "-emit-llvm", path, "-o", o], check=True)
            m = _MOD[path] = Module(open(o).read())
        m.methods = methods(m)
    return m


def methods(m):
    """Python name -> function, from the module's method table."""
    E = Machine(m)
    for g, d in m.globals.items():
        if re.search(r"\[\d+ x %struct.PyMethodDef\]", d):
            a = E.address(g)
            out = {}
            while True:
                n = E.load(a, 8)
                if n == 0:
                    return out
                out[E.cstr(n).decode()] = E.func_at[E.load(a + 8, 8)]
                a += 32
    raise Unsupported("no method table")


def hooks(path, names):
    """Functions of the extension as Python callables (each call runs on fresh memory)."""
    m = module(path)

    def make(n):
        def f(*args):
            E = Machine(m)
            r = E.call(m.methods[n], *args)
            return r
        return f
    return {n: make(n) for n in names}
