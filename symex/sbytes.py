"""Symbolic byte strings and texts, and the struct stand-in."""
from __future__ import annotations
import re
import struct as _struct
from fractions import Fraction

from . import core
from .core import SymNum, SymBool, Unsupported, sand, ONE


class Piece:
    """k-th byte (big endian) of an n-byte field holding `val`."""
    __slots__ = ("kind", "val", "n", "k", "signed")

    def __init__(self, kind, val, n, k, signed):
        self.kind, self.val, self.n, self.k, self.signed = kind, val, n, k, signed

    def same(self, o):
        return isinstance(o, Piece) and self.kind == o.kind and self.val is o.val and self.n == o.n and self.k == o.k and self.signed == o.signed

    def num(self):
        """Numeric value of this byte."""
        if self.kind != "int":
            raise Unsupported("byte of an encoded real")
        if self.k == 0 and not self.signed:
            return self.val // (1 << (8 * (self.n - 1)))
        return (self.val // (1 << (8 * (self.n - 1 - self.k)))) % 256


def bnum(b):
    return b.num() if isinstance(b, Piece) else b


class SymBytes:
    def __init__(self, items=()):
        self.items = items if isinstance(items, list) else list(items)

    @staticmethod
    def of(x):
        if isinstance(x, SymBytes):
            return x
        return SymBytes(list(bytes(x)))

    @staticmethod
    def concat(xs):
        out = []
        for x in xs:
            out.extend(SymBytes.of(x).items)
        return SymBytes(out)

    @staticmethod
    def from_int(v, n, signed, big=True):
        if isinstance(v, SymBool):
            v = int(bool(v))
        if not isinstance(v, SymNum):
            v = int(v)
            m = v % (1 << (8 * n))
            return SymBytes(list(m.to_bytes(n, "big" if big else "little")))
        lo = -(1 << (8 * n - 1)) if signed else 0
        hi = (1 << (8 * n - 1)) if signed else (1 << (8 * n))
        if not bool(sand(v >= lo, v < hi)):
            core.ENGINE.note("integer field overflow")
            raise OverflowError("integer does not fit the field")
        c = v.const()
        if c is not None:
            return SymBytes.from_int(int(c), n, signed, big)
        if n == 1 and not signed:
            return SymBytes([v])
        it = [Piece("int", v, n, k, signed) for k in range(n)]
        return SymBytes(it if big else it[::-1])

    @staticmethod
    def from_real(v):
        return SymBytes([Piece("real", v, 8, k, True) for k in range(8)])

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __getitem__(self, k):
        from .nshim import fixindex
        k = fixindex(k)
        if isinstance(k, slice):
            return SymBytes(self.items[k])
        return bnum(self.items[k])

    def __iter__(self):
        return (bnum(b) for b in self.items)

    def __add__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return NotImplemented
        return SymBytes(self.items + SymBytes.of(o).items)

    def __radd__(self, o):
        return SymBytes(SymBytes.of(o).items + self.items)

    def __mul__(self, n):
        return SymBytes(self.items * (n.__index__()))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return False
        o = SymBytes.of(o)
        if len(o) != len(self):
            return False
        r = True
        for a, b in zip(self.items, o.items):
            if isinstance(a, Piece) and a.same(b):
                continue
            if isinstance(a, Piece) and isinstance(b, Piece) and a.kind == b.kind == "real" and a.k == b.k:
                r = sand(r, a.val == b.val)
            else:
                r = sand(r, bnum(a) == bnum(b))
            if r is False:
                return False
        return r

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def _lt(self, o, strict):
        o = SymBytes.of(o)
        for a, b in zip(self.items, o.items):
            if isinstance(a, Piece) and a.same(b):
                continue
            x, y = bnum(a), bnum(b)
            if bool(x == y):
                continue
            return bool(x < y)
        return len(self) < len(o) if strict else len(self) <= len(o)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return SymBytes.of(o)._lt(self, True)

    def __ge__(self, o):
        return SymBytes.of(o)._lt(self, False)

    def __hash__(self):
        if self.concrete():
            return hash(bytes(self.items))
        return 0xB17E5

    def concrete(self):
        return all(isinstance(b, int) for b in self.items)

    def __bytes__(self):
        if self.concrete():
            return bytes(self.items)
        raise Unsupported("bytes() of symbolic bytes")

    def __repr__(self):
        return "<SymBytes %d>" % len(self.items)

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i and self.items:
                out.extend(self.items)
            out.extend(SymBytes.of(x).items)
        return SymBytes(out)

    def to_int(self, signed, big=True):
        it = self.items if big else self.items[::-1]
        n = len(it)
        p = it[0]
        if isinstance(p, Piece) and p.kind == "int" and p.n == n and p.k == 0 and all(
                isinstance(q, Piece) and q.val is p.val and q.n == n and q.k == i for i, q in enumerate(it)):
            if p.signed == signed:
                return p.val
            v = p.val
            if p.signed:     # stored signed, read unsigned
                return v % (1 << (8 * n))
            return v if bool(v < (1 << (8 * n - 1))) else v - (1 << (8 * n))
        t = 0
        for q in it:
            t = t * 256 + bnum(q)
        if isinstance(t, SymNum):
            if signed:
                return t if bool(t < (1 << (8 * n - 1))) else t - (1 << (8 * n))
            return t
        if signed and t >= 1 << (8 * n - 1):
            t -= 1 << (8 * n)
        return t

    def decode(self, encoding="utf-8", errors="strict"):
        if self.concrete():
            return bytes(self.items).decode(encoding, errors)
        out = []
        for b in self.items:
            v = bnum(b)
            if isinstance(v, SymNum):
                if not bool(v < 128):
                    if encoding.lower().replace("-", "") in ("latin1", "iso88591"):
                        pass
                    else:
                        raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
            elif v >= 128:
                raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
            out.append(v)
        return SymStr.of(out)

    def rstrip(self, chars=b" \t\n\r\x0b\x0c"):
        chars = list(bytes(chars if not isinstance(chars, SymBytes) else chars.__bytes__()))
        it = list(self.items)
        while it and bool(core.sor(*[bnum(it[-1]) == c for c in chars])):
            it.pop()
        return SymBytes(it)

    def lstrip(self, chars=b" \t\n\r\x0b\x0c"):
        chars = list(bytes(chars if not isinstance(chars, SymBytes) else chars.__bytes__()))
        it = list(self.items)
        while it and bool(core.sor(*[bnum(it[0]) == c for c in chars])):
            it.pop(0)
        return SymBytes(it)

    def strip(self, *a):
        return self.rstrip(*a).lstrip(*a)

    def endswith(self, s):
        s = SymBytes.of(s)
        return len(self) >= len(s) and bool(self[len(self) - len(s):] == s)

    def startswith(self, s):
        s = SymBytes.of(s)
        return len(self) >= len(s) and bool(self[:len(s)] == s)

    def find(self, s, start=0, end=None):
        s = SymBytes.of(s)
        end = len(self) if end is None else min(end, len(self))
        for i in range(start, end - len(s) + 1):
            if bool(self[i:i + len(s)] == s):
                return i
        return -1

    def index(self, s, *a):
        r = self.find(s, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def __contains__(self, s):
        if isinstance(s, (int, SymNum)):
            return bool(core.sor(*[bnum(b) == s for b in self.items]))
        return self.find(s) >= 0

    def __deepcopy__(self, memo):
        return self


class SymStr(str):
    """A text whose length is known and whose characters may be symbolic code points."""

    @staticmethod
    def of(codes):
        """codes: ints or SymNum; returns str when concrete."""
        if all(isinstance(c, int) for c in codes):
            return "".join(chr(c) for c in codes)
        e = core.ENGINE
        tok = e.token(None, "str")
        r = str.__new__(SymStr, tok)
        r.codes = list(codes)
        e.tokens[-1] = (r, "str")
        return r

    def raw(self):
        return str.__str__(self)

    def __len__(self):
        return len(self.codes)

    def __bool__(self):
        return bool(self.codes)

    def __getitem__(self, k):
        from .nshim import fixindex
        k = fixindex(k)
        if isinstance(k, slice):
            return SymStr.of(self.codes[k])
        return SymStr.of([self.codes[k]])

    def __iter__(self):
        return iter([SymStr.of([c]) for c in self.codes])

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        c = codes(o)
        if len(c) != len(self.codes):
            return False
        return sand(*[a == b for a, b in zip(self.codes, c)])

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return core.ENGINE.strhash(self)

    def __lt__(self, o):
        return SymBytesLike(self) < SymBytesLike(o)

    def __gt__(self, o):
        return SymBytesLike(o) < SymBytesLike(self)

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr.of(self.codes + codes(o))

    def __radd__(self, o):
        return SymStr.of(codes(o) + self.codes)

    def __mul__(self, n):
        return SymStr.of(self.codes * n)

    def __contains__(self, s):
        c = codes(s)
        for i in range(len(self.codes) - len(c) + 1):
            if bool(sand(*[a == b for a, b in zip(self.codes[i:], c)])):
                return True
        return False

    def __str__(self):
        return self

    def __format__(self, spec):
        return self.raw()

    def __repr__(self):
        return "<SymStr %d>" % len(self.codes)

    def encode(self, encoding="utf-8", errors="strict"):
        out = []
        for c in self.codes:
            if isinstance(c, SymNum):
                if not bool(c < 128):
                    raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
            elif c >= 128:
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
            out.append(c)
        return SymBytes(out)

    def startswith(self, s, *a):
        c = codes(s)
        return len(c) <= len(self.codes) and bool(sand(*[x == y for x, y in zip(self.codes, c)]))

    def endswith(self, s, *a):
        c = codes(s)
        return len(c) <= len(self.codes) and bool(sand(*[x == y for x, y in zip(self.codes[len(self.codes) - len(c):], c)]))

    def translate(self, table):
        """Forks over the keys of the table."""
        out = []
        for c in self.codes:
            for k, v in table.items():
                if bool(c == k):
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else codes(v))
                    break
            else:
                out.append(c)
        return SymStr.of(out)

    def replace(self, a, b, count=-1):
        ca, cb = codes(a), codes(b)
        if not ca:
            raise Unsupported("replace of empty text")
        out = []
        i = 0
        n = 0
        while i < len(self.codes):
            if i + len(ca) <= len(self.codes) and (count < 0 or n < count) and bool(sand(*[x == y for x, y in zip(self.codes[i:], ca)])):
                out.extend(cb)
                i += len(ca)
                n += 1
            else:
                out.append(self.codes[i])
                i += 1
        return SymStr.of(out)

    def _strip(self, chars, left, right):
        cs = codes(chars) if chars is not None else [32, 9, 10, 13, 11, 12]
        it = list(self.codes)
        if right:
            while it and bool(core.sor(*[it[-1] == c for c in cs])):
                it.pop()
        if left:
            while it and bool(core.sor(*[it[0] == c for c in cs])):
                it.pop(0)
        return SymStr.of(it)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _unsup(name):
    def f(self, *a, **k):
        raise Unsupported("str." + name)
    return f


for _n in ("lower", "upper", "split", "splitlines", "title", "find", "index", "count", "partition", "join",
           "isalnum", "isdigit", "isidentifier", "format", "ljust", "rjust", "center", "zfill", "expandtabs", "rfind",
           "isspace", "isascii", "isalpha", "isprintable", "isnumeric", "isupper", "islower", "casefold", "swapcase",
           "rsplit", "rindex", "rpartition", "removeprefix", "removesuffix", "capitalize", "__mod__"):
    setattr(SymStr, _n, _unsup(_n))


class SymBytesLike:
    def __init__(self, s):
        self.c = codes(s)

    def __lt__(self, o):
        for a, b in zip(self.c, o.c):
            if bool(a == b):
                continue
            return bool(a < b)
        return len(self.c) < len(o.c)


_TOK = re.compile("\ue000(\\d+)\ue001")


def codes(s):
    """Code points of a str; expands tokens of symbolic texts."""
    if isinstance(s, SymStr):
        return list(s.codes)
    if "\ue000" not in s:
        return [ord(c) for c in s]
    out = []
    pos = 0
    for m in _TOK.finditer(s):
        out.extend(ord(c) for c in s[pos:m.start()])
        v, spec = core.ENGINE.tokens[int(m.group(1))]
        if isinstance(v, SymStr):
            out.extend(v.codes)
        else:
            out.extend(ord(c) for c in m.group(0))
        pos = m.end()
    out.extend(ord(c) for c in s[pos:])
    return out


def detoken(s):
    """A str that may contain tokens of symbolic texts -> str/SymStr with the texts inlined."""
    return SymStr.of(codes(s))


_FMT = re.compile(r"(\d*)([a-zA-Z?])")
_SZ = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
       "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


class StructShim:
    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def _fields(fmt):
        if isinstance(fmt, (bytes, SymBytes)):
            fmt = bytes(fmt).decode()
        fmt = fmt.replace(" ", "")
        if fmt[0] not in "><=!@":
            raise Unsupported("native struct format")
        big = fmt[0] in ">!"
        out = []
        for n, c in _FMT.findall(fmt[1:]):
            if c == "s":
                out.append(("s", int(n or 1)))
            elif c == "x":
                out.append(("x", int(n or 1)))
            else:
                out.extend([(c, 1)] * int(n or 1))
        return big, out

    def pack(self, fmt, *args):
        big, fs = self._fields(fmt)
        out = []
        args = list(args)
        need = sum(1 for c, n in fs if c != "x")
        if need != len(args):
            raise _struct.error("pack expected %d items for packing (got %d)" % (need, len(args)))
        for c, n in fs:
            if c == "x":
                out.extend([0] * n)
                continue
            v = args.pop(0)
            if c == "s":
                it = SymBytes.of(v).items[:n]
                out.extend(it + [0] * (n - len(it)))
            elif c in _SZ:
                sz, signed = _SZ[c]
                if isinstance(v, SymNum):
                    if not v.isint:
                        raise _struct.error("required argument is not an integer")
                    try:
                        out.extend(SymBytes.from_int(v, sz, signed, big).items)
                    except OverflowError as e:
                        raise _struct.error(str(e))
                elif isinstance(v, SymBool):
                    out.extend(SymBytes.from_int(int(v), sz, signed, big).items)
                else:
                    out.extend(_struct.pack((">" if big else "<") + c, v))
            elif c in "df":
                if isinstance(v, SymNum):
                    raise Unsupported("IEEE float field")
                out.extend(_struct.pack((">" if big else "<") + c, v))
            else:
                raise Unsupported("struct code " + c)
        return SymBytes(out)

    def unpack(self, fmt, data):
        big, fs = self._fields(fmt)
        data = SymBytes.of(data)
        total = sum(n if c in "sx" else (_SZ[c][0] if c in _SZ else _struct.calcsize(c)) for c, n in fs)
        if total != len(data):
            raise _struct.error("unpack requires a buffer of %d bytes" % total)
        return self._unpack(big, fs, data, 0)

    def unpack_from(self, fmt, data, offset=0):
        big, fs = self._fields(fmt)
        data = SymBytes.of(data)
        total = sum(n if c in "sx" else _SZ[c][0] for c, n in fs)
        if len(data) - offset < total:
            raise _struct.error("unpack_from requires a buffer of at least %d bytes" % total)
        return self._unpack(big, fs, data, offset)

    def _unpack(self, big, fs, data, pos):
        out = []
        for c, n in fs:
            if c == "x":
                pos += n
            elif c == "s":
                out.append(data[pos:pos + n])
                pos += n
            elif c in _SZ:
                sz, signed = _SZ[c]
                out.append(data[pos:pos + sz].to_int(signed, big))
                pos += sz
            else:
                raise Unsupported("struct code " + c)
        return tuple(out)

    def iter_unpack(self, fmt, data):
        n = _struct.calcsize(fmt)
        for i in range(0, len(data), n):
            yield self.unpack(fmt, data[i:i + n])


class SymFile:
    """In-memory binary file."""
    disk = False

    def __init__(self, data=()):
        self.items = list(SymBytes.of(data).items) if not isinstance(data, tuple) else []
        self.pos = 0
        self.closed = False

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        b = SymBytes.of(b).items
        if self.pos > len(self.items):
            self.items.extend([0] * (self.pos - len(self.items)))
        self.items[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if n is None:
            n = -1
        n = n.__index__()
        if n < -1 and self.disk:
            raise ValueError("read length must be non-negative or -1")
        if n < 0:
            r = self.items[self.pos:]
        else:
            r = self.items[self.pos:self.pos + n]
        self.pos += len(r)
        return SymBytes(r)

    def seek(self, off, whence=0):
        off = off.__index__()
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.items) + off)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def getvalue(self):
        return SymBytes(list(self.items))

    def truncate(self, n=None):
        self.items = self.items[:self.pos if n is None else n]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymTextFile:
    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, s):
        if isinstance(s, SymStr):
            s = s.raw()
        self.parts.append(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def getvalue(self):
        return "".join(self.parts)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
