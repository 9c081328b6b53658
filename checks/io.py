"""Helpers for the GDSII checks."""
from fractions import Fraction

UNITS = {"um/nm": (1e-6, 1e-9), "1:128": (1.0, 1.0 / 128), "same": (1e-9, 1e-9)}


def cell(cx, name):
    return cx.gds.Cell(name, exclude_from_current=True)


def library(cx, units="um/nm", name="LIB"):
    u, p = UNITS[units]
    return cx.gds.GdsLibrary(name, unit=u, precision=p)


def written(cx, lib, **kw):
    f = cx.bfile()
    lib.write_gds(f, **kw)
    f.seek(0)
    return f


def reread(cx, lib, **kw):
    return cx.gds.GdsLibrary("IN", infile=written(cx, lib), **kw)


def ongrid(cx, got, want, grid, msg, tol=1e-6, slack=0):
    """got is a multiple of grid nearest to want (or to a value within slack of it)."""
    k = got / grid
    if cx.symbolic:
        r = cx.core.s_round(k)
        cx.eq(k, r, msg + " is a multiple of the precision", tol)
        d = k - want / grid
        cx.le(d, 0.5 + slack / grid, msg + " is the nearest multiple", tol)
        cx.le(-d, 0.5 + slack / grid, msg + " is the nearest multiple", tol)
    else:
        cx.check(abs(k - round(k)) < 1e-4, "%s is a multiple of the precision: %r for %r" % (msg, got, want))
        cx.check(abs(k - want / grid) <= 0.5 + slack / grid + 1e-5, "%s is the nearest multiple: %r for %r" % (msg, got, want))


def ongrid_pts(cx, A, B, grid, msg, joint=0):
    cx.check(len(A) == len(B), "%s: %d vertices instead of %d" % (msg, len(A), len(B)))
    for i, (a, b) in enumerate(zip(A, B)):
        for k in (0, 1):
            ongrid(cx, a[k], b[k], grid, "%s: vertex %d coordinate %d" % (msg, i, k), slack=joint if 0 < i < len(A) - 1 else 0)


def eqprops(cx, got, want, msg):
    got = list(got.items())
    want = list(want.items()) if isinstance(want, dict) else list(want)
    cx.check(len(got) == len(want), "%s: %d properties instead of %d" % (msg, len(got), len(want)))
    for (a, v) in want:
        hit = [w for b, w in got if cx.cond(a == b)]
        cx.check(len(hit) == 1, "%s: attribute missing" % msg)
        cx.eq(hit[0], v, "%s: value" % msg)


# ------------------------------------------------------------------ streams written by hand

class Stream:
    """A GDSII stream built record by record (independently of gdspy)."""

    def __init__(self, cx, db_user=1e-3, db_m=1e-9, name=b"LIB\0", date=(2020, 1, 2, 3, 4, 5)):
        self.cx, self.parts = cx, []
        self.date = date
        self.h(0x00, 600)
        self.h(0x01, *(date * 2))
        self.s(0x02, name)
        self.r(0x03, db_user, db_m)

    def rec(self, t, d, data=b""):
        self.parts.append(self.cx.pack(">HBB", len(data) + 4, t, d) + data)
        return self

    def h(self, t, *v):
        return self.rec(t, 2, self.cx.pack(">%dh" % len(v), *v))

    def l(self, t, *v):
        return self.rec(t, 3, self.cx.pack(">%dl" % len(v), *v))

    def r(self, t, *v):
        d = b""
        for x in v:
            d = d + self.cx.real8(x)
        return self.rec(t, 5, d)

    def s(self, t, text):
        return self.rec(t, 6, text)

    def flags(self, t, v):
        return self.rec(t, 1, self.cx.pack(">H", v))

    def begin(self, name):
        self.h(0x05, *(self.date * 2))
        return self.s(0x06, name)

    def end(self):
        return self.rec(0x07, 0)

    def el(self, t):
        return self.rec(t, 0)

    def endel(self):
        return self.rec(0x11, 0)

    def data(self):
        d = b""
        for p in self.parts:
            d = d + p
        return d + self.cx.pack(">HBB", 4, 4, 0)

    def file(self):
        return self.cx.bfile(self.data())


# ------------------------------------------------------------------ record grammar

# record type -> (data type, payload length or None, unit of the payload length)
RECORDS = {0x00: (2, 2, 2), 0x01: (2, 24, 2), 0x02: (6, None, 2), 0x03: (5, 16, 8), 0x04: (0, 0, 1), 0x05: (2, 24, 2), 0x06: (6, None, 2),
           0x07: (0, 0, 1), 0x08: (0, 0, 1), 0x09: (0, 0, 1), 0x0A: (0, 0, 1), 0x0B: (0, 0, 1), 0x0C: (0, 0, 1), 0x0D: (2, 2, 2),
           0x0E: (2, 2, 2), 0x0F: (3, 4, 4), 0x10: (3, None, 8), 0x11: (0, 0, 1), 0x12: (6, None, 2), 0x13: (2, 4, 2), 0x16: (2, 2, 2),
           0x17: (1, 2, 2), 0x19: (6, None, 2), 0x1A: (1, 2, 2), 0x1B: (5, 8, 8), 0x1C: (5, 8, 8), 0x21: (2, 2, 2), 0x2B: (2, 2, 2),
           0x2C: (6, None, 2), 0x30: (3, 4, 4), 0x31: (3, 4, 4)}
# element -> ordered list of (record, minimum, maximum number); STRANS groups MAG and ANGLE
ELEMENTS = {0x08: [(0x0D, 1, 1), (0x0E, 1, 1), (0x10, 1, 99)],
            0x09: [(0x0D, 1, 1), (0x0E, 1, 1), (0x21, 0, 1), (0x0F, 0, 1), (0x30, 0, 1), (0x31, 0, 1), (0x10, 1, 99)],
            0x0A: [(0x12, 1, 1), (0x1A, 0, 1), (0x1B, 0, 1), (0x1C, 0, 1), (0x10, 1, 1)],
            0x0B: [(0x12, 1, 1), (0x1A, 0, 1), (0x1B, 0, 1), (0x1C, 0, 1), (0x13, 1, 1), (0x10, 1, 1)],
            0x0C: [(0x0D, 1, 1), (0x16, 1, 1), (0x17, 0, 1), (0x1A, 0, 1), (0x1B, 0, 1), (0x1C, 0, 1), (0x10, 1, 1), (0x19, 1, 1)]}
STARTS = set(ELEMENTS)


def records(cx, data):
    """Split a stream into records; checks each record's framing."""
    out, pos = [], 0
    n = len(data)
    while pos < n:
        cx.check(pos + 4 <= n, "truncated record header")
        size, t, d = cx.unpack(">HBB", data[pos:pos + 4])
        if cx.symbolic:
            size, t, d = (x if isinstance(x, int) else x.__index__() for x in (size, t, d))
        cx.check(size >= 4 and size % 2 == 0, "record of type 0x%02X has length %d" % (t, size))
        cx.check(pos + size <= n, "record of type 0x%02X longer than the stream" % t)
        cx.check(t in RECORDS, "unknown record 0x%02X" % t)
        wd, ln, unit = RECORDS[t]
        cx.check(d == wd, "record 0x%02X with data type %d" % (t, d))
        cx.check((size - 4 == ln) if ln is not None else (size - 4) % unit == 0, "record 0x%02X has %d bytes of data" % (t, size - 4))
        out.append((t, data[pos + 4:pos + size]))
        pos += size
        if t == 0x04:
            break
    cx.check(pos == n, "%d bytes after the end of the library" % (n - pos))
    return out


class El:
    def __init__(self, kind):
        self.kind, self.recs, self.props = kind, [], []

    def all(self, t):
        return [d for k, d in self.recs if k == t]

    def xy(self, cx):
        v = []
        for d in self.all(0x10):
            v.extend(cx.unpack(">%dl" % (len(d) // 4), d))
        return [(v[i], v[i + 1]) for i in range(0, len(v), 2)]


def grammar(cx, data):
    """-> (library name bytes, units bytes, [(cell name bytes, [El])]); every deviation is a violation"""
    rs = records(cx, data)
    pos = [0]

    def peek():
        return rs[pos[0]][0] if pos[0] < len(rs) else None

    def take(t, what):
        cx.check(peek() == t, "%s (0x%02X) expected, found %s" % (what, t, "end of stream" if peek() is None else "0x%02X" % peek()))
        pos[0] += 1
        return rs[pos[0] - 1][1]
    take(0x00, "HEADER")
    take(0x01, "BGNLIB")
    name = take(0x02, "LIBNAME")
    units = take(0x03, "UNITS")
    cells = []
    while peek() == 0x05:
        take(0x05, "BGNSTR")
        cname = take(0x06, "STRNAME")
        els = []
        while peek() in STARTS:
            e = El(peek())
            pos[0] += 1
            for t, lo, hi in ELEMENTS[e.kind]:
                k = 0
                while peek() == t and k < hi:
                    e.recs.append(rs[pos[0]])
                    pos[0] += 1
                    k += 1
                cx.check(k >= lo, "record 0x%02X missing in element 0x%02X" % (t, e.kind))
                if t in (0x1B, 0x1C) and k:
                    cx.check(e.all(0x1A), "magnification or angle without transformation flags")
            while peek() == 0x2B:
                a = take(0x2B, "PROPATTR")
                e.props.append((a, take(0x2C, "PROPVALUE")))
            take(0x11, "ENDEL")
            els.append(e)
        take(0x07, "ENDSTR")
        cells.append((cname, els))
    take(0x04, "ENDLIB")
    cx.check(peek() is None, "records after ENDLIB")
    return name, units, cells


def padded(cx, got, text, msg):
    """String record payload: the text and at most one zero byte."""
    raw = text.encode("ascii")
    n = len(raw)
    cx.check(len(got) == n + n % 2, "%s: %d bytes for %d characters" % (msg, len(got), n))
    cx.check(got == (raw + b"\0" if n % 2 else raw), msg)
