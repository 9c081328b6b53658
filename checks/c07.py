"""C07: hash and timestamps of GDSII files."""
import datetime
from symex.ctx import harness
from .io import Stream, library, cell

ASSUMPTIONS = ["hashing is modelled as recording the bytes the hash engine is fed: equal input gives equal hash, and for the converse the hash function is assumed free of collisions",
               "files are built record by record by the harness, independently of gdspy's writer (or by gdspy's writer where stated)"]


class Stamp:
    """Stand-in for a datetime with symbolic fields."""

    def __init__(self, f):
        self.year, self.month, self.day, self.hour, self.minute, self.second = f
        self.microsecond = 0


def stamp(cx, name):
    f = [cx.int(name + n, lo, hi) for n, lo, hi in (("Y", 1, 9999), ("M", 1, 12), ("D", 1, 28), ("h", 0, 23), ("m", 0, 59), ("s", 0, 59))]
    return f, (Stamp(f) if cx.symbolic else datetime.datetime(*f))


def digest(cx, path, engine=False):
    f = cx.gds.gdsii_hash
    if engine:
        return f(path, cx.engine())
    r = f(path)
    return r.data() if cx.symbolic else r


def rawdate(cx, name):
    return [cx.int("%s%d" % (name, i), -32768, 32767) for i in range(6)]


def build(cx, date, cells, libname=b"LIB\0", tail=b"", units=(1e-3, 1e-9)):
    """cells: list of (name, [(record type, data type, payload)]); date(k): twelve numbers of the k-th timestamp"""
    s = Stream(cx, units[0], units[1], name=libname, date=date(0))
    for k, (name, recs) in enumerate(cells):
        s.date = date(k + 1)
        s.begin(name)
        for t, d, p in recs:
            s.rec(t, d, p)
        s.end()
    return s.data() + tail


def payloads(cx, n, size):
    """n cells with one record of symbolic payload each between plain ones"""
    out = []
    for k in range(n):
        b = cx.bytes_("b%d" % k, size)
        out.append((b"ABCDEFGH"[2 * k:2 * k + 2], [(0x08, 0, b""), (0x0D, 2, b"\0\1"), (0x10, 3, b), (0x11, 0, b"")]))
    return out


@harness("C07", [(0, 0), (1, 4), (2, 4), (3, 2)], "the configured number of cells with a record of the configured number of arbitrary payload bytes each; two files with arbitrary timestamps, cell order, library name and units, with and without zero padding at the end",
         thorough=[(2, 16), (3, 4)])
def hash_ignores(cx, cfg):
    n, size = cfg
    cells = payloads(cx, n, size)
    d1, d2 = rawdate(cx, "d1"), rawdate(cx, "d2")
    eng = cx.flag("engine")
    a = cx.file("a.gds", build(cx, lambda k: d1, cells))
    perm = cx.choice("perm", [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0][:n]])
    tail = cx.choice("tail", [b"", b"\0" * 8])
    b = cx.file("b.gds", build(cx, lambda k: d2 if k else d1, [cells[i] for i in perm], cx.choice("name", [b"LIB\0", b"OTHERLIB"]), tail, (1.0, 1e-6)))
    cx.check(digest(cx, a, eng) == digest(cx, b, eng), "hash differs")
    cx.check(cx.filedata(a) == build(cx, lambda k: d1, cells), "file changed")


@harness("C07", [(1, 4), (2, 3)], "as hash_ignores, with one arbitrary payload byte of one cell changed to any other value, or a record removed, duplicated or of another type, or the name changed, or the cell left out; other cells may have the same contents",
         thorough=[(2, 6), (3, 3)])
def hash_sees(cx, cfg):
    n, size = cfg
    cells = payloads(cx, n, size)
    d1, d2 = rawdate(cx, "d1"), rawdate(cx, "d2")
    eng = cx.flag("engine")
    a = cx.file("a.gds", build(cx, lambda k: d1, cells))
    k = cx.choice("cell", range(n))
    if n > 1 and cx.flag("twins"):
        # the other cells have the contents of the changed one
        cells = [(cells[k][0], r) for _, r in cells]
        a = cx.file("a.gds", build(cx, lambda k: d1, cells))
        for i in range(n):
            for u, v in zip(cells[i][1][2][2], cells[k][1][2][2]):
                if i != k:
                    cx.assume(u == v)
    how = cx.choice("how", ["byte", "layer", "type", "removed", "doubled", "name", "nocell"])
    name, recs = cells[k]
    recs = list(recs)
    if how == "byte":
        j = cx.choice("j", range(size))
        v = cx.int("v", 0, 255)
        old = recs[2][2]
        cx.assume(cx.not_(old[j] == v))
        recs[2] = (0x10, 3, cx.tobytes([v if i == j else old[i] for i in range(size)]))
    elif how == "layer":
        v = cx.int("v", 2, 32767)
        recs[1] = (0x0D, 2, cx.pack(">h", v))
    elif how == "type":
        recs[0] = (0x2D, 0, b"")
    elif how == "removed":
        del recs[1]
    elif how == "doubled":
        recs.insert(1, recs[1])
    elif how == "name":
        name = b"ZZ"
    new = list(cells)
    new[k] = (name, recs)
    if how == "nocell":
        del new[k]
    b = cx.file("b.gds", build(cx, lambda k: d2, new))
    cx.check(cx.not_(digest(cx, a, eng) == digest(cx, b, eng)), "hash does not see the change (%s)" % how)


@harness("C07", [(0, 0), (1, 4), (2, 6), (3, 2)], "file with the configured number of cells and payload bytes, arbitrary old timestamps in every place, any new date; with zero padding or a truncated tail; every byte of the result is compared",
         thorough=[(3, 40), (5, 8)])
def set_timestamp(cx, cfg):
    n, size = cfg
    cells = payloads(cx, n, size)
    ds = [rawdate(cx, "d%d_" % k) for k in range(n + 1)]
    tail = cx.choice("tail", [b"", b"\0" * 12, b"\0\0"])
    p = cx.file("a.gds", build(cx, lambda k: ds[k], cells, tail=tail))
    f, t = stamp(cx, "t")
    cx.gds.set_gdsii_timestamp(p, t)
    want = build(cx, lambda k: f, cells, tail=tail)
    got = cx.filedata(p)
    cx.check(len(got) == len(want), "file length %d instead of %d" % (len(got), len(want)))
    cx.check(got == want, "file contents")


@harness("C07", [1, 2], "libraries with the configured number of cells (polygon, path, label, reference with symbolic coordinates) written with one date and re-dated equal the library written with the other date, and hash alike")
def written_libraries(cx, n):
    g = cx.gds
    fa, ta = stamp(cx, "a")
    fb, tb = stamp(cx, "b")
    lib = library(cx)
    for k in range(n):
        c = cell(cx, "CELL%d" % k)
        x, y = cx.int("x%d" % k, -1000, 1000), cx.int("y%d" % k, -1000, 1000)
        c.add(g.Polygon([(x, y), (x + 1, y), (x, y + 2)], 1, 2))
        c.add(g.Label("text", (x, y)))
        c.add(g.CellReference("CELL0" if k else "NONE", (x, y), ignore_missing=True))
        lib.add(c)
    out = []
    for t in (ta, tb):
        f = cx.bfile()
        lib.write_gds(f, timestamp=t)
        out.append(f.getvalue())
    a, b = cx.file("a.gds", out[0]), cx.file("b.gds", out[1])
    cx.check(digest(cx, a) == digest(cx, b), "hash depends on the date")
    g.set_gdsii_timestamp(a, tb)
    got = cx.filedata(a)
    cx.check(len(got) == len(out[1]), "file length")
    cx.check(got == out[1], "re-dated file differs from the file written with that date")
