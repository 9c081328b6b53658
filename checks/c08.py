"""C08: binary cells and unit query."""
from symex.ctx import harness
from .io import Stream, library, cell, written

ASSUMPTIONS = ["8-byte reals are carried through the file unchanged (that the codec does so is C01)"]


def cells_of(cx, lens):
    """-> list of (name as text, bytes of the whole cell)"""
    out = []
    for k, n in enumerate(lens):
        s = Stream(cx, date=[cx.int("d%d_%d" % (k, i), -32768, 32767) for i in range(6)])
        s.parts = []
        name = cx.text("n%d" % k, n, 33, 126)
        raw = name.encode("ascii")
        s.begin(raw + (b"\0" if n % 2 else b""))
        t = cx.int("rt%d" % k, 0, 0x7F)
        for x in (4, 5, 6, 7):
            cx.assume(cx.not_(t == x))
        s.rec(0x08, 0).rec(0x10, 3, cx.bytes_("p%d" % k, 4)).rec(t, 2, cx.bytes_("w%d" % k, 2)).rec(0x2C, 6, cx.bytes_("v%d" % k, 2)).rec(0x11, 0)
        s.end()
        d = b""
        for p in s.parts:
            d = d + p
        out.append((name, d))
    return out


def library_bytes(cx, cells, between=b""):
    s = Stream(cx)
    for _, d in cells:
        s.parts.append(d)
        if between:
            s.parts.append(between)
    return s.data()


def distinct(cx, cells):
    for i in range(len(cells)):
        for j in range(i):
            if len(cells[i][0]) == len(cells[j][0]):
                cx.assume(cx.not_(cells[i][0] == cells[j][0]))


def check_cells(cx, got, cells):
    items = list(got.items())
    cx.check(len(items) == len(cells), "%d cells instead of %d" % (len(items), len(cells)))
    for name, data in cells:
        hit = [d for n, d in items if len(n) == len(name) and cx.cond(n == name)]
        cx.check(len(hit) == 1, "cell missing under its name")
        cx.check(len(hit[0]) == len(data), "cell length %d instead of %d" % (len(hit[0]), len(data)))
        cx.check(hit[0] == data, "cell bytes")


@harness("C08", [(), (1,), (2,), (3, 3), (1, 4, 2), (31, 32)], "cells with names of the configured lengths (any printable characters), arbitrary dates and payload bytes, and a record of any type (other than those delimiting cells) in each; from an open stream or a path, with and without extra records between the cells and zero padding at the end",
         thorough=[(2, 2, 2), (1, 1, 1, 1)])
def binary_cells(cx, lens):
    lens = tuple(lens)
    cells = cells_of(cx, lens)
    distinct(cx, cells)
    between = cx.choice("between", [b"", b"\x00\x06\x3a\x02\x00\x01"])
    tail = cx.choice("tail", [b"", b"\0" * 8])
    data = library_bytes(cx, cells, between) + tail
    if cx.flag("path"):
        got = cx.gds.get_binary_cells(cx.file("in.gds", data))
    else:
        f = cx.bfile(data)
        got = cx.gds.get_binary_cells(f)
        cx.check(not f.closed, "caller's stream closed")
    check_cells(cx, got, cells)
    # and writing them back reproduces them
    g = cx.bfile()
    w = cx.gds.GdsWriter(g, "X")
    head = len(g.getvalue())
    cx.check(w.write_binary_cells([got[n] for n in got]) is w, "returns the writer")
    w.close()
    cx.check(not g.closed, "caller's stream closed by the writer")
    out = g.getvalue()[head:]
    want = b""
    for n in got:
        want = want + got[n]
    want = want + b"\x00\x04\x04\x00"
    cx.check(len(out) == len(want), "written length")
    cx.check(out == want, "written bytes")
    # reading what was written gives the same cells
    check_cells(cx, cx.gds.get_binary_cells(cx.bfile(g.getvalue())), cells)


@harness("C08", [1, 2], "libraries written by gdspy (the configured number of cells, with polygon, label, reference, properties at symbolic coordinates): cells extracted and handed to write_gds as binary cells give the same cells again")
def rewritten(cx, n):
    g = cx.gds
    lib = library(cx)
    for k in range(n):
        c = cell(cx, "CELL" + "A" * k)
        x, y = cx.int("x%d" % k, -1000, 1000), cx.int("y%d" % k, -1000, 1000)
        p = g.Polygon([(x, y), (x + 1, y), (x, y + 2)], cx.int("l%d" % k, 0, 255), 2)
        p.properties[cx.int("a%d" % k, 1, 127)] = cx.text("t%d" % k, 2)
        c.add([p, g.Label("text", (x, y)), g.CellReference("CELL", (x, y), ignore_missing=True), g.FlexPath([(x, y), (x + 2, y)], 1, gdsii_path=True)])
        lib.add(c)
    one = g.get_binary_cells(written(cx, lib))
    cx.check(set(one) == {"CELL" + "A" * k for k in range(n)}, "cell names")
    lib2 = library(cx)
    extra = cell(cx, "EXTRA")
    lib2.add(extra)
    f = cx.bfile()
    lib2.write_gds(f, binary_cells=list(one.values()))
    f.seek(0)
    data = f.getvalue()
    two = g.get_binary_cells(f)
    cx.check(set(two) == set(one) | {"EXTRA"}, "cell names after rewriting")
    for k in one:
        cx.check(len(one[k]) == len(two[k]), "cell length")
        cx.check(one[k] == two[k], "cell bytes")
    lib3 = g.GdsLibrary("R", infile=cx.bfile(data))
    for k in range(n):
        x, y = cx_xy(lib, k)
        p = lib3.cells["CELL" + "A" * k].polygons[0]
        cx.eqpts(p.polygons[0], [(x, y), (x + 1, y), (x, y + 2)], "polygon")


def cx_xy(lib, k):
    p = lib.cells["CELL" + "A" * k].polygons[0].polygons[0][0]
    return p[0], p[1]


@harness("C08", [[], [0x02], [0x02, 0x1F, 0x20, 0x22], [0x3A, 0x3B, 0x39, 0x23, 0x36, 0x37, 0x38]], "any unit ratio in [1e-6,1e3] and precision in [1e-12,1e-3], after header, library and the configured further records with arbitrary payload bytes; from an open stream or a path")
def unit_query(cx, types):
    ratio, db = cx.real("ratio", 1e-6, 1e3), cx.real("db", 1e-12, 1e-3)
    s = Stream(cx)
    s.parts = s.parts[:2]
    for i, t in enumerate(types):
        s.rec(t, 6, cx.bytes_("x%d" % i, 4 + 16 * (i % 2)))
    s.r(0x03, ratio, db)
    s.begin(b"AB").end()
    data = s.data()
    if cx.flag("path"):
        u, p = cx.gds.get_gds_units(cx.file("in.gds", data))
    else:
        f = cx.bfile(data)
        u, p = cx.gds.get_gds_units(f)
        cx.check(not f.closed, "caller's stream closed")
    cx.eq(u * ratio / db, 1, "unit")
    cx.eq(p / db, 1, "precision")


@harness("C08", ["um/nm", "1:128", "same"], "files written by write_gds and by GdsWriter with the configured units; the dictionary of units is what was written and the library reads them back on import")
def unit_roundtrip(cx, u):
    from .io import UNITS
    x = cx.int("x", -1000, 1000)
    lib = library(cx, u)
    c = cell(cx, "C")
    c.add(cx.gds.Polygon([(x, 0), (x + 1, 0), (x, 1)]))
    lib.add(c)
    f = cx.bfile()
    if cx.flag("writer"):
        w = cx.gds.GdsWriter(f, "L", unit=UNITS[u][0], precision=UNITS[u][1])
        w.write_cell(c)
        w.close()
    else:
        lib.write_gds(f)
    f.seek(0)
    got = cx.gds.get_gds_units(f)
    for a, b in zip(got, UNITS[u]):
        cx.eq(a / b, 1, "units")
    cx.check(not f.closed, "stream closed")
    f.seek(0)
    l2 = cx.gds.GdsLibrary("R", infile=f, units="import", unit=1.0, precision=1.0)
    cx.check(not f.closed, "stream closed by read_gds")
    cx.eq(l2.unit / UNITS[u][0], 1, "unit imported")
    cx.eq(l2.precision / UNITS[u][1], 1, "precision imported")
    cx.eq(l2.cells["C"].polygons[0].polygons[0][0][0], x, "coordinate")
