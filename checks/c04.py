"""C04: cells, references and arrays through a GDSII file."""
from symex.ctx import harness
from .io import UNITS, library, cell, reread, written, ongrid, eqprops

ASSUMPTIONS = ["8-byte reals are carried through the file unchanged (that the codec does so is C01)"]


def options(cx):
    rot = cx.angle_deg("rot", -360, 360) if cx.flag("has_rot") else None
    mag = cx.real("mag", 0.01, 100) if cx.flag("has_mag") else None
    return rot, mag, cx.flag("xr")


def build(cx, u, kind, how="object"):
    g = cx.gds
    lib = library(cx, u)
    sub, top = cell(cx, "SUB"), cell(cx, "TOP")
    sub.add(g.Rectangle((0, 0), (1, 1)))
    rot, mag, xr = options(cx)
    o = cx.point("o")
    tgt = {"object": sub, "name": "SUB", "missing": "NOWHERE"}[how]
    props = [(cx.int("a", 1, 127), cx.text("v", 2, 1, 127))] if how == "object" else []
    if kind == "ref":
        r = g.CellReference(tgt, o, rot, mag, xr, ignore_missing=True)
        lat = None
    else:
        cols, rows = cx.int("cols", 1, 1000), cx.int("rows", 1, 1000)
        sp = (cx.real("sx", -100, 100), cx.real("sy", -100, 100))
        r = g.CellArray(tgt, cols, rows, sp, o, rot, mag, xr, ignore_missing=True)
        lat = cols, rows, sp
    r.properties = dict(props)
    top.add(r)
    plain = g.CellReference(sub, (3, 4)) if kind == "ref" else g.CellArray(sub, 2, 3, (5, 6), (3, 4))
    top.add(plain)
    lib.add([sub, top])
    return lib, r, plain, rot, mag, xr, o, lat, props


@harness("C04", [(u, k, h) for u in ("um/nm", "1:128") for k in ("ref", "array") for h in ("object", "name", "missing")],
         "a reference or array (by object, by name, or to a cell not in the file) at any origin in [-1000,1000]^2, optional rotation in [-360,360], magnification in [0.01,100] and reflection, 1..1000 columns and rows, spacing in [-100,100]^2, followed by a plain one")
def references(cx, cfg):
    u, kind, how = cfg
    grid = UNITS[u][1] / UNITS[u][0]
    lib, r, plain, rot, mag, xr, o, lat, props = build(cx, u, kind, how)
    out = reread(cx, lib)
    cx.check(sorted(out.cells) == ["SUB", "TOP"], "cells")
    for n, c in out.cells.items():
        cx.check(c.name == n, "cell name")
    refs = out.cells["TOP"].references
    cx.check(len(refs) == 2 and len(out.cells["SUB"].polygons) == 1 and not out.cells["SUB"].references, "contents")
    q = refs[0]
    want = cx.gds.CellReference if kind == "ref" else cx.gds.CellArray
    cx.check(isinstance(q, want), "kind")
    if how == "missing":
        cx.check(isinstance(q.ref_cell, str) and q.ref_cell == "NOWHERE", "reference by name")
    else:
        cx.check(q.ref_cell is out.cells["SUB"], "referenced cell")
    for k in (0, 1):
        ongrid(cx, q.origin[k], o[k], grid, "origin %d" % k)
    cx.eq(q.rotation, rot, "rotation")
    cx.eq(q.magnification, mag, "magnification")
    cx.check(bool(q.x_reflection) == xr, "reflection")
    eqprops(cx, q.properties, props, "properties")
    if lat:
        cols, rows, sp = lat
        cx.eq(q.columns, cols, "columns")
        cx.eq(q.rows, rows, "rows")
        # each corner is rounded to the grid, so the whole extent may move by up to one grid step per coordinate
        for k, n in ((0, cols), (1, rows)):
            d = (q.spacing[k] - sp[k]) * n / grid
            cx.le(d, 2, "spacing %d" % k)
            cx.le(-d, 2, "spacing %d" % k)
    q = refs[1]
    cx.check(q.ref_cell is out.cells["SUB"] and q.rotation is None and q.magnification is None and not q.x_reflection and not q.properties, "plain reference")
    for k in (0, 1):
        cx.eq(q.origin[k], (3, 4)[k], "plain origin")
        if lat:
            cx.eq(q.spacing[k], (5, 6)[k], "plain spacing")
            cx.eq((q.columns, q.rows)[k], (2, 3)[k], "plain counts")


@harness("C04", [None], "an array whose corner points fall on the grid: any integer origin and spacing in [-1000,1000], rotation any multiple of 90 degrees, reflection, 1..100 columns and rows")
def lattice_exact(cx):
    g = cx.gds
    lib = library(cx, "same")
    sub, top = cell(cx, "SUB"), cell(cx, "TOP")
    rot = cx.choice("rot", [None, 0, 90, 180, 270, -90, 360])
    xr = cx.flag("xr")
    o = (cx.int("ox", -1000, 1000), cx.int("oy", -1000, 1000))
    sp = (cx.int("sx", -1000, 1000), cx.int("sy", -1000, 1000))
    cols, rows = cx.int("cols", 1, 100).__index__() if not cx.symbolic else cx.int("cols", 1, 100), cx.int("rows", 1, 100)
    top.add(g.CellArray(sub, cols, rows, sp, o, rot, None, xr))
    lib.add([sub, top])
    q = reread(cx, lib).cells["TOP"].references[0]
    for k in (0, 1):
        cx.eq(q.origin[k], o[k], "origin")
        cx.eq(q.spacing[k], sp[k], "spacing", 1e-4)
    cx.eq(q.columns, cols, "columns")
    cx.eq(q.rows, rows, "rows")
    cx.eq(q.rotation, rot, "rotation")
    cx.check(bool(q.x_reflection) == xr, "reflection")


@harness("C04", [1, 2, 3, 4, 31, 32, 33], "cell names of the configured length, three levels of references written in any order")
def hierarchy(cx, n):
    g = cx.gds
    lib = library(cx)
    names = [ch * n for ch in "ABC"]
    cells = [cell(cx, m) for m in names]
    o = [cx.point("o%d" % i) for i in range(3)]
    cells[1].add(g.CellReference(cells[0], o[0]))
    cells[2].add(g.CellReference(cells[1], o[1]))
    cells[2].add(g.CellArray(cells[0], 2, 2, (1, 1), o[2]))
    order = cx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)])
    lib.add([cells[i] for i in order])
    out = reread(cx, lib)
    cx.check(set(out.cells) == set(names) and len(out.cells) == 3, "cell names")
    A, B, C = (out.cells[m] for m in names)
    cx.check(not A.references and len(B.references) == 1 and len(C.references) == 2, "reference counts")
    cx.check(B.references[0].ref_cell is A and C.references[0].ref_cell is B and C.references[1].ref_cell is A, "reference targets")
    for r, w in ((B.references[0], o[0]), (C.references[0], o[1]), (C.references[1], o[2])):
        for k in (0, 1):
            ongrid(cx, r.origin[k], w[k], 1e-3, "origin")


@harness("C04", [None], "several references and arrays with and without properties, in every combination of presence")
def reference_properties(cx):
    g = cx.gds
    lib = library(cx)
    sub, top = cell(cx, "SUB"), cell(cx, "TOP")
    want = []
    for i in range(3):
        r = g.CellReference(sub, (i, 0)) if cx.flag("kind%d" % i) else g.CellArray(sub, 1, 1, (1, 1), (i, 0))
        n = cx.choice("n%d" % i, [0, 1, 2])
        props = [(k + 1, cx.text("v%d_%d" % (i, k), k + 1, 32, 126)) for k in range(n)]
        r.properties = dict(props)
        top.add(r)
        want.append(props)
    lib.add([sub, top])
    refs = reread(cx, lib).cells["TOP"].references
    cx.check(len(refs) == 3, "count")
    for r, p in zip(refs, want):
        eqprops(cx, r.properties, p, "properties")


@harness("C04", [None], "writing a chosen subset of cells, given as objects, keeps exactly those")
def subset(cx):
    g = cx.gds
    lib = library(cx)
    A, B, C = cell(cx, "A"), cell(cx, "B"), cell(cx, "C")
    C.add([g.CellReference(A, cx.point("o")), g.CellReference(B)])
    lib.add([A, B, C])
    pick = [c for c in (A, B, C) if cx.flag("with" + c.name)]
    f = cx.bfile()
    lib.write_gds(f, cells=pick)
    f.seek(0)
    out = g.GdsLibrary("IN", infile=f)
    cx.check(sorted(out.cells) == [c.name for c in pick], "cells written")
    if C in pick:
        rs = out.cells["C"].references
        cx.check(len(rs) == 2, "references")
        for r, t in zip(rs, (A, B)):
            if t in pick:
                cx.check(r.ref_cell is out.cells[t.name], "linked")
            else:
                cx.check(isinstance(r.ref_cell, str) and r.ref_cell == t.name, "by name")
