"""C03: polygons and labels through a GDSII file."""
from symex.ctx import harness
from .io import UNITS, library, cell, reread, ongrid, ongrid_pts, eqprops

ASSUMPTIONS = ["8-byte reals are carried through the file unchanged (that the codec does so is C01)"]
ANCHORS = ["nw", "n", "ne", "w", "o", "e", "sw", "s", "se"]


def grid_of(u):
    return UNITS[u][1] / UNITS[u][0]


@harness("C03", [("um/nm", [3, 4]), ("1:128", [4, 3]), ("same", [3])],
         "one polygon set of the configured vertex counts, coordinates in [-1000,1000], layers and datatypes in [0,32767]",
         thorough=[("um/nm", [5, 6, 3]), ("1:128", [8])])
def polygons(cx, cfg):
    u, sizes = cfg
    lib, c = library(cx, u), cell(cx, "C")
    pts = [cx.points("p%d_" % i, k) for i, k in enumerate(sizes)]
    ps = cx.gds.PolygonSet(pts)
    ps.layers = [cx.int("l%d" % i, 0, 32767) for i in range(len(sizes))]
    ps.datatypes = [cx.int("d%d" % i, 0, 32767) for i in range(len(sizes))]
    L, D = list(ps.layers), list(ps.datatypes)
    c.add(ps)
    lib.add(c)
    r = reread(cx, lib)
    cx.check(list(r.cells) == ["C"] and r.name == "LIB", "cells and library name")
    cx.eq(r.unit, UNITS["um/nm"][0], "unit of the reader", 1e-15)
    out = r.cells["C"]
    cx.check(len(out.polygons) == len(sizes) and not out.paths and not out.labels and not out.references, "element counts")
    for i, p in enumerate(out.polygons):
        cx.check(len(p.polygons) == 1, "one polygon each")
        ongrid_pts(cx, p.polygons[0], pts[i], grid_of(u), "polygon %d" % i)
        cx.eq(p.layers[0], L[i], "layer")
        cx.eq(p.datatypes[0], D[i], "datatype")
        cx.check(not p.properties, "no properties")
    cx.eqpolys(ps.polygons, pts, "written set unchanged")


@harness("C03", [[], [0], [1], [2], [3], [2, 3], [1, 0]], "properties of the configured text lengths, characters 1..127 at each position, distinct attributes 1..127, on two polygons of a set, followed by another polygon",
         thorough=[[4, 5, 6], [7]])
def polygon_properties(cx, lens):
    lib, c = library(cx), cell(cx, "C")
    ps = cx.gds.PolygonSet([[(0, 0), (1, 0), (0, 1)], [(2, 0), (3, 0), (2, 1)]], layer=1, datatype=2)
    props = []
    for i, n in enumerate(lens):
        a = cx.int("a%d" % i, 1, 127)
        for b, _ in props:
            cx.assume(a != b)
        props.append((a, cx.text("v%d" % i, n, 1, 127)))
    ps.properties = dict(props)
    q = cx.gds.Rectangle((5, 5), (6, 6), 3, 4)
    c.add([ps, q])
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.polygons) == 3, "polygon count")
    eqprops(cx, out.polygons[0].properties, props, "first polygon")
    eqprops(cx, out.polygons[1].properties, props, "second polygon")
    eqprops(cx, out.polygons[2].properties, [], "polygon without properties")
    eqprops(cx, ps.properties, props, "written set")


@harness("C03", [0, 1, 2, 3, 5], "label text of the configured length, characters 1..127; any position, layer, texttype, anchor; rotation, magnification and reflection present or absent",
         thorough=[8, 9])
def labels(cx, n):
    lib, c = library(cx), cell(cx, "C")
    anchor = cx.choice("anchor", ANCHORS)
    rot = cx.real("rot", -720, 720) if cx.flag("has_rot") else None
    mag = cx.real("mag", 0.01, 100) if cx.flag("has_mag") else None
    xr = cx.flag("xr")
    t = cx.text("t", n, 1, 127)
    pos = cx.point("pos")
    la, tt = cx.int("layer", 0, 32767), cx.int("tt", 0, 32767)
    lb = cx.gds.Label(t, pos, anchor, rot, mag, xr, la, tt)
    ref = cx.gds.Label("ref", (0, 0), anchor, layer=0)
    c.add([lb, ref])
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.labels) == 2 and not out.polygons, "element counts")
    r = out.labels[0]
    cx.eq(r.text, t, "text")
    ongrid(cx, r.position[0], pos[0], 1e-3, "x")
    ongrid(cx, r.position[1], pos[1], 1e-3, "y")
    cx.check(r.anchor == lb.anchor, "anchor")
    cx.check(lb.anchor == {"nw": 0, "n": 1, "ne": 2, "w": 4, "o": 5, "e": 6, "sw": 8, "s": 9, "se": 10}[anchor], "anchor code")
    cx.eq(r.rotation, rot, "rotation")
    cx.eq(r.magnification, mag, "magnification")
    cx.check(bool(r.x_reflection) == xr, "reflection")
    cx.eq(r.layer, la, "layer")
    cx.eq(r.texttype, tt, "texttype")
    r = out.labels[1]
    cx.check(r.text == "ref" and r.rotation is None and r.magnification is None and not r.x_reflection and r.layer == 0, "second label is independent of the first")


@harness("C03", [[0], [1], [2], [3, 2]], "label properties of the configured text lengths", thorough=[[4, 5]])
def label_properties(cx, lens):
    lib, c = library(cx), cell(cx, "C")
    props = []
    for i, n in enumerate(lens):
        a = cx.int("a%d" % i, 1, 127)
        for b, _ in props:
            cx.assume(a != b)
        props.append((a, cx.text("v%d" % i, n, 1, 127)))
    l1, l2 = cx.gds.Label("a", (1, 2)), cx.gds.Label("b", (3, 4))
    l1.properties = dict(props)
    c.add([l1, l2])
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    eqprops(cx, out.labels[0].properties, props, "first label")
    eqprops(cx, out.labels[1].properties, [], "second label")


@harness("C03", [8189, 8190, 8191, 16379, 16380, 16381], "a polygon of the configured vertex count on the integer grid: x0+3i, y0+(i mod 5) with any integer x0, y0, except for five vertices off the grid (first, last, next to the record boundary); then a second polygon",
         thorough=[8188, 16382, 24570, 32767], timeout=300)
def long_polygons(cx, n):
    lib, c = library(cx, "same"), cell(cx, "C")
    x, y = cx.int("x", -10 ** 6, 10 ** 6), cx.int("y", -10 ** 6, 10 ** 6)
    pts = [(x + 3 * i, y + i % 5) for i in range(n)]
    off = {0, 1, 8189, 8190, n - 1} & set(range(n))
    for i in off:
        pts[i] = (cx.real("fx%d" % i, -1000, 1000), cx.real("fy%d" % i, -1000, 1000))
    ps = cx.gds.PolygonSet([pts, [(x, y), (x + 1, y), (x, y + 1)]], 5, 6)
    c.add(ps)
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.polygons) == 2, "polygon count")
    P = out.polygons[0].polygons[0]
    cx.check(len(P) == n, "vertex count %d instead of %d" % (len(P), n))
    for i in range(n):
        if i in off:
            ongrid(cx, P[i][0], pts[i][0], 1, "x of vertex %d" % i)
            ongrid(cx, P[i][1], pts[i][1], 1, "y of vertex %d" % i)
        elif i < 3 or i > n - 3 or i % 8190 in (0, 1, 2, 8189, 8188) or i % 97 == 0:
            cx.eq(P[i][0], pts[i][0], "x of vertex %d" % i)
            cx.eq(P[i][1], pts[i][1], "y of vertex %d" % i)
        elif cx.symbolic:
            cx.check((P[i][0] - pts[i][0]) == 0 and (P[i][1] - pts[i][1]) == 0, "vertex %d" % i)
        else:
            cx.check(P[i][0] == pts[i][0] and P[i][1] == pts[i][1], "vertex %d" % i)
    cx.check(list(out.polygons[0].layers) == [5] and list(out.polygons[0].datatypes) == [6], "layer and datatype")
    Q = out.polygons[1].polygons[0]
    cx.eqpts(Q, [(x, y), (x + 1, y), (x, y + 1)], "second polygon")


@harness("C03", [None], "a rectangle, a simple path, a flexible path and a robust path, all written as polygons, moved by any (dx,dy) in [-100,100]^2")
def path_polygons(cx):
    g = cx.gds
    lib, c = library(cx), cell(cx, "C")
    dx, dy = cx.real("dx", -100, 100), cx.real("dy", -100, 100)
    els = [g.Rectangle((0, 0), (3, 2), 1, 2), g.Path(1, (5, 5)).segment(4, "+x", layer=3, datatype=4),
           g.FlexPath([(0, 0), (4, 0)], 2, layer=5, datatype=6), g.RobustPath((0, 0), 2, layer=7, datatype=8).segment((0, 6))]
    for e in els:
        e.translate(dx, dy)
        e.properties = {7: "p%d" % len(c.polygons + c.paths)}
        c.add(e)
    want = []
    for e in els:
        for k, p in ({(e.layers[0], e.datatypes[0]): e.polygons} if hasattr(e, 'polygons') else e.get_polygons(True)).items():
            want.append((k, [[(q[0], q[1]) for q in r] for r in p], e.properties))
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.polygons) == 4 and not out.paths, "four polygons")
    for p, (k, w, pr) in zip(out.polygons, want):
        cx.check(len(w) == 1 and (p.layers[0], p.datatypes[0]) == k, "layer and datatype")
        ongrid_pts(cx, p.polygons[0], w[0], 1e-3, "polygon")
        eqprops(cx, p.properties, pr, "properties")
