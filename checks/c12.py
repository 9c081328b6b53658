"""C12: transformed and deep copies of cells."""
from symex.ctx import harness
from .geom import Aff, XREFL, scaling, rotation, translation
from .hier import Ref, Node, eqgroups, grouped
from .c10 import flexpath, eqopt
from .io import cell

ASSUMPTIONS = ["cos and sin of a symbolic angle are any point of the unit circle consistent with its quadrant"]


class T:
    """The transformation of the copy: opts subset of 'trsx' (translation, rotation, scale, reflection)."""

    def __init__(self, cx, opts, name="T"):
        self.kw = {}
        self.d = (0, 0)
        A = Aff()
        self.s = 1
        self.t = None
        if "x" in opts:
            self.kw["x_reflection"] = True
            A = A.then(XREFL)
        if "s" in opts:
            self.s = self.kw["scale"] = cx.real(name + "s", 0.1, 10)
            A = A.then(scaling(self.s))
        if "r" in opts:
            self.t = self.kw["rotation"] = cx.angle_rad(name + "r")
            A = A.then(rotation(cx.cos(self.t), cx.sin(self.t)))
        if "t" in opts:
            self.d = cx.point(name + "d", -100, 100)
            self.kw["translation"] = self.d
            A = A.then(translation(*self.d))
        self.x = "x" in opts
        self.map = A


def mapped(A, kps):
    return [(k, [A(v) for v in p]) for k, p in kps]


TR = ["t", "r", "s", "x", "rs", "xr", "sx", "trsx", "tr", "xt"]
ALL = ["".join(c for c, b in zip("trsx", bits) if b) for bits in [(i & 1, i & 2, i & 4, i & 8) for i in range(1, 16)]]


@harness("C12", TR, "a cell with two polygon sets (two layers each; one of the sets holds a quadrilateral) copied with the configured transformations, all parameters symbolic", thorough=[t for t in ALL if t not in TR])
def polygons(cx, opts):
    n = Node(cx, "A", [[((1, 2), cx.points("p", 3, -100, 100)), ((3, 4), cx.points("q", 4, -100, 100))], [((5, 6), cx.points("r", 3, -100, 100))]])
    n.cell.polygons[0].properties = {1: "one"}
    t = T(cx, opts)
    before = n.own()
    c = n.cell.copy("B", **t.kw)
    cx.check(c.name == "B" and n.name == "A", "names")
    cx.check(len(c.polygons) == 2 and len(n.cell.polygons) == 2, "sets")
    for a, b in zip(c.polygons, n.cell.polygons):
        cx.check(a is not b and a.layers == b.layers and a.datatypes == b.datatypes and a.properties == b.properties, "layers, datatypes, properties")
    got = [p for s in c.polygons for p in s.polygons]
    cx.eqpolys(got, [p for _, p in mapped(t.map, before)], "copy")
    cx.eqpolys([p for s in n.cell.polygons for p in s.polygons], [p for _, p in before], "original")


@harness("C12", [(k, o, t) for k in "ra" for o in ("", "r", "m", "x", "rmx") for t in ("trsx", "r", "s", "x", "t", "xr")], "a cell with a reference or 2x2 array (the configured own rotation, magnification, reflection) of a triangle, copied with the configured transformations, all parameters symbolic; expanded",
         thorough=[(k, o, t) for k in "ra" for o in ("", "r", "m", "x", "rm", "mx", "rx", "rmx") for t in ALL if not (o in ("", "r", "m", "x", "rmx") and t in ("trsx", "r", "s", "x", "t", "xr"))])
def references(cx, cfg):
    kind, o, opts = cfg
    lf = Node(cx, "L", [[((1, 2), cx.points("p", 3, -100, 100))]])
    top = Node(cx, "A").add(Ref(cx, "A", kind, o, (2, 2)), lf)
    ref = top.cell.references[0]
    ref.properties = {3: "three"}
    state = (ref.origin, ref.rotation, ref.magnification, ref.x_reflection, getattr(ref, "spacing", None))
    t = T(cx, opts)
    want = top.expand()
    c = top.cell.copy("B", **t.kw)
    eqgroups(cx, c.get_polygons(True), mapped(t.map, want), "copy")
    eqgroups(cx, top.cell.get_polygons(True), want, "original")
    r = c.references[0]
    cx.check(r is not ref and r.ref_cell is lf.cell, "a new reference to the same cell")
    cx.check(type(r) is type(ref) and r.properties == {3: "three"}, "type and properties")
    cx.check(r.x_reflection == (("x" in o) != t.x), "reflection flag")
    new = (ref.origin, ref.rotation, ref.magnification, ref.x_reflection, getattr(ref, "spacing", None))
    cx.check(all(a is b for a, b in zip(state, new)), "original placement unchanged")
    if kind == "a":
        cx.check((r.columns, r.rows) == (2, 2), "columns and rows")
    # placed again in another cell
    d = (3, -4)
    cx.eqsets(cell(cx, "Z").add(cx.gds.CellReference(c, d)).get_polygons(), [[(v[0] + 3, v[1] - 4) for v in p] for _, p in mapped(t.map, want)], "copy placed")


@harness("C12", [("line", t, o) for t in TR for o in (True,) if "x" not in t] + [("line", t, False) for t in ("x", "trsx", "xr")] + [("ext", t, False) for t in ("s", "trsx", "r")] + [("bend", t, False) for t in ("s", "x", "t")] + [("par", "trs", True)],
         "a cell with a flexible path (line with symbolic width and offset, extensions, bend or two elements; offset 0 with reflection) copied with the configured transformations",
         thorough=[("line", t, "x" not in t) for t in ALL] + [("par", t, "x" not in t) for t in ALL])
def paths(cx, cfg):
    kind, opts, off = cfg
    g = cx.gds
    p = flexpath(cx, kind, "P", off)
    c0 = cell(cx, "A").add(p)
    want = [(k, [(v[0], v[1]) for v in q]) for k, qs in p.get_polygons(True).items() for q in qs]
    if cx.flag("fresh"):
        p._polygon_dict = None
    t = T(cx, opts)
    c = c0.copy("B", **t.kw)
    eqgroups(cx, c.get_polygons(True), mapped(t.map, want), "copy", True)
    eqgroups(cx, c0.get_polygons(True), want, "original", True)
    cx.check(c.paths[0] is not p and len(c.paths) == 1, "a new path")


@harness("C12", ["t", "s", "ts", "x", "sx"], "a cell with a robust path of two elements (fixed shape) copied with the configured transformations (translation in a fixed direction, scales 1/2 or 3)")
def robust(cx, opts):
    g = cx.gds
    p = g.RobustPath((1, 2), [1, 2], [-2, 3], layer=[1, 2], datatype=[3, 4]).segment((7, 10))
    c0 = cell(cx, "A").add(p)
    want = [(k, [(v[0], v[1]) for v in q]) for k, qs in p.get_polygons(True).items() for q in qs]
    kw, A = {}, Aff()
    if "x" in opts:
        kw["x_reflection"] = True
        A = A.then(XREFL)
    if "s" in opts:
        kw["scale"] = cx.choice("s", [0.5, 3])
        A = A.then(scaling(kw["scale"]))
    if "t" in opts:
        kw["translation"] = (cx.int("d", -2, 2), 3)
        A = A.then(translation(*kw["translation"]))
    c = c0.copy("B", **kw)
    eqgroups(cx, c.get_polygons(True), mapped(A, want), "copy", True)
    eqgroups(cx, c0.get_polygons(True), want, "original", True)


@harness("C12", TR, "a cell with a label with any of its own rotation, magnification, reflection, copied with the configured transformations: position, and the composed rotation, magnification and reflection", thorough=[t for t in ALL if t not in TR])
def labels(cx, opts):
    g = cx.gds
    rot = cx.angle_deg("lrot", -180, 180) if cx.flag("hr") else None
    mag = cx.real("lmag", 0.1, 10) if cx.flag("hm") else None
    xr = cx.flag("xr")
    pos = cx.point("l", -100, 100)
    l = g.Label("text", pos, "sw", rot, mag, xr, cx.int("ll", 0, 255), cx.int("lt", 0, 255))
    l.properties = {4: "four"}
    t = T(cx, opts)
    c0 = cell(cx, "A").add(l)
    c = c0.copy("B", **t.kw)
    cx.check(len(c.labels) == 1 and c.labels[0] is not l, "a new label")
    m = c.labels[0]
    cx.check(m.text == "text" and m.anchor == l.anchor and m.properties == {4: "four"}, "text, anchor, properties")
    cx.eq(m.layer, l.layer, "layer")
    cx.eq(m.texttype, l.texttype, "texttype")
    cx.eqpts([m.position], [t.map(pos)], "position")
    cx.check(bool(m.x_reflection) == (xr != t.x), "reflection")
    eqopt(cx, m.magnification, t.s * (1 if mag is None else mag), 1, "magnification")
    base = 0 if rot is None else (-rot if t.x else rot)
    eqopt(cx, m.rotation, base + (0 if t.t is None else t.t * 180 / cx.pi), 0, "rotation")
    cx.check(bool(l.x_reflection) == xr and l.rotation is rot and l.magnification is mag, "original unchanged")
    cx.eqpts([l.position], [pos], "original position")


@harness("C12", ["shared", "twice"], "the same polygon set, label and path added twice to a cell, and a copy of a copy")
def repeated(cx, kind):
    g = cx.gds
    P = cx.points("p", 3, -100, 100)
    pos = cx.point("l", -100, 100)
    s = g.PolygonSet([P])
    l = g.Label("x", pos)
    f = flexpath(cx, "line", "F", False)
    d = cx.point("d", -10, 10)
    c0 = cell(cx, "A").add([s, l, f])
    W = [(v[0], v[1]) for v in f.get_polygons()[0]]
    A = translation(*d)
    if kind == "shared":
        c0.add([s, l, f])
        n = 2
        c = c0.copy("B", translation=d)
    else:
        n = 1
        c = c0.copy("B", translation=d).copy("C", scale=2)
        A = A.then(scaling(2))
    cx.eqpolys([p for q in c.polygons for p in q.polygons], [[A(v) for v in P]] * n, "polygons")
    cx.eqpts([m.position for m in c.labels], [A(pos)] * n, "labels")
    cx.eqsets([p for q in c.paths for p in q.get_polygons()], [[A(v) for v in W]] * n, "paths", cyclic=True)


@harness("C12", [False, True], "a plain copy (shallow or deep): editing every element of the copy, in place and by its methods, leaves the original as it was exactly when the copy is deep; both have their own lists of elements")
def sharing(cx, deep):
    g = cx.gds
    P, Q = cx.points("p", 3, -100, 100), cx.points("q", 3, -100, 100)
    pos, o = cx.point("l", -100, 100), cx.point("o", -100, 100)
    s = g.PolygonSet([P, Q], 1, 2)
    l = g.Label("x", pos, layer=3)
    f = flexpath(cx, "line", "F", True)
    rp = g.RobustPath((0, 0), 1).segment((3, 4))
    sub = cell(cx, "S").add(g.Polygon(P))
    r = g.CellReference(sub, o)
    a = g.CellArray(sub, 2, 2, (5, 6), o)
    c0 = cell(cx, "A").add([s, l, f, rp, r, a])
    F = [[(v[0], v[1]) for v in q] for q in f.get_polygons()]
    R = [[(v[0], v[1]) for v in q] for q in rp.get_polygons()]
    c = c0.copy("B", deep)
    cx.check(c.name == "B", "name")
    for k in ("polygons", "labels", "paths", "references"):
        x, y = getattr(c0, k), getattr(c, k)
        cx.check(x is not y and len(x) == len(y), "own lists of " + k)
        for u, v in zip(x, y):
            cx.check((u is v) == (not deep), ("shared " if not deep else "copied ") + k)
    cx.eqpolys([p for q in c.polygons for p in q.polygons], [P, Q], "copied polygons")
    if not deep:
        c.add(g.Polygon([(0, 0), (1, 0), (0, 1)]))
        c.remove_labels(lambda x: True)
        c.remove_paths(lambda x: True)
        cx.check((len(c0.polygons), len(c0.labels), len(c0.paths), len(c0.references)) == (1, 1, 2, 2), "original lists")
        return
    # edit everything in the copy
    cp = c.polygons[0]
    cp.polygons[0][0] = (999, 999)
    cp.polygons[1][1, 0] = 777
    cp.layers[0] = 99
    cp.datatypes.append(7)
    cp.properties[1] = "new"
    cp.translate(5, 5)
    m = c.labels[0]
    m.position[0] = 555
    m.properties[2] = "new"
    m.text = "y"
    for p in c.paths:
        p.layers[0] = 98
        p.translate(3, 4)
        p.get_polygons()
        p.rotate(1)
        p.properties[3] = "new"
    c.paths[0].points[0] = (444, 444)
    c.references[0].translate(9, 9)
    c.references[1].translate(9, 9)
    cx.eqpolys(s.polygons, [P, Q], "original polygons")
    cx.check(s.layers == [1, 1] and s.datatypes == [2, 2] and s.properties == {}, "original layers, datatypes, properties")
    cx.eqpts([l.position], [pos], "original label")
    cx.check(l.text == "x" and l.properties == {}, "original label")
    cx.check(f.layers == [9] and f.properties == {} and rp.layers == [0] and rp.properties == {}, "original paths")
    cx.eqpolys(f.get_polygons(), F, "original flexible path")
    cx.eqpolys(rp.get_polygons(), R, "original robust path")
    f._polygon_dict = None
    rp._polygon_dict = None
    cx.eqpolys(f.get_polygons(), F, "original flexible path, recomputed")
    cx.eqpolys(rp.get_polygons(), R, "original robust path, recomputed")
    cx.eqpts([r.origin, a.origin], [o, o], "original placements")
    cx.check(r.ref_cell is sub and a.ref_cell is sub, "referenced cell")
