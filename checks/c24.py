"""C24: queries and writers leave what they read as it is; copies are independent of their source."""
import numbers
from symex.ctx import harness
from .io import cell, library

GEOM = ("PolygonSet", "Polygon", "Rectangle", "Round", "Text", "Path", "L1Path", "PolyPath", "FlexPath", "RobustPath", "_SubPath", "Label", "CellReference", "CellArray")
HOLDER = GEOM + ("Cell", "GdsLibrary")


def names(o):
    out = set(getattr(o, "__dict__", {}))
    for k in type(o).__mro__:
        s = k.__dict__.get("__slots__", ())
        out.update([s] if isinstance(s, str) else s)
    return sorted(n for n in out if not n.startswith("_") and hasattr(o, n))


def isarray(x):
    return hasattr(x, "shape") and hasattr(x, "tolist")


def freeze(x, seen=None):
    """Public state of a value, down to numbers; cells inside are followed, repeated ones by position."""
    seen = {} if seen is None else seen
    if isarray(x):
        if x.shape == ():
            return x.tolist()
        return ["array"] + [freeze(v, seen) for v in x]
    if isinstance(x, (list, tuple)):
        return ["seq"] + [freeze(v, seen) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set", len(x)]
    if isinstance(x, dict):
        return ["dict"] + [[k if isinstance(k, (str, int, tuple)) else "key", freeze(v, seen)] for k, v in x.items()]
    if type(x).__name__ in HOLDER:
        if id(x) in seen:
            return ["again", seen[id(x)]]
        seen[id(x)] = len(seen)
        return [type(x).__name__] + [[n, freeze(getattr(x, n), seen)] for n in names(x)]
    if callable(x):
        return "function"
    return x


def same(cx, a, b, msg):
    if isinstance(a, list):
        cx.check(isinstance(b, list) and len(a) == len(b), msg)
        for u, v in zip(a, b):
            same(cx, u, v, msg)
    elif a is None or b is None:
        cx.check(a is b, msg)
    elif isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        cx.check(a == b, msg)
    elif isinstance(a, tuple):
        cx.check(isinstance(b, tuple) and len(a) == len(b), msg)
        for u, v in zip(a, b):
            same(cx, u, v, msg)
    elif isinstance(a, bool) or isinstance(b, bool):
        cx.check(cx.cond(a) == cx.cond(b), msg)
    elif isinstance(a, numbers.Number) or hasattr(a, "terms") or hasattr(a, "__add__"):
        cx.eq(a, b, msg)
    else:
        cx.check(a is b or a == b, msg)


def spoil(x, seen=None):
    """Changes every list, array, dictionary, set and element reachable in a result (cells are left alone)."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isarray(x):
        if x.shape != () and x.size:
            x += 1
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        x.append("more")
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v, seen)
        x["more"] = 1
    elif isinstance(x, set):
        x.add("more")
    elif type(x).__name__ == "_SubPath":
        x.transform = x.transform * 3
    elif type(x).__name__ in ("CellReference", "CellArray"):
        x.translate(100, 200)
        x.rotation = 12
    elif type(x).__name__ in GEOM:
        for n in names(x):
            spoil(getattr(x, n), seen)
        if type(x).__name__ == "Label":
            x.layer, x.text = 99, "other"


def scene(cx, what, inputs=None):
    """Cell with everything, two levels deep."""
    g = cx.gds
    (x, y), w = inputs or (cx.point("o", -20, 20), cx.real("w", 1, 2))
    A, B, C = cell(cx, "A"), cell(cx, "B"), cell(cx, "C")
    if what in ("polygons", "all"):
        ps = g.PolygonSet([[(x, y), (x + 3, y), (x, y + 2)], [(0, 0), (5, 0), (5, 4), (0, 4)]])
        ps.layers, ps.datatypes, ps.properties = [1, 2], [3, 4], {5: "a"}
        A.add([ps, g.Rectangle((x, y), (x + w, y + 1), 1, 3)])
        A.add(g.Path(w, (x, y), 2, 3).segment(10, "+x", layer=[1, 2], datatype=[3, 4]))
    if what in ("flexpath", "all"):
        A.add(g.FlexPath([(x, y), (x + 20, y), (x + 20, y + 20)], [w, 1], 5, layer=[1, 2], datatype=[3, 4]))
        A.add(g.FlexPath([(x, y), (x + 20, y)], w, layer=1, datatype=3, ends="extended"))
    if what in ("flexgds",):
        A.add(g.FlexPath([(x, y), (x + 20, y), (x + 20, y + 20)], [w, 1], 5, layer=[1, 2], datatype=[3, 4], gdsii_path=True))
        A.add(g.FlexPath([(x, y), (x + 20, y)], w, layer=1, datatype=3, ends=(1, 2), gdsii_path=True))
    if what in ("robustpath", "all"):
        A.add(g.RobustPath((x, y), [w, 1], 5, layer=[1, 2], datatype=[3, 4], max_evals=1024).segment((x + 20, y)))
    if what in ("robustgds",):
        A.add(g.RobustPath((x, y), [w, 1], 5, layer=[1, 2], datatype=[3, 4], max_evals=1024, gdsii_path=True).segment((x + 20, y)))
    if what in ("labels", "all"):
        A.add([g.Label("t", (x, y), "n", 30, 2, True, 1, 3), g.Label("u", (1, 2))])
    B.add(g.CellReference(A, (x, y)))
    B.add(g.Rectangle((0, 0), (1, 1), 2, 4))
    C.add(g.CellReference(B, (3, y), 90, 2, True))
    C.add(g.CellArray(A, 2, 1, (7, x), (y, 3), 180, None, True))
    C.add(g.CellReference(A))
    C.add(g.CellReference("absent", ignore_missing=True))
    return A, B, C


def outputs(cx, f):
    v = f.getvalue()
    return len(v)


QUERIES = {
    "polygons": lambda cx, c: c.get_polygons(),
    "polygons by spec": lambda cx, c: c.get_polygons(True),
    "polygons of a spec": lambda cx, c: c.get_polygons((1, 3)),
    "polygons, depth 0": lambda cx, c: c.get_polygons(depth=0),
    "polygons by spec, depth 1": lambda cx, c: c.get_polygons(True, 1),
    "polygon sets": lambda cx, c: c.get_polygonsets(),
    "polygon sets, depth 0": lambda cx, c: c.get_polygonsets(0),
    "paths": lambda cx, c: c.get_paths(),
    "paths, depth 0": lambda cx, c: c.get_paths(0),
    "labels": lambda cx, c: c.get_labels(),
    "labels transformed": lambda cx, c: c.get_labels(set_transform=True),
    "labels, depth 0": lambda cx, c: c.get_labels(0),
    "area": lambda cx, c: c.area(),
    "area by spec": lambda cx, c: c.area(True),
    "bounding box": lambda cx, c: c.get_bounding_box(),
    "layers": lambda cx, c: [c.get_layers(), c.get_datatypes(), c.get_texttypes(), c.get_svg_classes()],
    "deep copy": lambda cx, c: content(c.copy("X", deep_copy=True)),
    "copy": lambda cx, c: [list(v) for v in content(c.copy("X"))][:0],
    "moved copy": lambda cx, c: content(c.copy("X", translation=(1, 2), rotation=None, scale=2, x_reflection=True)),
}


def content(c):
    return [c.polygons, c.paths, c.labels, c.references]


def gds(cx, c):
    f = cx.bfile()
    c.to_gds(f, 1000)
    return len(f.getvalue())


def libgds(cx, c):
    lib = library(cx)
    lib.add([c] + [d for d in sorted(c.get_dependencies(True), key=lambda d: d.name)])
    f = cx.bfile()
    lib.write_gds(f)
    return len(f.getvalue())


def svg(cx, c):
    f = cx.tfile()
    c.to_svg(f, 10, None, "")
    return len(f.getvalue()) > 0


QUERIES.update({"GDSII output": gds, "library output": libgds, "SVG output": svg})
WHAT = ("polygons", "flexpath", "robustpath", "labels", "flexgds", "robustgds")


def relevant(q, w):
    if q.startswith("labels"):
        return w == "labels"
    if q.startswith("paths"):
        return w in ("flexpath", "robustpath")
    if w in ("flexgds", "robustgds"):
        return q.endswith("output") or q in ("polygons", "deep copy", "paths")
    if q.startswith("area"):
        return w == "polygons"
    return True


@harness("C24", [(q, w) for q in QUERIES for w in WHAT if relevant(q, w)],
         "hierarchy of three cells (placements shifted, turned, reflected, magnified, arrayed, absent) with polygon sets, paths, labels at symbolic places: a query or writer leaves the public state of all cells and elements as it was, its answer does not change when repeated, not even after every array, list, dictionary and element in its result was changed")
def queries(cx, cfg):
    q, what = cfg
    A, B, C = scene(cx, what)
    f = QUERIES[q]
    before = freeze([A, B, C])
    for c in (A, C):
        r = f(cx, c)
        first = freeze(r)
        same(cx, before, freeze([A, B, C]), "state after the query")
        r2 = f(cx, c)
        same(cx, first, freeze(r2), "the same answer again")
        same(cx, first, freeze(r), "earlier answer")
        spoil(r)
        same(cx, before, freeze([A, B, C]), "state after changes of the result")
        same(cx, first, freeze(f(cx, c)), "answer after changes of the result")


@harness("C24", [(q, w) for q in QUERIES for w in ("polygons", "flexpath", "robustpath") if relevant(q, w) and not q.startswith("labels")],
         "after a query, changes of its result and then a change of the source itself, the polygons and the bounding box are those of a hierarchy built anew with that change")
def afterwards(cx, cfg):
    q, what = cfg
    inputs = cx.point("o", -20, 20), cx.real("w", 1, 2)
    A, B, C = scene(cx, what, inputs)
    spoil(QUERIES[q](cx, C))
    spoil(QUERIES[q](cx, A))
    A2, B2, C2 = scene(cx, what, inputs)
    for a in (A, A2):
        for e in a.polygons + a.paths:
            e.translate(2, 3)
        a.add(cx.gds.Rectangle((0, 0), (50, 60), 1, 3))
    same(cx, freeze(C2.get_polygons(True)), freeze(C.get_polygons(True)), "polygons")
    same(cx, freeze(C2.get_polygons()), freeze(C.get_polygons()), "polygons")
    same(cx, freeze(C2.get_bounding_box()), freeze(C.get_bounding_box()), "bounding box")


ELEMENTS = ("polygonset", "path", "flexpath", "flexpath2", "flexends", "robustpath", "robust2", "label", "ref", "array")


def element(cx, kind):
    g = cx.gds
    x, y = cx.point("o", -20, 20)
    w = cx.real("w", 1, 2)
    if kind == "polygonset":
        ps = g.PolygonSet([[(x, y), (x + 3, y), (x, y + 2)], [(0, 0), (5, 0), (5, 4), (0, 4)]])
        ps.layers, ps.datatypes, ps.properties = [1, 2], [3, 4], {5: "a"}
        return ps
    if kind == "path":
        return g.Path(w, (x, y), 2, 3).segment(10, "+x", layer=[1, 2], datatype=[3, 4])
    if kind == "flexpath":
        p = g.FlexPath([(x, y), (x + 20, y), (x + 20, y + 20)], [w, 1], 5, layer=[1, 2], datatype=[3, 4])
        p.properties = {5: "a"}
        return p
    if kind == "flexpath2":
        return g.FlexPath([(x, y), (x + 20, y)], w, layer=1, datatype=3)
    if kind == "flexends":
        return g.FlexPath([(x, y), (x + 20, y), (x + 40, y)], [w, 1], 5, ends=["extended", (1, 2)], corners=["miter", "bevel"])
    if kind == "robustpath":
        p = g.RobustPath((x, y), [w, 1], 5, layer=[1, 2], datatype=[3, 4], max_evals=1024).segment((x + 20, y))
        p.properties = {5: "a"}
        return p
    if kind == "robust2":
        return g.RobustPath((x, y), [w, 1], 5, ends=["extended", (1, 2)], max_evals=1024).segment((x + 20, y)).segment((x + 40, y))
    if kind == "label":
        return g.Label("t", (x, y), "n", 30, 2, True, 1, 3)
    A = cell(cx, "A")
    A.add([g.PolygonSet([[(x, y), (x + 3, y), (x, y + 2)], [(0, 0), (5, 0), (5, 4), (0, 4)]], 1, 3), g.Label("t", (1, y)), g.FlexPath([(x, y), (x + 20, y)], w, layer=1, datatype=3)])
    return g.CellReference(A, (x, 3), 90, 2, True) if kind == "ref" else g.CellArray(A, 2, 1, (7, x), (y, 3), 180, None, True)


def writer(cx, e):
    f = cx.bfile()
    e.to_gds(f, 1000)
    return len(f.getvalue())


def svgwriter(cx, e):
    f = cx.tfile()
    e.to_svg(f, 10, None)
    return len(f.getvalue()) > 0


EQ = {
    "get_polygons": lambda cx, e: e.get_polygons(),
    "get_polygons by spec": lambda cx, e: e.get_polygons(True),
    "get_polygons of a spec": lambda cx, e: e.get_polygons((1, 3)),
    "to_polygonset": lambda cx, e: e.to_polygonset(),
    "get_polygonsets": lambda cx, e: e.get_polygonsets(),
    "get_paths": lambda cx, e: e.get_paths(),
    "get_labels": lambda cx, e: e.get_labels(set_transform=True),
    "area": lambda cx, e: e.area(),
    "area by spec": lambda cx, e: e.area(True),
    "get_bounding_box": lambda cx, e: e.get_bounding_box(),
    "copy": lambda cx, e: cx.gds.copy(e),
    "moved copy": lambda cx, e: cx.gds.copy(e, 1, 2),
    "GDSII": writer,
    "SVG": svgwriter,
    "str": lambda cx, e: len(str(e)) > 0 and len(repr(e)) > 0,
}


def has(kind, q):
    if q in ("copy", "moved copy", "GDSII", "SVG"):
        return True
    if q == "str":
        return kind in ("polygonset", "flexpath", "label", "ref", "array") and False
    if kind in ("ref", "array"):
        return q != "to_polygonset"
    if kind in ("polygonset", "path"):
        return q in ("area", "area by spec", "get_bounding_box")
    if kind == "label":
        return False
    return q in ("get_polygons", "get_polygons by spec", "to_polygonset", "area", "area by spec") and not (q.startswith("area") and kind.startswith("robust"))


@harness("C24", [(k, q) for k in ELEMENTS for q in EQ if has(k, q)],
         "polygon sets, the three kinds of paths, labels, references and arrays with symbolic coordinates by themselves: queries, copies and writers leave them as they are, repeat their answer, and results are independent of the source, in both directions; a copied reference still refers to the same cell")
def elements(cx, cfg):
    kind, q = cfg
    e = element(cx, kind)
    f = EQ[q]
    before = freeze(e)
    r = f(cx, e)
    first = freeze(r)
    same(cx, before, freeze(e), "state after the query")
    if q in ("copy", "moved copy"):
        cx.check(r is not e, "a copy")
        if kind in ("ref", "array"):
            cx.check(r.ref_cell is e.ref_cell, "a copied reference refers to the same cell")
    same(cx, first, freeze(f(cx, e)), "the same answer again")
    if q == "copy":
        same(cx, before, first, "equal to the source")
    spoil(r)
    same(cx, before, freeze(e), "state after changes of the result")
    r = f(cx, e)
    same(cx, first, freeze(r), "answer after changes of the result")
    if hasattr(e, "translate"):
        e.translate(4, 5)
        if kind not in ("ref", "array"):
            if hasattr(e, "scale"):
                e.scale(3)
            if hasattr(e, "mirror"):
                e.mirror((1, 0))
        if q not in ("GDSII", "SVG"):
            same(cx, first, freeze(r), "the result stays when the source changes")


ARGS = ("polygonset", "polygon", "flexpath", "flexpath bulge", "robustpath", "label", "ref", "array", "rectangle", "path", "polypath", "l1path", "curve", "round", "boolean", "inside", "slice", "offset", "mirror", "rotate", "scale", "polygon section", "bezier", "contour", "add", "extract")


@harness("C24", ARGS, "constructors, path commands, transformations and operations leave the lists, arrays and dictionaries they are given as they were, also when the object made from them is changed in place afterwards")
def arguments(cx, kind):
    g = cx.gds
    pts = cx.points("p", 3, -20, 20)
    lst = [list(p) for p in pts]
    arr = cx.array(pts)
    one = cx.array(cx.point("q", -20, 20))
    two = cx.array(cx.point("r", 25, 40))
    ws, offs = [cx.real("w", 1, 2), 1], [-2, 3]
    lay, dat, ends, cor = [1, 2], [3, 4], ["flush", "extended"], ["natural", "miter"]
    line = cx.array([(0, 0), (10, 0), (20, 0)])
    kept = [lst, arr, one, two, ws, offs, lay, dat, ends, cor, line]
    before = freeze(kept)
    made = []
    if kind in ("polygonset", "polygon"):
        made = [g.PolygonSet([lst, arr]), g.PolygonSet((arr, arr))] if kind == "polygonset" else [g.Polygon(lst), g.Polygon(arr)]
    elif kind in ("flexpath", "flexpath bulge"):
        p = g.FlexPath(line, ws, offs, ends=ends, corners=cor, layer=lay, datatype=dat)
        p.segment((10, 0), ws, offs, True)
        if kind == "flexpath bulge":
            p.bezier(line, 0.5, ws, offs)
        made = [p]
    elif kind == "robustpath":
        p = g.RobustPath(one, ws, offs, ends=ends, layer=lay, datatype=dat, max_evals=1024)
        p.segment(two, ws, offs, False)
        p.segment(one, ws, offs, True)
        made = [p]
    elif kind == "label":
        made = [g.Label("t", one)]
    elif kind in ("ref", "array"):
        c = cell(cx, "C")
        c.add(g.Rectangle((0, 0), (1, 1)))
        made = [g.CellReference(c, one, 90, 2, True) if kind == "ref" else g.CellArray(c, 2, 3, two, one, 90, 2, True)]
        made[0].get_polygons()
        made[0].get_bounding_box()
    elif kind == "rectangle":
        made = [g.Rectangle(one, two)]
    elif kind == "round":
        made = [g.Round(one, 5, number_of_points=4), g.Round(one, lay[::-1], dat[::-1], number_of_points=8)]
    elif kind == "path":
        p = g.Path(1, one, 2, 3)
        p.segment(10, "+x", layer=lay, datatype=dat)
        p.polygon(lst) if hasattr(p, "polygon") else None
        made = [p]
    elif kind == "polypath":
        made = [g.PolyPath(line, ws, 2, 5, layer=lay, datatype=dat)]
    elif kind == "l1path":
        turns, lens = [1, -1], [5, 6, 7]
        made = [g.L1Path(one, "+x", 1, lens, turns, layer=lay, datatype=dat)]
        cx.check(turns == [1, -1] and lens == [5, 6, 7], "lists of turns and lengths")
    elif kind == "curve":
        c = g.Curve(one[0], one[1]).L(*[v for p in lst for v in p]).i(lst[:1], [0, 0]) if False else g.Curve(one[0], one[1]).L(*[v for p in lst for v in p])
        made = [g.Polygon(c.get_points())]
        r = c.get_points()
        r += 1
        cx.eq(c.get_points()[0][0], one[0], "points of the curve")
    elif kind in ("boolean", "offset", "inside", "slice"):
        def engine(*a):
            return [tuple(tuple(v) for v in ((0, 0), (1, 0), (0, 1)))]
        cx.clipper(clip=engine, offset=engine, inside=lambda *a: tuple([True] * len(a[0])), _chop=lambda p, cuts, *a: tuple(((tuple(p[0]), tuple(p[1]), tuple(p[2])),) for _ in range(len(list(cuts)) + 1)))
        ops = [arr, lst]
        if kind == "boolean":
            made = [g.boolean(ops, [lst], o) for o in ("or", "and", "not", "xor")] + [g.boolean(ops, None, "or")]
        elif kind == "offset":
            made = [g.offset(ops, 1), g.offset(arr, 1, join_first=True)] if False else [g.offset(ops, 1), g.offset(ops, 1, join_first=True)]
        elif kind == "inside":
            g.inside([one, two], ops)
            g.inside([[one, two], [one]], ops, "any")
        else:
            cuts = [30, -30]
            made = [x for x in g.slice(ops, cuts, 0) if x is not None]
            cx.check(cuts == [30, -30], "positions")
    elif kind in ("mirror", "rotate", "scale"):
        for o in (g.PolygonSet([arr]), g.FlexPath(line, ws, offs), g.RobustPath((0, 0), ws, offs).segment((9, 0)), g.Path(1, one).segment(10, "+x")):
            if kind == "mirror" and not hasattr(o, "mirror"):
                o.transform(one, None, None, True)
            elif kind == "mirror":
                o.mirror(cx.array((0, 0)), line[1])
            elif kind == "rotate":
                o.rotate(cx.pi / 2, one)
            elif type(o).__name__ in ("PolygonSet", "Path"):
                o.scale(2, 2, one)
            else:
                o.scale(2, one)
    elif kind == "polygon section":
        p = g.RobustPath((0, 0), ws, offs, max_evals=1024)
        p.segment((10, 0)).parametric(lambda u: cx.array((10 * u, 0)), lambda u: cx.array((10, 0)), ws, offs)
        made = [p]
    elif kind == "bezier":
        p = g.RobustPath((0, 0), ws, offs, max_evals=1024)
        p.bezier(line[1:], ws, offs)
        q = g.Path(1, (0, 0)).bezier(line[1:], number_of_evaluations=3)
        made = [p, q]
    elif kind == "contour":
        c = cell(cx, "C")
        els = [g.PolygonSet([arr]), g.Label("t", one)]
        n = list(els)
        c.add(els)
        cx.check(len(els) == 2 and els[0] is n[0] and els[1] is n[1], "list of elements")
        c.flatten(single_layer=1, single_datatype=2)
        cx.check(len(els) == 2, "list of elements")
    elif kind == "add":
        lib = library(cx)
        cells = [cell(cx, "C"), cell(cx, "D")]
        lib.add(cells)
        lib.remove("C")
        cx.check(len(cells) == 2, "list of cells")
        c = cell(cx, "E")
        f = cx.bfile()
        lib.add(c)
        lib.write_gds(f, cells=cells)
        cx.check(len(cells) == 2, "list of cells")
    else:
        ps = g.PolygonSet([arr])
        ps.layers, ps.datatypes = [1], [2]
        ps.fracture(max_points=5)
        made = [ps]
    same(cx, before, freeze(kept), "arguments")
    for m in made:
        if m is None:
            continue
        m.translate(1, 2)
        for op in ("scale", "rotate"):
            if hasattr(m, op) and type(m).__name__ not in ("Label", "CellReference", "CellArray"):
                getattr(m, op)(2 if op == "scale" else cx.pi)
        for n in ("layers", "datatypes", "ends", "corners"):
            v = getattr(m, n, None)
            if isinstance(v, list) and v:
                v[0] = 9
    same(cx, before, freeze(kept), "arguments after changes of the object")
