"""C22: filters and listings of cells."""
from symex.ctx import harness
from .geom import shoelace2
from .io import cell

KINDS = ("polygonset", "rectangle", "path", "mixed")


def content(cx, kind):
    """Elements with their polygons: list of (element, [(points, layer, datatype), ...])."""
    g = cx.gds
    out = []

    def put(e):
        out.append((e, [(([(v[0], v[1]) for v in p]), l, d) for p, l, d in zip(e.polygons, e.layers, e.datatypes)]))

    def spec(n):
        return cx.int("l" + n, 0, 3), cx.int("d" + n, 0, 3)
    if kind in ("polygonset", "mixed"):
        n = 3 if kind == "polygonset" else 2
        ps = g.PolygonSet([cx.points("p%d_" % i, 3, -50, 50) for i in range(n)])
        sp = [spec("p%d" % i) for i in range(n)]
        ps.layers, ps.datatypes = [s[0] for s in sp], [s[1] for s in sp]
        ps.properties = {1: "kept"}
        put(ps)
    if kind in ("rectangle", "mixed"):
        l, d = spec("r")
        put(g.Rectangle(cx.point("ra", -50, 50), cx.point("rb", -50, 50), l, d))
    if kind == "rectangle":
        l, d = spec("q")
        put(g.Polygon(cx.points("q", 3, -50, 50), l, d))
    if kind == "path":
        l, d = spec("a")
        l2, d2 = spec("b")
        p = g.Path(1, cx.point("s", -50, 50), 2, 5)
        p.segment(10, "+x", layer=[l, l2], datatype=[d, d2])
        put(p)
    return out


def predicate(cx, by, ps=None):
    if by == "layer":
        k = cx.int("k", 0, 3)
        return lambda pts, l, d: l == k
    if by == "datatype":
        k = cx.int("k", 0, 3)
        return lambda pts, l, d: d != k
    if by == "spec":
        return lambda pts, l, d: cx.and_(l == 1, d == 2)
    if by == "all":
        return lambda pts, l, d: True
    if by == "none":
        return lambda pts, l, d: False
    x = cx.real("x", -50, 50)
    return lambda pts, l, d: pts[0][0] < x


@harness("C22", [(k, by) for k in KINDS for by in ("layer", "datatype", "spec", "points", "all", "none")],
         "cell of a set of 3 polygons, of a rectangle and a polygon, of a path with 2 parallel paths, or mixed: remove_polygons with 6 predicates on symbolic points, layers (0-3) and datatypes (0-3): exactly the matching polygons go, the others stay with layer, datatype and properties in order; labels, paths and references stay")
def polygons(cx, cfg):
    kind, by = cfg
    els = content(cx, kind)
    c, child = cell(cx, "C"), cell(cx, "CH")
    lab = cx.gds.Label("t", (1, 2), layer=1, texttype=2)
    fp = cx.gds.FlexPath([(0, 0), (5, 0)], 1, layer=1, datatype=2)
    ref = cx.gds.CellReference(child)
    c.add([e for e, _ in els])
    c.add([lab, fp, ref])
    test = predicate(cx, by)
    calls = []

    def counted(pts, l, d):
        calls.append(1)
        cx.check(hasattr(pts, "shape"), "the predicate is given an array")
        return test(pts, l, d)
    r = c.remove_polygons(counted)
    cx.check(r is c, "returns its object")
    cx.check(len(calls) == sum(len(ps) for _, ps in els), "the predicate is called once for each polygon")
    want = [(e, [t for t in ps if not cx.cond(test(*t))]) for e, ps in els]
    want = [(e, ps) for e, ps in want if ps]
    cx.check(len(c.polygons) == len(want) and all(a is e for a, (e, _) in zip(c.polygons, want)), "elements left")
    for e, ps in want:
        cx.check(len(e.polygons) == len(e.layers) == len(e.datatypes) == len(ps), "polygons left")
        for a, l, d, (p, wl, wd) in zip(e.polygons, e.layers, e.datatypes, ps):
            cx.eqpts(a, p, "polygon left")
            cx.eq(l, wl, "layer of a polygon left")
            cx.eq(d, wd, "datatype of a polygon left")
        if kind in ("polygonset", "mixed") and len(e.polygons[0]) == 3:
            cx.check(e.properties == {1: "kept"}, "properties")
    cx.check(c.labels == [lab] and c.paths == [fp] and c.references == [ref], "other elements stay")


AFTER = ("query", "gds", "copy", "flatten", "fillet", "transform", "fracture", "extend", "add", "again")


@harness("C22", [(a, k) for a in AFTER for k in ("polygonset", "path")],
         "cell and elements after a removal by layer: queries, GDSII output, copy, flattening, in-place changes, extension and further removals work on what is left",
         )
def usable(cx, cfg):
    after, kind = cfg
    g = cx.gds
    c = cell(cx, "C")
    x = cx.real("x", -50, 50)
    if kind == "path":
        e = g.Path(1, (x, 0), 2, 5)
        e.segment(10, "+x", layer=[1, 2], datatype=[3, 4])
    else:
        e = g.PolygonSet([[(x, 0), (x + 4, 0), (x + 4, 8), (x, 8)], [(0, 0), (9, 0), (9, 7), (0, 7)]])
        e.layers, e.datatypes = [1, 2], [3, 4]
    c.add(e)
    left = [(v[0], v[1]) for v in e.polygons[0]]
    c.get_bounding_box()
    c.remove_polygons(lambda pts, l, d: l == 2)
    cx.check(len(c.polygons) == 1, "one element left")
    e = c.polygons[0]
    if after == "query":
        cx.eqpolys(c.get_polygons(), [left], "polygons")
        by = c.get_polygons(True)
        cx.check(list(by) == [(1, 3)], "polygons by layer and datatype")
        cx.eqpolys(by[(1, 3)], [left], "polygons")
        cx.eqpolys(c.get_polygonsets()[0].polygons, [left], "polygon sets")
        a = shoelace2(left)
        a = -a if cx.cond(a < 0) else a
        cx.eq(c.area() * 2, a, "area")
        bb = c.get_bounding_box()
        for k in (0, 1):
            cx.eq(bb[0][k], cx.min(*[v[k] for v in left]), "bounding box")
            cx.eq(bb[1][k], cx.max(*[v[k] for v in left]), "bounding box")
        cx.check(set(c.get_layers()) == {1} and set(c.get_datatypes()) == {3}, "layers and datatypes")
    elif after == "gds":
        f = cx.bfile()
        e.to_gds(f, 1)
        cx.check(len(f.getvalue()) > 0, "output")
        c.to_gds(f, 1)
    elif after == "copy":
        d = c.copy("D", deep_copy=True)
        d.polygons[0].translate(1, 2)
        d.polygons[0].layers[0] = 9
        cx.eqpolys(c.get_polygons(), [left], "source of the copy")
        cx.eqpolys(d.get_polygons(), [[(v[0] + 1, v[1] + 2) for v in left]], "copy")
        cx.check(list(c.polygons[0].layers) == [1], "layer of the source")
    elif after == "flatten":
        c.flatten(single_layer=5, single_datatype=6)
        cx.eqpolys(c.get_polygons(), [left], "polygons")
        cx.check(list(c.get_polygons(True)) == [(5, 6)], "layer")
    elif after == "fillet":
        e.fillet(0.25, points_per_2pi=4)
        cx.check(len(e.polygons) == 1 and len(e.polygons[0]) >= 4, "fillet")
    elif after == "transform":
        e.translate(3, 4).scale(2)
        cx.eqpolys(e.polygons, [[((v[0] + 3) * 2, (v[1] + 4) * 2) for v in left]], "transformed")
        e.mirror((1, 0))
        cx.eqpolys(e.polygons, [[((v[0] + 3) * 2, -(v[1] + 4) * 2) for v in left]], "mirrored")
    elif after == "fracture":
        e.fracture(max_points=0)
        e.fracture(max_points=12)
        cx.eqpolys(e.polygons, [left], "fracture")
    elif after == "extend":
        if kind == "path":
            e.segment(7, layer=5, datatype=6)
            cx.check(len(e.polygons) == 3 and list(e.layers) == [1, 5, 5] and list(e.datatypes) == [3, 6, 6], "further section")
        else:
            e.polygons.append(cx.array([(0, 0), (1, 0), (0, 1)]))
            e.layers.append(5)
            e.datatypes.append(6)
            cx.check(set(c.get_layers()) == {1, 5}, "further polygon")
    elif after == "add":
        c.add(g.Rectangle((0, 0), (1, 1), 2, 4))
        cx.eqpolys(c.get_polygons()[:1], [left], "polygons")
        cx.check(len(c.get_polygons()) == 2 and set(c.get_layers()) == {1, 2}, "added polygon")
    else:
        c.remove_polygons(lambda pts, l, d: l == 2)
        cx.eqpolys(c.get_polygons(), [left], "nothing else removed")
        c.remove_polygons(lambda pts, l, d: l == 1)
        cx.check(c.polygons == [] and len(c.get_polygons()) == 0 and c.get_bounding_box() is None and c.area() == 0, "empty cell")


@harness("C22", [(w, n) for w in ("labels", "paths") for n in (1, 2, 3)],
         "remove_labels and remove_paths with a predicate on symbolic layers, texts and positions: exactly the matching ones go, the order of the others and all other elements stay")
def labels_paths(cx, cfg):
    what, n = cfg
    g = cx.gds
    c = cell(cx, "C")
    k = cx.int("k", 0, 3)
    x = cx.real("x", -50, 50)
    labs = [g.Label("t%d" % i, cx.point("L%d" % i, -50, 50), layer=cx.int("ll%d" % i, 0, 3)) for i in range(n)]
    pths = [g.FlexPath([(cx.real("P%d" % i, -50, 50), i), (90, i)], 1, layer=cx.int("pl%d" % i, 0, 3)) if i != 1 else g.RobustPath((0, 0), 1, layer=cx.int("pl%d" % i, 0, 3)).segment((5, 5)) for i in range(n)]
    rect = g.Rectangle((0, 0), (1, 1))
    c.add(rect)
    c.add(labs)
    c.add(pths)
    calls = []
    if what == "labels":
        test = lambda l: cx.or_(l.layer == k, l.position[0] < x)
    else:
        test = lambda p: p.layers[0] == k

    def counted(e):
        calls.append(e)
        return test(e)
    els = labs if what == "labels" else pths
    want = [e for e in els if not cx.cond(test(e))]
    r = (c.remove_labels if what == "labels" else c.remove_paths)(counted)
    cx.check(r is c, "returns its object")
    cx.check(len(calls) == n and all(a is b for a, b in zip(calls, els)), "the predicate is called once for each element")
    got = c.labels if what == "labels" else c.paths
    cx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "elements left")
    other = c.paths if what == "labels" else c.labels
    cx.check(other == (pths if what == "labels" else labs) and c.polygons == [rect], "other elements stay")
    bb = c.get_bounding_box()
    if what == "paths" and not want:
        cx.eq(bb[1][0], 1, "bounding box")
    got2 = c.copy("D", deep_copy=True)
    cx.check(len(got2.labels) == len(c.labels) and len(got2.paths) == len(c.paths), "copy")


def same_set(cx, got, want, msg):
    """Equality of sets of symbolic values (or tuples of them)."""
    got, want = list(got), list(want)
    tup = lambda v: v if isinstance(v, tuple) else (v,)

    def eq(a, b):
        return cx.and_(*[x == y for x, y in zip(tup(a), tup(b))])
    for a in want:
        cx.check(cx.or_(*[eq(a, b) for b in got]) if got else False, msg + ": listed")
    for i, a in enumerate(got):
        cx.check(cx.or_(*[eq(a, b) for b in want]) if want else False, msg + ": exists")
        for b in got[:i]:
            cx.check(cx.not_(eq(a, b)), msg + ": listed once")


@harness("C22", [(w, r) for w in ("polygons", "flexpath", "robustpath", "label") for r in ("none", "ref", "array", "deep", "missing")] + [("all", "none")],
         "layers, datatypes, texttypes and SVG classes of cells with polygons, paths and labels of symbolic layers and types, by themselves, below a reference or an array, two levels down, or beside a reference to an absent cell")
def listings(cx, cfg):
    what, ref = cfg
    g = cx.gds
    cx.hashkeys(7, 8)
    A = cell(cx, "A")
    layers, types, texttypes, ld, lt = [], [], [], [], []

    def spec(n):
        l, d = cx.int("l" + n, 0, 255), cx.int("d" + n, 0, 255)
        return l, d
    if what in ("polygons", "all"):
        l, d = spec("p")
        ps = g.PolygonSet([[(0, 0), (1, 0), (0, 1)], [(0, 0), (2, 0), (0, 2)]])
        ps.layers, ps.datatypes = [l, 7], [8, d]
        A.add(ps)
        layers += [l, 7]
        types += [8, d]
        ld += [(l, 8), (7, d)]
    if what in ("flexpath", "robustpath"):
        l, d = spec("f")
        if what == "flexpath":
            A.add(g.FlexPath([(0, 0), (9, 0)], [1, 1], 3, layer=[l, 7], datatype=[8, d]))
        else:
            A.add(g.RobustPath((0, 0), [1, 1], 3, layer=[l, 7], datatype=[8, d]).segment((9, 0)))
        layers += [l, 7]
        types += [8, d]
        ld += [(l, 8), (7, d)]
    if what in ("label", "all"):
        l, d = spec("t")
        A.add(g.Label("t", (0, 0), layer=l, texttype=d))
        layers += [l]
        texttypes += [d]
        lt += [(l, d)]
    if what == "all":
        A.add(g.FlexPath([(0, 0), (9, 0)], 1, layer=7, datatype=7))
        layers += [7]
        types += [7]
        ld += [(7, 7)]
    top = A
    if ref in ("ref", "array", "deep"):
        top = cell(cx, "B")
        top.add(g.CellArray(A, 2, 3, (5, 5)) if ref == "array" else g.CellReference(A, (1, 2), rotation=90))
        top.add(g.Rectangle((0, 0), (1, 1), 8, 7))
        top.add(g.Label("u", (0, 0), layer=8, texttype=7))
        layers += [8]
        types += [7]
        texttypes += [7]
        ld += [(8, 7)]
        lt += [(8, 7)]
    if ref == "deep":
        B, top = top, cell(cx, "C")
        top.add([g.CellReference(B), g.CellArray(A, 1, 1, (0, 0))])
    if ref == "missing":
        top.add(g.CellReference("absent", ignore_missing=True))
    for _ in range(2):
        same_set(cx, top.get_layers(), layers, "layers")
        same_set(cx, top.get_datatypes(), types, "datatypes")
        same_set(cx, top.get_texttypes(), texttypes, "texttypes")
        a, b = top.get_svg_classes()
        same_set(cx, a, ld, "SVG classes of polygons and paths")
        same_set(cx, b, lt, "SVG classes of labels")
    top.get_layers().add(99)
    cx.check(len([1 for l in top.get_layers() if cx.cond(l == 99)]) == len([1 for l in A.get_layers() if cx.cond(l == 99)]), "the caller's set is not shared")
