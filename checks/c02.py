"""C02: every written stream is a well-formed record sequence."""
from symex.ctx import harness
from .io import library, cell, written, grammar, padded, UNITS

ASSUMPTIONS = ["8-byte reals are eight opaque bytes here (their contents are C01)", "the grammar is the one of the GDSII specification, written down in checks/io.py independently of gdspy"]


def props(cx, tag, k, lens):
    return {cx.int("a%s%d" % (tag, i), 1 + 30 * i, 30 + 30 * i): cx.text("p%s%d" % (tag, i), n, 1, 127) for i, n in enumerate(lens[:k])}


def check_props(cx, el, want):
    cx.check(len(el.props) == len(want), "property count")
    for (a, v), (wa, wv) in zip(el.props, want.items()):
        cx.eq(cx.unpack(">h", a)[0], wa, "property attribute")
        padded(cx, v, wv, "property value")


def opts(cx):
    rot = cx.angle_deg("rot", -360, 360) if cx.flag("has_rot") else None
    mag = cx.real("mag", 0.01, 100) if cx.flag("has_mag") else None
    return rot, mag, cx.flag("xr")


def stream_of(cx, lib, cells, way):
    if way == "library":
        return written(cx, lib).getvalue()
    f = cx.bfile()
    if way == "writer":
        w = cx.gds.GdsWriter(f, lib.name, unit=lib.unit, precision=lib.precision)
        for c in cells:
            w.write_cell(c)
        w.close()
    elif way == "binary":
        b = cx.gds.get_binary_cells(written(cx, lib))
        lib2 = cx.gds.GdsLibrary(lib.name, unit=lib.unit, precision=lib.precision)
        lib2.write_gds(f, binary_cells=[b[c.name] for c in cells])
    elif way == "names":
        lib.write_gds(f, cells=[c.name for c in cells])
    cx.check(not f.closed, "caller's stream was closed")
    return f.getvalue()


def near(cx, k, v, msg):
    """k is an integer nearest to v"""
    cx.le(k - v, 0.5, msg, 1e-4)
    cx.le(v - k, 0.5, msg, 1e-4)


def check_xy(cx, el, pts, m, msg):
    xy = el.xy(cx)
    cx.check(len(xy) == len(pts), "%s: %d vertices instead of %d" % (msg, len(xy), len(pts)))
    for i, (a, b) in enumerate(zip(xy, pts)):
        for k in (0, 1):
            near(cx, a[k], b[k] * m, "%s: vertex %d" % (msg, i))


def single(cx, el, t, fmt, want, msg):
    got = el.all(t)
    cx.check(len(got) == 1, msg + " record")
    cx.eq(cx.unpack(fmt, got[0])[0], want, msg)


WAYS = ["library", "writer", "binary", "names"]


@harness("C02", [(w, 1 + i, 2 - i % 2) for i, w in enumerate(WAYS)] + [("library", 2, 31), ("writer", 32, 2)],
         "a library and a cell with names of the configured lengths (any printable characters), a polygon set of a triangle and a quadrilateral with 0..2 properties of odd and even length, any layers and coordinates; written the configured way (library, GdsWriter, binary cells, by cell name)")
def polygons(cx, cfg):
    way, ln, cn = cfg
    g = cx.gds
    lib = library(cx, name=cx.text("lib", ln, 33, 126))
    name = "N" * cn
    c, e = cell(cx, name), cell(cx, "E")
    la, da = [cx.int("l%d" % i, 0, 32767) for i in range(2)], [cx.int("d%d" % i, 0, 32767) for i in range(2)]
    P = [cx.points("p", 3), cx.points("q", 4)]
    ps = g.PolygonSet(P)
    ps.layers, ps.datatypes = list(la), list(da)
    k = cx.choice("k", range(3))
    pr = props(cx, "", k, (3, 2))
    ps.properties = dict(pr)
    c.add(ps)
    lib.add([c, e])
    ln_, un, cells = grammar(cx, stream_of(cx, lib, [c, e], way))
    padded(cx, ln_, lib.name, "library name")
    cx.check(len(cells) == 2, "cell count")
    # the order of the cells is not specified
    cells.sort(key=lambda t: -len(t[1]))
    padded(cx, cells[0][0], name, "cell name")
    padded(cx, cells[1][0], "E", "cell name")
    cx.check(len(cells[0][1]) == 2 and not cells[1][1], "element count")
    for i, el in enumerate(cells[0][1]):
        cx.check(el.kind == 0x08, "boundary")
        single(cx, el, 0x0D, ">h", la[i], "layer")
        single(cx, el, 0x0E, ">h", da[i], "datatype")
        check_xy(cx, el, P[i] + [P[i][0]], 1000, "boundary")
        check_props(cx, el, pr)


@harness("C02", [(n, u) for n in (0, 1, 2, 5) for u in ("um/nm", "1:128")], "a label with a text of the configured length, every combination of rotation, magnification and reflection, any anchor, layer, texttype, position, followed by a plain one")
def labels(cx, cfg):
    n, u = cfg
    g = cx.gds
    lib, c = library(cx, u), cell(cx, "TOP")
    rot, mag, xr = opts(cx)
    text = cx.text("t", n, 1, 127) if n else ""
    anchor = cx.choice("an", ["nw", "o", "se"])
    o = cx.point("o")
    l = g.Label(text, o, anchor, rot, mag, xr, cx.int("l", 0, 32767), cx.int("tt", 0, 32767))
    pr = props(cx, "", cx.choice("k", range(2)), (1, 2))
    l.properties = dict(pr)
    c.add([l, g.Label("ab", (1, 2))])
    lib.add(c)
    _, _, cells = grammar(cx, written(cx, lib).getvalue())
    els = cells[0][1]
    cx.check(len(els) == 2, "element count")
    for el, t, ro, ma, x, p, pp in ((els[0], text, rot, mag, xr, pr, o), (els[1], "ab", None, None, False, {}, (1, 2))):
        cx.check(el.kind == 0x0C, "text element")
        padded(cx, el.all(0x19)[0], t, "text")
        if x:
            cx.check(len(el.all(0x1A)) == 1 and cx.cond(cx.unpack(">H", el.all(0x1A)[0])[0] == 0x8000), "reflection flag")
        else:
            cx.check(all(cx.cond(cx.unpack(">H", f)[0] == 0) for f in el.all(0x1A)), "no reflection flag")
        cx.check(len(el.all(0x1B)) == (ma is not None) and len(el.all(0x1C)) == (ro is not None), "magnification and angle records")
        check_props(cx, el, p)
        check_xy(cx, el, [pp], UNITS[u][0] / UNITS[u][1], "text position")


@harness("C02", [(k, n) for k in ("ref", "array") for n in (1, 2, 31)], "a reference or array, by object and by name (of the configured length), every combination of rotation, magnification and reflection, any origin, counts and spacing")
def references(cx, cfg):
    kind, n = cfg
    g = cx.gds
    lib, c = library(cx), cell(cx, "TOP")
    rot, mag, xr = opts(cx)
    name = "S" * n
    sub = cell(cx, name) if cx.flag("object") else name
    o = cx.point("o", -100, 100)
    if kind == "ref":
        r = g.CellReference(sub, o, rot, mag, xr, ignore_missing=True)
    else:
        cols, rows = cx.int("cols", 1, 32767), cx.int("rows", 1, 32767)
        r = g.CellArray(sub, cols, rows, cx.point("s", -1, 1), o, rot, mag, xr, ignore_missing=True)
    pr = props(cx, "", cx.choice("k", range(2)), (1, 2))
    r.properties = dict(pr)
    c.add(r)
    lib.add(c, include_dependencies=False)
    _, _, cells = grammar(cx, written(cx, lib).getvalue())
    (_, els), = cells
    cx.check(len(els) == 1 and els[0].kind == (0x0A if kind == "ref" else 0x0B), "element kind")
    el = els[0]
    padded(cx, el.all(0x12)[0], name, "referenced name")
    xy = el.xy(cx)
    cx.check(len(xy) == (1 if kind == "ref" else 3), "coordinates")
    for k in (0, 1):
        near(cx, xy[0][k], o[k] * 1000, "origin")
    cx.check(bool(el.all(0x1A)) or (rot is None and mag is None and not xr), "transformation flags")
    if el.all(0x1A):
        cx.check(cx.cond(cx.unpack(">H", el.all(0x1A)[0])[0] == (0x8000 if xr else 0)), "reflection flag")
    cx.check(len(el.all(0x1B)) == (mag is not None) and len(el.all(0x1C)) == (rot is not None), "magnification and angle records")
    if kind == "array":
        a = cx.unpack(">2h", el.all(0x13)[0])
        cx.eq(a[0], cols, "columns")
        cx.eq(a[1], rows, "rows")
    check_props(cx, el, pr)


@harness("C02", [(k, e) for k in ("flex", "robust") for e in ("flush", "round", "smooth", "extended", "tuple")] + [("flex", "callable"), ("flexpoly", "flush"), ("robustpoly", "flush"), ("flexpoly", "tuple")],
         "a path of two parallel elements along one segment of symbolic length, symbolic width and offset, with 0..1 properties; configured end type; as path element or as polygons, before polygons, labels and references in the same cell")
def paths(cx, cfg):
    kind, e = cfg
    g = cx.gds
    lib, c = library(cx), cell(cx, "TOP")
    x, L = (cx.point("p", -100, 100), cx.real("L", 1, 100)) if kind != "robustpoly" else ((20, -30), 10)
    end = {"tuple": (0.25, cx.real("ee", -0.5, 5)), "callable": lambda p0, v0, p1, v1: [p0, p1]}.get(e, e)
    w = cx.real("w", 0.01, 0.4) if kind != "robustpoly" else 0.25
    gp = not kind.endswith("poly")
    if kind.startswith("flex"):
        q = g.FlexPath([x, (x[0] + L, x[1])], [w, 0.5], [0, 1], ends=end, layer=[1, 2], datatype=[3, 4], gdsii_path=gp)
    else:
        q = g.RobustPath(x, [w, 0.5], [0, 1], ends=end, layer=[1, 2], datatype=[3, 4], gdsii_path=gp, tolerance=1e-3)
        q.segment((x[0] + L, x[1]))
    pr = props(cx, "", cx.choice("k", range(2)), (1, 2))
    q.properties = dict(pr)
    c.add([g.Rectangle((0, 0), (1, 1)), g.Label("a", (0, 0)), g.CellReference("NONE", ignore_missing=True), q])
    lib.add(c, include_dependencies=False)
    _, _, cells = grammar(cx, written(cx, lib).getvalue())
    els = [el for el in cells[0][1]]
    cx.check(len(els) == 5, "element count")
    mine = [el for el in els if el.kind == (0x09 if gp else 0x08) and not (el.kind == 8 and cx.cond(cx.unpack(">h", el.all(0x0D)[0])[0] == 0))]
    cx.check(len(mine) == 2, "path elements")
    for i, el in enumerate(mine):
        single(cx, el, 0x0D, ">h", i + 1, "layer")
        single(cx, el, 0x0E, ">h", i + 3, "datatype")
        check_props(cx, el, pr)
        if gp:
            cx.check(len(el.xy(cx)) == 2, "spine vertices")
            pt = {"flush": 0, "round": 1, "smooth": 1, "extended": 2, "tuple": 4, "callable": 0}[e]
            single(cx, el, 0x21, ">h", pt, "path type")
            cx.check(len(el.all(0x30)) == (pt == 4) and len(el.all(0x31)) == (pt == 4), "extension records")
        else:
            xy = el.xy(cx)
            cx.check(len(xy) >= 5, "boundary vertices")
            for k in (0, 1):
                cx.eq(xy[0][k], xy[-1][k], "closing vertex")


@harness("C02", [(k, n) for k, ns in (("polygon", (8189, 8190, 8191, 16379, 16380)), ("flexpath", (8190, 8191, 8192, 16382, 16383)), ("robustpath", (8192,))) for n in ns],
         "vertex lists of the configured length around the limits of one record; the vertices at the record boundaries, the first and the last have symbolic coordinates, the others are distinct constants", timeout=300)
def split(cx, cfg):
    kind, n = cfg
    g = cx.gds
    pts = [(float(i % 1000), float(i // 1000)) for i in range(n)]
    for i in {0, 1, 8188, 8189, 8190, 8191, n - 1}:
        if i < n and kind != "robustpath":
            pts[i] = (pts[i][0], pts[i][1] + cx.real("d%d" % i, 0.1, 0.2))
    lib, c = library(cx), cell(cx, "TOP")
    if kind == "polygon":
        q = g.Polygon(pts)
        want = pts + pts[:1]
    elif kind == "flexpath":
        q = g.FlexPath(pts, 0.1, gdsii_path=True)
        want = pts
    else:
        q = g.RobustPath((0, 0), 0.1, gdsii_path=True, tolerance=1e-9, max_evals=n)
        q.parametric(lambda u: cx.np.array((100 * u, 50 * u * u)), lambda u: cx.np.array((100.0, 100.0 * u)))
        dx = cx.real("dx", 0, 1)
        q.translate(dx, 0)
        want = None
    q.properties = {1: "a", 2: "bb"}
    c.add(q)
    lib.add(c)
    _, _, cells = grammar(cx, written(cx, lib).getvalue())
    (el,) = cells[0][1]
    xy = el.xy(cx)
    if want is None:
        cx.check(len(xy) == n, "%d vertices instead of %d" % (len(xy), n))
        near(cx, xy[0][0], dx * 1000, "first vertex")
        near(cx, xy[-1][0], (dx + 100) * 1000, "last vertex")
        near(cx, xy[-1][1], 50000, "last vertex")
        cx.check(all(cx.cond(b[1] >= a[1]) for a, b in zip(xy, xy[1:])), "vertices in order")
        return
    cx.check(len(xy) == len(want), "%d vertices instead of %d" % (len(xy), len(want)))
    for i, (a, b) in enumerate(zip(xy, want)):
        for k in (0, 1):
            if isinstance(b[k], float) and isinstance(a[k], int):
                if a[k] != round(b[k] * 1000):
                    cx.check(False, "vertex %d" % i)
            else:
                near(cx, a[k], b[k] * 1000, "vertex %d" % i)
    check_props(cx, el, {1: "a", 2: "bb"})


@harness("C02", [None], "many properties (more than 128 bytes), each of odd or even length, on each kind of element")
def many_properties(cx, _=None):
    g = cx.gds
    pr = {i + 1: "v" * (20 + i) for i in range(9)}
    pr[cx.int("a", 100, 126)] = cx.text("t", 3, 1, 127)
    els = [g.Rectangle((0, 0), (1, 1)), g.FlexPath([(0, 0), (2, 0)], 1, gdsii_path=True), g.Label("x", (0, 0)),
           g.CellReference("N", ignore_missing=True), g.CellArray("N", 2, 2, (1, 1), ignore_missing=True)]
    r = g.RobustPath((0, 0), 1, gdsii_path=True)
    r.segment((3, 0))
    els.append(r)
    lib, c = library(cx), cell(cx, "TOP")
    for e in els:
        e.properties = dict(pr)
    c.add(els)
    lib.add(c, include_dependencies=False)
    _, _, cells = grammar(cx, written(cx, lib).getvalue())
    cx.check(len(cells[0][1]) == len(els), "element count")
    for el in cells[0][1]:
        check_props(cx, el, pr)


@harness("C02", ["library", "writer", "paths"], "libraries without cells, cells without elements, elements without points, written to an open stream or a path: the stream ends with exactly one end-of-library record")
def empty(cx, how):
    g = cx.gds
    x = cx.int("x", 0, 9)
    lib = library(cx, name=cx.choice("n", ["A", "AB"]))
    c = cell(cx, "C")
    if how == "paths":
        c.add([g.FlexPath([], 1, gdsii_path=True), g.RobustPath((x, 0), 1, gdsii_path=True), g.PolygonSet([]), g.Path(1, (x, 1))])
    cells = [c] if cx.flag("cell") or how == "paths" else []
    lib.add(cells)
    p = cx.file("o.gds", b"")
    if how == "writer":
        w = g.GdsWriter(p, lib.name)
        for k in cells:
            w.write_cell(k)
        w.close()
    else:
        lib.write_gds(p)
    name, _, got = grammar(cx, cx.filedata(p))
    padded(cx, name, lib.name, "library name")
    cx.check(len(got) == len(cells) and all(not els for _, els in got), "contents")
