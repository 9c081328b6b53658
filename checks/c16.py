"""C16: boolean, offset, inside and copy hand exactly their operands' polygons to the clipping engine and return its answer."""
from symex.ctx import harness
from .geom import placement, translation
from .io import cell
from .c15 import Chop, shape

ASSUMPTIONS = ["the clipping engine returns any list of polygons; its own result is the subject of C25 and C26"]
KINDS = ["none", "empty", "set", "rect", "path", "flex", "robust", "ref", "array", "pts", "arrays", "mix", "mix2", "tuple"]


class Operand:
    """An operand of the given kind with the polygons it denotes."""

    def __init__(self, cx, kind, name, few=False):
        g = cx.gds
        self.cx, self.kind = cx, kind
        self.arg, self.want, self.watch = None, [], []
        if kind == "none":
            return
        if kind in ("mix", "mix2", "tuple"):
            subs = {"mix": ("flex", "ref", "pt1", "set"), "mix2": ("robust", "array", "rect", "flex"), "tuple": ("rect", "pt1")}[kind]
            o = [Operand(cx, k, name + k, True) for k in subs]
            self.arg = [x.arg for x in o]
            if kind == "tuple":
                self.arg = tuple(self.arg)
            self.want = [p for x in o for p in x.want]
            self.watch = [w for x in o for w in x.watch]
            return
        if kind == "empty":
            self.arg = []
            return
        pts = cx.points(name + "p", 3, -50, 50)
        quad = [(1, 2), (9, 3), (8, 8), (0, 5)]
        if kind == "set":
            self.arg = g.PolygonSet([pts, quad], 7, 8)
            self.want = [pts, quad]
            self.watch = [(self.arg.polygons, self.want)]
        elif kind == "rect":
            b = (pts[0][0] + 5, pts[0][1] + 4)
            self.arg = g.Rectangle(pts[0], b, 7, 8)
            self.want = [[pts[0], (pts[0][0], b[1]), b, (b[0], pts[0][1])]]
            self.watch = [(self.arg.polygons, [[v for v in p] for p in self.arg.polygons])]
        elif kind == "path":
            w = cx.real(name + "w", 1, 2)
            self.arg = g.Path(w, pts[0]).segment(10, "+x")
            x, y = pts[0]
            self.want = [[(x, y + w / 2), (x + 10, y + w / 2), (x + 10, y - w / 2), (x, y - w / 2)]]
            self.watch = [(self.arg.polygons, [[v for v in p] for p in self.arg.polygons])]
        elif kind in ("flex", "robust"):
            w, l = cx.real(name + "w", 1, 2), cx.real(name + "l", 1, 30)
            x, y = 3, -7
            if kind == "flex":
                self.arg = g.FlexPath([(x, y), (x + l, y)], w, layer=7, datatype=8)
            else:
                self.arg = g.RobustPath((x, y), 0.5, layer=7, datatype=8).segment((13, y))
                w, l = 0.5, 10
            self.want = [[(x, y + w / 2), (x + l, y + w / 2), (x + l, y - w / 2), (x, y - w / 2)]]
        elif kind in ("ref", "array"):
            c = cell(cx, name + "C")
            ps = g.PolygonSet([pts] if few else [pts, quad], 7, 8)
            c.add(ps)
            o, r, m = cx.point(name + "o", -50, 50), cx.angle_deg(name + "r"), cx.real(name + "m", 0.5, 2)
            A = placement(cx, None, r, m, True)
            if kind == "ref":
                self.arg = g.CellReference(c, o, r, m, True)
                ds = [(0, 0)]
            else:
                s = cx.point(name + "s", -50, 50)
                self.arg = g.CellArray(c, 2, 1, s, o, r, m, True)
                ds = [(0, 0), placement(cx, None, r, None, True)((s[0], 0))]
            for d in ds:
                B = A.then(translation(o[0] + d[0], o[1] + d[1]))
                self.want += [[B(v) for v in p] for p in ([pts] if few else [pts, quad])]
            self.watch = [(ps.polygons, [pts] if few else [pts, quad])]
        elif kind == "pt1":
            self.arg = pts
            self.want = [pts]
        elif kind == "pts":
            self.arg = [pts, quad]
            self.want = [pts, quad]
        elif kind == "arrays":
            a = [cx.array(pts), cx.array(quad)]
            self.arg = a
            self.want = [pts, quad]
            self.watch = [(a, self.want)]

    def unchanged(self):
        cx = self.cx
        for got, want in self.watch:
            cx.eqpolys(got, want, "operand unchanged")
        if isinstance(self.arg, (list, tuple)):
            n = {"empty": 0, "pts": 2, "arrays": 2, "mix": 4, "mix2": 4, "tuple": 2, "pt1": 3}[self.kind]
            cx.check(len(self.arg) == n, "operand list unchanged")


RESULTS = [[], [3], [4, 3], [7, 4]]


class Engine:
    def __init__(self, cx):
        self.cx, self.calls = cx, []
        self.sizes = cx.choice("answer", RESULTS)
        self.result = [tuple(shape(n, 100 * (i + 1))) for i, n in enumerate(self.sizes)]
        self.chop = Chop(cx, [[[4], [3]]], None, lambda p: int(p[0][0]) // 100 - 1)
        self.scalings = []

        def chop(*a):
            self.scalings.append(a[3])
            return self.chop(*a)

        def engine(*a):
            self.calls.append(a)
            return list(self.result)
        cx.clipper(clip=engine, offset=engine, inside=engine, _chop=chop)

    def returned(self, out, max_points, layer, datatype, precision):
        cx = self.cx
        if not self.result:
            cx.check(out is None, "an empty result is None")
            return
        cx.check(isinstance(out, cx.gds.PolygonSet), "the result is a polygon set")
        cx.check(len(out.polygons) == len(out.layers) == len(out.datatypes), "one layer and datatype per polygon")
        for l, d in zip(out.layers, out.datatypes):
            cx.eq(l, layer, "layer")
            cx.eq(d, datatype, "datatype")
        tags = []
        for p in out.polygons:
            cx.check(max_points < 5 or len(p) <= max_points, "a polygon above the limit is left")
            t = self.chop.tag(p)
            tags.append(t if t is not None else int(p[0][0]) // 100 - 1)
            if t is None:
                cx.eqpts(p, self.result[tags[-1]], "polygon of the result")
        over = [i for i, n in enumerate(self.sizes) if max_points > 4 and n > max_points]
        cx.check(sorted(tags) == sorted(list(self.chop.alive) + [i for i in range(len(self.sizes)) if i not in over]), "polygons of the result")
        for s in self.scalings:
            cx.eq(s * precision, 1, "fracture precision")


def boolean_case(cx, a, b, op, precision, max_points, layer, datatype, kw):
    e = Engine(cx)
    out = cx.gds.boolean(a.arg, b.arg, op, **kw)
    A, B = a.want, b.want
    if e.calls:
        cx.check(len(e.calls) == 1, "one call")
        p1, p2, o, s = e.calls[0]
        p1, p2 = list(p1), list(p2)
        cx.eq(s * precision, 1, "scaling")
        if o == "or":
            # the union does not depend on how the polygons are divided
            cx.check(op == "or" or (op == "xor" and not (A and B)), "operation passed on")
            cx.eqsets(p1 + p2, A + B, "polygons combined", cyclic=True)
        else:
            cx.check(o == op, "operation passed on")
            if op == "xor" and len(p1) == len(B) and len(p1) != len(A):
                p1, p2 = p2, p1
            cx.eqsets(p1, A, "first operand", cyclic=True)
            cx.eqsets(p2, B, "second operand", cyclic=True)
            cx.check(not (op == "and" and not B) or len(p2) == 0, "intersection with nothing")
        e.returned(out, max_points, layer, datatype, precision)
    else:
        want = {"or": A + B, "xor": A + B, "not": A, "and": []}[op] if not (A and B) else None
        if not A and op == "not":
            want = []
        cx.check(want is not None, "the engine is not asked")
        if not want:
            cx.check(out is None, "an empty result is None")
        else:
            cx.check(isinstance(out, cx.gds.PolygonSet), "the result is a polygon set")
            cx.eqsets(out.polygons, want, "the only operand", cyclic=True)
            for l, d in zip(out.layers, out.datatypes):
                cx.eq(l, layer, "layer")
                cx.eq(d, datatype, "datatype")
            cx.check(len(out.polygons) == len(out.layers) == len(out.datatypes), "one layer and datatype per polygon")
            out.translate(1000, 1000)
    a.unchanged()
    b.unchanged()


OPS = ["or", "and", "xor", "not"]


@harness("C16", [(k, "set", OPS[i % 4]) for i, k in enumerate(KINDS)] + [("set", k, OPS[(i + 1) % 4]) for i, k in enumerate(KINDS)] + [(a, b, o) for a in ("set", "empty", "flex") for b in ("none", "empty") for o in OPS] + [("none", "set", o) for o in ("and", "xor", "not")] + [("pts", "mix", "not"), ("mix", "mix2", "and")],
         "boolean of the configured operand kinds and operation; symbolic vertices, placements, layer, datatype; the engine answers with nothing or up to 2 polygons",
         thorough=[(a, b, o) for a in KINDS for b in KINDS for o in OPS])
def boolean(cx, cfg):
    k1, k2, op = cfg
    a, b = Operand(cx, k1, "a"), Operand(cx, k2, "b")
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    boolean_case(cx, a, b, op, 0.001, 199, l, d, dict(layer=l, datatype=d))


@harness("C16", OPS, "boolean of two polygon sets: every precision in [1e-6,10], vertex limits 0, 5 and 199, default options")
def boolean_options(cx, op):
    a, b = Operand(cx, "set", "a"), Operand(cx, "set", "b")
    p = cx.real("precision", 1e-6, 10)
    if cx.flag("default"):
        return boolean_case(cx, a, b, op, 0.001, 199, 0, 0, {})
    m = cx.choice("m", [0, 5, 199])
    boolean_case(cx, a, b, op, p, m, 3, 4, dict(precision=p, max_points=m, layer=3, datatype=4))


@harness("C16", ["set", "flex", "robust", "ref", "mix", "pts"], "operations with one empty operand: polygons over the vertex limit are fractured and the operand is left as it is")
def boolean_alone(cx, kind):
    g = cx.gds
    pts = shape(7, 100)
    a = {"set": lambda: g.PolygonSet([pts]), "pts": lambda: [pts], "mix": lambda: [g.PolygonSet([pts])],
         "flex": lambda: g.FlexPath([(0, 0), (10, 0), (10, 20), (30, 20)], 1, max_points=0),
         "robust": lambda: g.RobustPath((0, 0), 1, max_points=0).segment((10, 0)).segment((10, 20)).segment((30, 20)),
         "ref": lambda: g.CellReference(cell(cx, "C").add(g.PolygonSet([pts])), (0, 0))}[kind]()
    ch = Chop(cx, [[[4], [3]]], 0.01, lambda p: 0)
    cx.clipper(_chop=ch)
    l = cx.int("l", 0, 255)
    out = g.boolean(a, None, cx.choice("op", ["not", "xor"]), 0.01, 5, l, 3)
    cx.check(len(ch.calls) == 1 and len(out.polygons) == 2, "fractured")
    cx.check(sorted(ch.tag(p) for p in out.polygons) == sorted(ch.alive), "pieces")
    for v in out.layers:
        cx.eq(v, l, "layer")
    if kind in ("set", "mix"):
        s = a if kind == "set" else a[0]
        cx.check(len(s.polygons) == 1 and len(s.layers) == 1, "operand unchanged")
        cx.eqpts(s.polygons[0], pts, "operand unchanged")
    elif kind == "pts":
        cx.check(len(a) == 1 and len(a[0]) == 7, "operand unchanged")
    else:
        cx.check(len(a.get_polygons()) == 1, "operand unchanged")


@harness("C16", [(k, j) for k in KINDS for j in ("miter", "round")] + [("set", "bevel")],
         "offset of every operand kind: symbolic distance, tolerance, precision, layer and datatype, join_first on and off, vertex limits 0, 5, 199")
def offset(cx, cfg):
    kind, join = cfg
    a = Operand(cx, kind, "a")
    d, t = cx.real("distance", -20, 20), cx.real("tolerance", 2, 10)
    p = cx.real("precision", 1e-6, 10) if kind == "set" else 0.01
    m = cx.choice("m", [0, 5, 199]) if kind == "set" else 5
    l, dt = cx.int("l", 0, 255), cx.int("d", 0, 255)
    e = Engine(cx)
    first = cx.flag("first")
    out = cx.gds.offset(a.arg, d, join, t, p, first, m, l, dt)
    if not a.want and not e.calls:
        cx.check(out is None, "an empty result is None")
        return
    cx.check(len(e.calls) == 1, "one call")
    polys, dd, jj, tt, s, f = e.calls[0]
    cx.eqsets(list(polys), a.want, "polygons", cyclic=True)
    cx.eq(dd, d, "distance")
    cx.check(jj == join, "join")
    cx.eq(tt, t, "tolerance")
    cx.eq(s * p, 1, "scaling")
    cx.check(bool(f) == first, "join_first")
    e.returned(out, m, l, dt, p)
    a.unchanged()


@harness("C16", [None], "offset with every option left at its default")
def offset_defaults(cx):
    a = Operand(cx, "set", "a")
    d = cx.real("distance", -20, 20)
    e = Engine(cx)
    out = cx.gds.offset(a.arg, d)
    polys, dd, jj, tt, s, f = e.calls[0]
    cx.eqsets(list(polys), a.want, "polygons")
    cx.check(jj == "miter" and not f, "join")
    cx.eq(tt, 2, "tolerance")
    cx.eq(s, 1000, "scaling")
    cx.eq(dd, d, "distance")
    e.returned(out, 199, 0, 0, 0.001)


@harness("C16", [(k, m) for k in KINDS for m in ("points",)] + [("set", "any"), ("set", "all"), ("mix", "any"), ("mix2", "all"), ("set", "default"), ("set", "array"), ("set", "arrays")],
         "inside: 2 symbolic points alone, or 2 groups of symbolic points, against every operand kind; the engine answers anything")
def inside(cx, cfg):
    kind, mode = cfg
    a = Operand(cx, kind, "a")
    pts = cx.points("q", 3, -50, 50)
    p = cx.real("precision", 1e-6, 10)
    answer = (cx.flag("a0"), cx.flag("a1"))
    calls = []

    def f(*x):
        calls.append(x)
        return answer
    cx.clipper(inside=f)
    if mode in ("points", "array"):
        groups = [pts[:2]]
        arg = cx.array(pts[:2]) if mode == "array" else pts[:2]
        out = cx.gds.inside(arg, a.arg, precision=p)
    else:
        groups = [pts[:2], pts[2:]]
        arg = [cx.array(x) for x in groups] if mode == "arrays" else groups
        out = cx.gds.inside(arg, a.arg, precision=p) if mode in ("default", "arrays") else cx.gds.inside(arg, a.arg, mode, p)
    if not calls:
        cx.check(not a.want, "the engine is not asked")
        cx.check(len(out) == 2 and not any(out), "nothing is inside nothing")
        return
    cx.check(len(calls) == 1, "one call")
    gp, polys, sc, s = calls[0]
    cx.check(len(polys) > 0, "the engine is asked about no polygons (it does not return)")
    cx.eqpolys(list(gp), groups, "points")
    cx.eqsets(list(polys), a.want, "polygons", cyclic=True)
    cx.eq(s * p, 1, "scaling")
    cx.check((sc == 0) if mode in ("points", "array") else (sc < 0) if mode == "all" else (sc > 0), "mode")
    cx.check(tuple(out) == answer, "answer")
    a.unchanged()


@harness("C16", ["set", "rect", "path", "flex", "robust", "ref", "array", "label"], "copy(obj, dx, dy): a translated copy, the original is unchanged")
def copy(cx, kind):
    g = cx.gds
    dx, dy = (cx.real("dx", -50, 50), cx.real("dy", -50, 50)) if cx.flag("shift") else (0, 0)
    if kind == "label":
        o = cx.point("o", -50, 50)
        l = g.Label("T", o)
        c = g.copy(l, dx, dy)
        cx.check(c is not l, "a copy")
        cx.eqpts([c.position], [(o[0] + dx, o[1] + dy)], "moved")
        cx.eqpts([l.position], [o], "original unchanged")
        return
    a = Operand(cx, kind, "a")
    c = g.copy(a.arg, dx, dy)
    cx.check(c is not a.arg, "a copy")
    get = lambda x: x.polygons if hasattr(x, "polygons") else x.get_polygons()
    cx.eqsets(get(c), [[(v[0] + dx, v[1] + dy) for v in p] for p in a.want], "moved", cyclic=True)
    cx.eqsets(get(a.arg), a.want, "original unchanged", cyclic=True)
    cx.check(not hasattr(c, "polygons") or c.polygons is not a.arg.polygons, "a copy")
