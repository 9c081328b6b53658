"""C15: fracturing and slicing (the clipping engine replaced by an arbitrary one that honours its contract)."""
from symex.ctx import harness
from .io import cell

ASSUMPTIONS = ["the clipping engine's chop returns any pieces for each slab between consecutive cuts (fewer vertices after at most two rounds)"]


class Chop:
    """Stand-in for clipper._chop: checks what it is asked, answers with recognisable pieces."""

    def __init__(self, cx, sizes, precision=None, known=None):
        self.cx, self.sizes, self.precision = cx, sizes, precision
        self.calls, self.n, self.owner, self.alive = [], 0, {}, set()
        self.known = known or (lambda p: None)

    def piece(self, k, owner):
        self.n += 1
        t = 5000 + 10 * self.n
        self.owner[t] = owner
        self.alive.add(t)
        return tuple([(t, 0), (t + 1, 3), (t + 4, 1), (t + 5, 7), (t + 3, 9), (t + 2, 8), (t + 1, 6)][:k])

    def tag(self, p):
        v = p[0][0]
        if hasattr(v, "const"):
            v = v.const()
        return int(v) if v is not None and v >= 5000 else None

    def __call__(self, poly, cuts, axis, scaling):
        cx = self.cx
        cx.check(axis == 0 or axis == 1, "axis of the cuts")
        cuts = list(cuts)
        cx.check(len(cuts) > 0, "no cut")
        for a, b in zip(cuts, cuts[1:]):
            cx.check(a <= b, "cuts in increasing order")
        c = [v[axis] for v in poly]
        cx.check(cx.or_(*[cx.and_(cx.or_(*[v < u for v in c]), cx.or_(*[v > u for v in c])) for u in cuts]), "no cut inside the polygon: fracturing would not end")
        if self.precision is not None:
            cx.eq(scaling * self.precision, 1, "scaling")
        t = self.tag(poly)
        if t is None:
            owner = self.known(poly)
            cx.check(owner is not None, "an unknown polygon is cut")
        else:
            cx.check(t in self.alive, "a piece is cut twice")
            self.alive.discard(t)
            owner = self.owner[t]
        k = len(self.calls)
        self.calls.append((poly, cuts, axis))
        sizes = self.sizes[k] if k < len(self.sizes) else [[3]]
        return tuple(tuple(self.piece(s, owner) for s in (sizes[i] if i < len(sizes) else ())) for i in range(len(cuts) + 1))


FIXED = [0, 7, 20, 11, 3, 16, 9, 14, 5, 18, 2]


def zig(n):
    """Coordinates of the other axis (extent below 1)."""
    return [i * 0.05 for i in range(n)]


@harness("C15", [(a, n, k, m) for a in (0, 1) for n, k, m in ((6, 3, 5), (7, 3, 6), (11, 3, 5))],
         "one polygon of n vertices over the limit m; k coordinates along the axis of larger extent are symbolic (any values in [-50,50], coincidences included): every cutting step has ordered cuts, at least one of them strictly inside the polygon",
         thorough=[(a, n, k, m) for a in (0, 1) for n, k, m in ((6, 4, 5), (9, 3, 8), (16, 3, 5))])
def cuts(cx, cfg):
    axis, n, k, m = cfg
    main = list(cx.real("x%d" % i, -50, 50) for i in range(k)) + FIXED[:n - k]
    pts = [(a, b) if axis == 0 else (b, a) for a, b in zip(main, zig(n))]
    ps = cx.gds.PolygonSet([pts], 3, 4)
    ch = Chop(cx, [[[4], [3]]], 0.01, lambda p: 0)
    cx.clipper(_chop=ch)
    cx.check(ps.fracture(m, 0.01) is ps, "returns its object")
    cx.check(len(ch.calls) == 1, "one step")
    cx.eqpts(ch.calls[0][0], pts, "the polygon cut")
    cx.check(len(ps.polygons) == 2 and list(ps.layers) == [3, 3] and list(ps.datatypes) == [4, 4], "pieces")


@harness("C15", [("comb", a) for a in (0, 1)] + [("equal", a) for a in (0, 1)] + [("two", a) for a in (0, 1)],
         "a polygon of 8 vertices, most of them at the same symbolic extreme coordinate: cuts stay inside the polygon")
def extremes(cx, cfg):
    kind, axis = cfg
    a, b = cx.real("a", -50, 50), cx.real("b", -50, 50)
    cx.assume(cx.or_(a - b > 1, b - a > 1))
    main = {"comb": [a, b, b, b, b, b, b, a], "equal": [a, a, b, b, b, b, b, b], "two": [a, b, a, b, a, b, a, b]}[kind]
    pts = [(u, v) if axis == 0 else (v, u) for u, v in zip(main, zig(8))]
    ps = cx.gds.PolygonSet([pts], 3, 4)
    ch = Chop(cx, [[[4], [3]]], 0.001, lambda p: 0)
    cx.clipper(_chop=ch)
    ps.fracture(5)
    cx.check(len(ps.polygons) == 2, "pieces")


ANSWERS = [[[3], [4]], [[5, 4], [3]], [[], [6]], [[6], [7, 3]], [[], []]]


def answers(cx, k):
    return [cx.choice("ans%d" % i, ANSWERS) for i in range(k)]


def shape(n, t):
    """A concrete polygon recognised by its first vertex."""
    return [(t, 0), (t + 9, 1), (t + 8, 2), (t + 20, 3), (t + 5, 5), (t + 4, 4), (t + 1, 2)][:n]


@harness("C15", [([4, 7, 6], 5), ([7, 3, 7], 6), ([6, 6, 5], 5), ([7, 7], 4), ([7, 7], 0)],
         "up to 3 polygons with any layers and datatypes; chop answers: any of 5 piece patterns for each of the first 2 steps; vertex limit as configured (up to 4: nothing is cut)",
         thorough=[([7, 6, 7, 6], 5)])
def metadata(cx, cfg):
    sizes, m = cfg
    pts = [shape(n, 100 * (i + 1)) for i, n in enumerate(sizes)]
    ps = cx.gds.PolygonSet(pts)
    L = [cx.int("l%d" % i, 0, 255) for i in range(len(sizes))]
    D = [cx.int("d%d" % i, 0, 255) for i in range(len(sizes))]
    ps.layers, ps.datatypes = list(L), list(D)
    ps.properties = {1: "keep"}
    over = [i for i, n in enumerate(sizes) if m > 4 and n > m]
    ch = Chop(cx, answers(cx, 2) if over else [], 0.001, lambda p: int(p[0][0]) // 100 - 1 if int(p[0][0]) % 100 == 0 else None)
    cx.clipper(_chop=ch)
    cx.check(ps.fracture(m) is ps, "returns its object")
    cx.check(ps.properties == {1: "keep"}, "properties changed")
    cx.check(len(ps.polygons) == len(ps.layers) == len(ps.datatypes), "one layer and datatype per polygon")
    seen = []
    for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes):
        cx.check(m <= 4 or len(p) <= m, "a polygon above the limit is left")
        t = ch.tag(p)
        if t is None:
            i = int(p[0][0]) // 100 - 1
            cx.check(i not in over, "a polygon above the limit is left")
            cx.eqpts(p, pts[i], "a polygon within the limit")
            seen.append(("p", i))
        else:
            i = ch.owner[t]
            seen.append(("t", t))
        cx.eq(l, L[i], "layer of a piece")
        cx.eq(d, D[i], "datatype of a piece")
    want = [("p", i) for i in range(len(sizes)) if i not in over] + [("t", t) for t in ch.alive]
    cx.check(sorted(seen) == sorted(want), "pieces lost or repeated")


@harness("C15", [(c, m) for c in ("flex", "robust", "flex2") for m in (5, 0)],
         "FlexPath (4 spine points, 1 or 2 parallel elements) and RobustPath (3 sections) outlines of 8 vertices and the vertex limit 5 or none: pieces keep layer and datatype of their element; chop answers as above")
def paths(cx, cfg):
    kind, m = cfg
    g = cx.gds
    l0, d0 = cx.int("l", 0, 255), cx.int("d", 0, 255)
    w = cx.real("w", 0.1, 1)
    if kind == "robust":
        p = g.RobustPath((0, 0), 0.5, layer=l0, datatype=d0, max_points=m, precision=0.01)
        p.segment((10, 0)).segment((10, 20)).segment((30, 20))
        els = 1
    else:
        els = 2 if kind == "flex2" else 1
        p = g.FlexPath([(0, 0), (10, 0), (10, 20), (30, 20)], [w, 0.5][:els], offset=[0, 4][:els], layer=[l0, 7][:els], datatype=[d0, 9][:els], max_points=m, precision=0.01)
        cx.hashkeys(7, 9)
    ch = Chop(cx, answers(cx, 2) if m else [], 0.01, lambda q: (0 if els == 1 else (0 if abs(float(q[1][1]) if not hasattr(q[1][1], "const") else float(q[1][1].const() or 0)) < 2 else 1)))
    cx.clipper(_chop=ch)
    by = p.get_polygons(True)
    if not m:
        cx.check(not ch.calls, "nothing is cut")
        cx.check(sum(len(v) for v in by.values()) == els, "one polygon per element")
        return
    tags = []
    for (l, d), polys in by.items():
        for q in polys:
            t = ch.tag(q)
            cx.check(t is not None and len(q) <= m, "a polygon above the limit is left")
            tags.append(t)
            if els == 1:
                cx.eq(l, l0, "layer")
                cx.eq(d, d0, "datatype")
    cx.check(sorted(tags) == sorted(ch.alive), "pieces lost or repeated")
    n = len(ch.calls)
    cx.check(len(p.get_polygons()) == len(tags), "polygons listed once more")
    cx.check(len(ch.calls) == n, "cut once")


@harness("C15", [(k, a) for k in ("set", "list", "ref", "one") for a in (0, 1)],
         "slicing 2 polygons (polygon set, list of a set and vertices, reference with a symbolic placement, or one polygon set and a single position) at 2 symbolic positions in either order; layers and datatypes: single numbers or shorter lists; per slab and polygon 0-2 pieces")
def slices(cx, cfg):
    kind, axis = cfg
    g = cx.gds
    pts = [shape(4, 100), shape(5, 200)]
    o = (0, 0)
    ps = g.PolygonSet(pts, 9, 8)
    if kind == "list":
        arg = [g.PolygonSet([pts[0]]), pts[1]]
    elif kind == "ref":
        c = cell(cx, "C")
        c.add(ps)
        o = cx.point("o", -50, 50)
        arg = g.CellReference(c, o)
    else:
        arg = ps
    want = [[(v[0] + o[0], v[1] + o[1]) for v in p] for p in pts]
    p0 = cx.real("p0", -100, 400)
    pos = p0 if kind == "one" else [p0, cx.real("p1", -100, 400)]
    n = 2 if kind == "one" else 3
    pat = [[[3], [], [4, 3]], [[], [], [3]], [[4], [3, 3], []], [[], [], []]]
    plan = [cx.choice("pat%d" % i, pat) for i in range(2)]
    calls, slabs, tagger = [], [[] for _ in range(n)], Chop(cx, [])

    def chop(poly, cuts, ax, scaling):
        cx.check(ax == axis, "axis")
        cx.eq(scaling * 0.01, 1, "scaling")
        cuts = list(cuts)
        cx.check(len(cuts) == n - 1, "number of positions")
        for a, b in zip(cuts, cuts[1:]):
            cx.check(a <= b, "positions in increasing order")
        if n == 2:
            cx.eq(cuts[0], pos, "position")
        else:
            cx.eq(cuts[0] + cuts[1], pos[0] + pos[1], "positions")
            cx.check(cx.or_(cuts[0] == pos[0], cuts[0] == pos[1]), "positions")
        k = len(calls)
        calls.append(poly)
        out = []
        for i in range(n):
            ans = tuple(tagger.piece(s, k) for s in plan[k][i])
            slabs[i] += [q[0][0] for q in ans]
            out.append(ans)
        return tuple(out)
    cx.clipper(_chop=chop)
    lay = cx.choice("lay", [[5], [5, 6]])
    res = g.slice(arg, pos, axis, 0.01, 5 if cx.flag("single") else list(lay), [1, 2, 3])
    pass
    cx.eqsets(calls, want, "polygons cut")
    cx.check(len(res) == n, "number of slabs")
    lays = sorted(set(l for r in res if r is not None for l in r.layers))
    for i, r in enumerate(res):
        if not slabs[i]:
            cx.check(r is None, "an empty slab is None")
            continue
        cx.check(r is not None, "pieces lost")
        cx.check(sorted(int(p[0][0]) for p in r.polygons) == sorted(slabs[i]), "pieces of the slab")
        cx.check(len(r.layers) == len(r.datatypes) == len(r.polygons), "one layer and datatype per polygon")
        cx.check(all(d == i + 1 for d in r.datatypes), "datatypes repeat by slab")
    cx.check(isinstance(pos, list) is False or len(pos) == 2, "positions")
    cx.eqpolys(ps.polygons, pts, "operand unchanged")
    cx.check(list(ps.layers) == [9, 9] and list(ps.datatypes) == [8, 8], "operand unchanged")


@harness("C15", [[5], [5, 6], [5, 6, 7, 8], 5], "slab layers: a number, or a list repeated when it is shorter than the number of slabs; 3 slabs at symbolic positions")
def slab_layers(cx, lay):
    g = cx.gds
    pos = [cx.real("p0", -100, 400), cx.real("p1", -100, 400)]
    t = Chop(cx, [])
    cx.clipper(_chop=lambda *a: tuple((t.piece(3, 0), t.piece(4, 0)) for _ in range(3)))
    k = cx.int("k", 0, 99)
    arg = [v + k for v in lay] if isinstance(lay, list) else lay + k
    for res in (g.slice(g.PolygonSet([shape(4, 100)]), pos, 0, layer=arg, datatype=3), g.slice(g.PolygonSet([shape(4, 100)]), pos, 0, layer=3, datatype=arg)):
        for i, r in enumerate(res):
            w = arg[i % len(arg)] if isinstance(arg, list) else arg
            same = r.datatypes if res is not None and r.layers[0] is 3 else r.layers
            for v, u in zip(r.layers, r.datatypes):
                a, b = (v, u)
                ok = cx.or_(cx.and_(a == w, b == 3), cx.and_(a == 3, b == w))
                cx.check(ok, "layer or datatype of slab %d" % i)
    if isinstance(arg, list):
        cx.check(len(arg) == len(lay), "argument unchanged")


@harness("C15", [(f, m) for f in (False, True) for m in (5, 6, 20)],
         "fillet of a quadrilateral with a symbolic radius: fractured exactly when a result is above the limit, with its layer and datatype")
def fillet(cx, cfg):
    many, m = cfg
    g = cx.gds
    r = cx.real("r", 0.1, 2)
    l0, d0 = cx.int("l", 0, 255), cx.int("d", 0, 255)
    cx.float_constants()
    ps = g.PolygonSet([[(0, 0), (10, 0), (10, 20), (0, 20)]] * (2 if many else 1), l0, d0)
    ch = Chop(cx, [[[4], [3]]] * 2, 0.01, lambda p: 0)
    cx.clipper(_chop=ch)
    ps.fillet(r, points_per_2pi=8, max_points=m, precision=0.01)
    cx.check(len(ps.polygons) == len(ps.layers) == len(ps.datatypes), "one layer and datatype per polygon")
    for p, l, d in zip(ps.polygons, ps.layers, ps.datatypes):
        cx.check(len(p) <= m, "a polygon above the limit is left")
        cx.eq(l, l0, "layer")
        cx.eq(d, d0, "datatype")
    cx.check((len(ch.calls) > 0) == (m < 12), "fractured when above the limit")
