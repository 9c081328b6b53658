"""C25: points inside polygons; the extension module is executed symbolically from its LLVM IR."""
import os
from symex.ctx import harness

NEED_CLIPPER = True
ASSUMPTIONS = ["64-bit integers do not overflow and products of coordinates are exact in doubles (coordinates below 2^25 in units of the precision)",
               "integer coordinates are relaxed to reals in the solver (the answer holds for all of them, or a counterexample is scaled to integers)",
               "the compiled extension behaves as the LLVM IR of clang -O1 of its source (witnesses run on a g++ build)"]


def prepare(work):
    """Translate the functions used once, before the jobs start."""
    from symex import llvm, loader
    h = llvm.hooks(os.path.join(loader.REPO, "gdspy", "clipper.cpp"), ["inside"])
    for m in (0, 1, -1):
        try:
            h["inside"]([[(0, 0), (1, 1), (5, 5)]], [[(-1, -2), (3, 0), (0, 4)], [(2, 2), (1, 9), (3, 4)]], m, 1.0)
        except Exception:
            pass


def tri_oracle(cx, t, p):
    """Closed triangle: no two corners on different sides; on the segment when it is degenerate."""
    def side(a, b):
        return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    s = [side(t[i], t[(i + 1) % 3]) for i in range(3)]
    flat = cx.and_(*[v == 0 for v in s])
    box = cx.and_(*[cx.and_(cx.or_(*[q[k] <= p[k] for q in t]), cx.or_(*[q[k] >= p[k] for q in t])) for k in (0, 1)])
    return cx.or_(cx.and_(cx.not_(flat), cx.or_(cx.and_(*[v >= 0 for v in s]), cx.and_(*[v <= 0 for v in s]))), cx.and_(flat, box))


def poly_oracle(cx, poly, p):
    """On an edge, or an odd number of edges above the point."""
    odd, on = False, False
    for a, b in zip(poly, poly[1:] + poly[:1]):
        s = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        between = cx.and_(*[cx.or_(cx.and_(a[k] <= p[k], p[k] <= b[k]), cx.and_(b[k] <= p[k], p[k] <= a[k])) for k in (0, 1)])
        on = cx.or_(on, cx.and_(s == 0, between))
        c = cx.or_(cx.and_(a[0] <= p[0], p[0] < b[0], s < 0), cx.and_(b[0] <= p[0], p[0] < a[0], s > 0))
        odd = cx.or_(cx.and_(odd, cx.not_(c)), cx.and_(cx.not_(odd), c))
    return cx.or_(on, odd)


def answer(cx, got, want, msg):
    cx.check(type(got) is bool or type(got).__name__ == "bool_", msg + ": a truth value")
    cx.check(want if got else cx.not_(want), msg + (": reported inside" if got else ": reported outside"))


def at(p, d):
    return [(p[0] + x, p[1] + y) for x, y in d]


SIGNS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


@harness("C25", [(0, 0, None)] + [(a, b, t) for a in (-1, 1) for b in (-1, 1) for t in "xy"],
         "one point and one triangle, all integer coordinates (the point in [-1000,1000], corners within 1000 of it), degenerate triangles included; one configuration per quadrant or axis of the first corner; quick tier: triangles with a horizontal or vertical first side, or with the first corner at the point",
         thorough=[(a, b, None) for a, b in SIGNS if a or b], timeout=900)
def triangle(cx, cfg):
    cx.native("inside")
    p = (cx.grid("px", -1000, 1000), cx.grid("py", -1000, 1000))
    d = []
    for i in range(3):
        lo, hi = [(-1000, 1000)] * 2, 0
        r = [(0, 0) if c == 0 else (1, 1000) if c > 0 else (-1000, -1) for c in cfg[:2]] if i == 0 else [(-1000, 1000)] * 2
        v = [a if a == b else cx.grid("%s%d" % (n, i), a, b) for n, (a, b) in zip("xy", r)]
        if i == 1 and cfg[2] is not None:
            k = "xy".index(cfg[2])
            v[k] = d[0][k]
        d.append(tuple(v))
    r = cx.gds.inside([p], [at(p, d)], precision=1)
    cx.check(len(r) == 1, "one answer per point")
    answer(cx, r[0], tri_oracle(cx, d, (0, 0)), "triangle")


# squares, slanted and concave quadrilaterals, bow ties, repeated vertices and vertices on edges, notches
SHAPES = [[(0, 0), (4, 0), (4, 4), (0, 4)], [(0, 0), (0, 4), (4, 4), (4, 0)], [(0, 0), (5, 1), (6, 5), (1, 4)], [(0, 0), (6, 0), (2, 1), (1, 5)], [(0, 0), (4, 4), (4, 0), (0, 4)],
          [(0, 0), (3, 3), (5, 0), (2, 4)], [(-3, -2), (3, -2), (3, 2), (1, 0), (-3, 2)], [(0, 0), (4, 0), (4, 0), (2, 3)], [(0, 0), (2, 0), (4, 0), (4, 3), (0, 3), (0, 1)],
          [(0, 0), (6, 0), (6, 4), (4, 4), (4, 1), (2, 1), (2, 4), (0, 4)], [(0, 0), (6, 0), (3, 2), (6, 4), (0, 4), (2, 2)], [(0, 0), (2, 2), (4, 0), (6, 2), (4, 4), (2, 2), (0, 4)],
          [(0, 0), (5, 0), (5, 0), (0, 0)], [(1, 0), (3, 0), (4, 1), (4, 3), (3, 4), (1, 4), (0, 3), (0, 1)]]


@harness("C25", [k for k in range(len(SHAPES)) if k not in (2, 5, 11, 13)], "one point and one polygon of 14 shapes (4-8 vertices, convex, concave, self-touching, with repeated vertices, both orientations), any scale and position", thorough=[2, 5, 11, 13])
def shapes(cx, k):
    cx.native("inside")
    s = cx.grid("s", 1, 100)
    ox, oy = cx.grid("ox", -1000, 1000), cx.grid("oy", -1000, 1000)
    d = (cx.grid("dx", -1000, 1000), cx.grid("dy", -1000, 1000))
    shape = [(s * x, s * y) for x, y in SHAPES[k]]
    p = (ox + d[0], oy + d[1])
    r = cx.gds.inside([p], [at((ox, oy), shape)], precision=1)
    answer(cx, r[0], poly_oracle(cx, shape, d), "shape")


PAIR = [[(0, 0), (10, 0), (0, 10)], [(4, 4), (20, 5), (21, 18), (5, 15)]]
ROWS = [3, 4, 12, 0]


def on_row(cx, name, k):
    """A point on one of the horizontal lines through the polygons."""
    return (cx.grid("x" + name, -50, 50), ROWS[k])


@harness("C25", [(n, mode, k) for n in ((1, 2), (2, 1), (3,)) for mode in ("any", "all") for k in (0, 1)],
         "up to 2 groups of up to 3 points in the two modes of grouping; two overlapping polygons, the points on lines through them at any horizontal position")
def groups(cx, cfg):
    sizes, mode, k = cfg
    cx.native("inside")
    G = [[on_row(cx, "%d_%d" % (j, i), (k + 2 * i + j) % 4) for i in range(n)] for j, n in enumerate(sizes)]
    r = cx.gds.inside(G, PAIR, short_circuit=mode, precision=1)
    cx.check(len(r) == len(G), "one answer per group")
    for j, g in enumerate(G):
        w = [cx.or_(*[poly_oracle(cx, q, p) for q in PAIR]) for p in g]
        answer(cx, r[j], cx.or_(*w) if mode == "any" else cx.and_(*w), "group")


BOXES = [[(0, 0), (10, 0), (10, 10), (0, 10)], [(10, 2), (16, 2), (16, 13), (10, 13)]]
LINES = [(0, 0), (0, 10), (0, 16), (1, 0), (1, 2), (1, 10), (1, 13)]


@harness("C25", [(mode, k) for mode in ("any", "all") for k in range(len(LINES))] + [(mode, k, 1) for mode in ("any", "all") for k in (0, 3)],
         "groups of one or two points in the two modes of grouping, two rectangles that touch; one point anywhere on each line through a side of a rectangle, the other one on another side, in either order")
def group_edges(cx, cfg):
    mode, k = cfg[:2]
    cx.native("inside")
    u = cx.grid("u", -50, 50)
    ax, c = LINES[k]
    p = (c, u) if ax == 0 else (u, c)
    other = [(10, 7), (16, 5), (3, 0), (12, 13)][k % 4]
    G = [[p], [p, other]] if len(cfg) == 2 else [[other, p], [p]]
    r = cx.gds.inside(G, BOXES, short_circuit=mode, precision=1)
    cx.check(len(r) == 2, "one answer per group")
    for j, g in enumerate(G):
        w = [cx.or_(*[poly_oracle(cx, q, p) for q in BOXES]) for p in g]
        answer(cx, r[j], cx.or_(*w) if mode == "any" else cx.and_(*w), "group")
    # the other point does not touch anything
    far = cx.gds.inside([[p, (30, 40)]], BOXES, short_circuit=mode, precision=1)
    w = cx.or_(*[poly_oracle(cx, q, p) for q in BOXES])
    answer(cx, far[0], w if mode == "any" else False, "group with a point outside")


@harness("C25", ["any", "all"], "three points given as one sequence, two polygons: the mode of grouping has no effect")
def points(cx, mode):
    cx.native("inside")
    p = [on_row(cx, "%d" % i, i) for i in range(3)]
    r = cx.gds.inside(p, PAIR, short_circuit=mode, precision=1)
    cx.check(len(r) == 3, "one answer per point")
    for a, q in zip(r, p):
        answer(cx, a, cx.or_(*[poly_oracle(cx, w, q) for w in PAIR]), "point")


@harness("C25", [0.125], "coordinates of a point and a triangle corner off the grid of the precision (three precisions): the answer is that of the nearest grid points (ties not included)", thorough=[1, 1 / 1024])
def rounding(cx, precision):
    cx.native("inside")
    v = []
    for i in range(4):
        n = cx.int("n%d" % i, -30, 30)
        f = cx.real("f%d" % i, -0.49, 0.49)
        v.append((n, (n + f) * precision))
    p = [(v[0][1], v[1][1])]
    tri = [(-11, -7), (14, -3)]
    r = cx.gds.inside(p, [[(x * precision, y * precision) for x, y in tri] + [(v[2][1], v[3][1])]], precision=precision)
    answer(cx, r[0], tri_oracle(cx, tri + [(v[2][0], v[3][0])], (v[0][0], v[1][0])), "rounded")


@harness("C25", [None], "no polygons: no point is inside")
def nothing(cx):
    cx.native("inside")
    p = [cx.point("p%d" % i, -50, 50) for i in range(2)]
    for mode in ("any", "all"):
        cx.check(tuple(cx.gds.inside(p, [], short_circuit=mode)) == (False, False), "points")
        cx.check(tuple(cx.gds.inside([p, p[:1], p], [], short_circuit=mode)) == (False, False, False), "groups")
