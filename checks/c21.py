"""C21: rectangles, round shapes and texts."""
import math
from symex.ctx import harness
from .c20 import shifted
from .c17 import add


@harness("C21", ["floats", "ints"], "rectangle with symbolic corners in any order, symbolic layer and datatype: the four corners in order around the rectangle")
def rectangle(cx, kind):
    if kind == "ints":
        a, b = [(cx.int(n + "x", -1000, 1000), cx.int(n + "y", -1000, 1000)) for n in "ab"]
    else:
        a, b = cx.point("a"), cx.point("b")
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    r = cx.gds.Rectangle(a, b, l, d)
    cx.eqsets(r.polygons, [[a, (a[0], b[1]), b, (b[0], a[1])]], "corners", cyclic=True)
    cx.check(len(r.layers) == 1 and len(r.datatypes) == 1, "one layer and datatype")
    cx.eq(r.layers[0], l, "layer")
    cx.eq(r.datatypes[0], d, "datatype")
    cx.check(r.properties == {}, "no properties")
    r = cx.gds.Rectangle(a, b)
    cx.check(list(r.layers) == [0] and list(r.datatypes) == [0], "default layer and datatype")
    o = cx.gds.Rectangle(b, a)
    r.properties[1] = "x"
    r.layers[0] = 7
    cx.check(o.properties == {} and list(o.layers) == [0], "nothing shared between shapes")


def circ(c, R, t):
    return (c[0] + R * math.cos(t), c[1] + R * math.sin(t))


ANGLES = [(0.0, 0.0), (0.5, 2.5), (3.0, 0.2), (-1.0, 4.5), (1.25, 1.25)]


@harness("C21", [(a, n, r) for a in ANGLES for n in (5, 8) for r in (False, True)],
         "circles, rings and their sections with symbolic centre and radii, 5 pairs of angles, given number of vertices: every vertex on its circle at equal angular steps from the initial to the final angle, inner circle backwards, centre included in sections",
         thorough=[(a, n, r) for a in ANGLES for n in (3, 13, 40) for r in (False, True) if n > 3 or not r])
def circle(cx, cfg):
    (a0, a1), n, ring = cfg
    cx.float_constants()
    c = cx.point("c", -50, 50)
    R = cx.real("R", 5, 50)
    r = cx.real("r", 1, 4) if ring else 0
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    p = cx.gds.Round(c, R, inner_radius=r, initial_angle=a0, final_angle=a1, number_of_points=n, layer=l, datatype=d)
    full = a0 == a1
    if ring:
        m = n - n // 2
        k = n - m
        if full:
            a0, a1 = 0, 2 * math.pi
        want = [circ(c, R, a0 + (a1 - a0) * i / (m - 1)) for i in range(m)]
        want += [circ(c, r, a0 + (a1 - a0) * (k - 1 - i) / (k - 1)) for i in range(k)]
    elif full:
        want = [circ(c, R, 2 * math.pi * i / n) for i in range(n)]
    else:
        want = [c] + [circ(c, R, a0 + (a1 - a0) * i / (n - 2)) for i in range(n - 1)]
    cx.eqsets(p.polygons, [want], "vertices", cyclic=True)
    cx.check(len(p.layers) == 1 and len(p.datatypes) == 1, "one layer and datatype")
    cx.eq(p.layers[0], l, "layer")
    cx.eq(p.datatypes[0], d, "datatype")


def area2(q):
    return sum(q[i - 1][0] * q[i][1] - q[i][0] * q[i - 1][1] for i in range(len(q)))


def polar(v):
    return math.atan2(v[1], v[0])


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def on_ellipse(v, r):
    return abs(math.hypot(v[0] / r[0], v[1] / r[1]) - 1) < 1e-9


def check_round(cx, polys, R, r, a0, a1, tol, npts, limit):
    """polys: concrete vertices about the centre."""
    full = a0 == a1
    if full and len(polys) > 1:
        a1 = a0 + 2 * math.pi
    n = len(polys)
    total = 0
    for i, q in enumerate(polys):
        if limit:
            cx.check(len(q) <= limit, "vertex limit")
        if npts is not None:
            cx.check(len(q) == npts // n, "number of vertices")
        outer = [v for v in q if on_ellipse(v, R)]
        inner = [v for v in q if r and on_ellipse(v, r)]
        centre = [v for v in q if math.hypot(*v) < 1e-9]
        cx.check(len(outer) + len(inner) + len(centre) == len(q), "every vertex on the outline")
        whole = full and n == 1
        cx.check(len(centre) == (0 if r or whole else 1), "centre")
        k = q.index(outer[0])
        if centre:
            k0 = q.index(centre[0])
            q = q[k0 + 1:] + q[:k0]
            cx.check(q == outer, "outer vertices together")
        elif inner:
            cx.check(q == outer + inner, "outer vertices, then inner ones")
        # polar angles at the ends of this piece
        b0, b1 = (a0 + (a1 - a0) * i / n, a0 + (a1 - a0) * (i + 1) / n)
        sg = 1 if b1 >= b0 else -1
        sweep = abs(b1 - b0) if not whole else 2 * math.pi
        for side, rad, rev in ((outer, R, False), (inner, r, True)):
            if not side:
                continue
            if rev:
                side = side[::-1]
            if not whole:
                cx.check(abs(wrap(polar(side[0]) - b0)) < 1e-6, "initial angle")
                cx.check(abs(wrap(polar(side[-1]) - b1)) < 1e-6, "final angle")
            loop = whole and not r
            t = 0
            ring_ = side + side[:1] if loop else side
            # equal steps of the parameter, in the direction of the section
            par = [math.atan2(v[1] / rad[1], v[0] / rad[0]) for v in ring_]
            steps = [(b - a) * sg % (2 * math.pi) for a, b in zip(par, par[1:])]
            steps = [0 if s > 2 * math.pi - 1e-6 else s for s in steps]
            cx.check(max(steps) - min(steps) < 1e-6 and min(steps) > 1e-6, "equal steps")
            t = sum(steps)
            # swept parameter within a quarter turn of the swept angle
            cx.check(abs(t - sweep) < 1.58 and (rad[0] != rad[1] and not whole or abs(t - sweep) < 1e-6), "swept angle")
            if tol is not None:
                h = max(rad) * (1 - math.cos(max(steps) / 2))
                # documented as approximate: pieces lose vertices, ellipses sweep other parameters than angles
                cx.check(h < tol * (1.6 if n == 1 and R[0] == R[1] else 4), "tolerance")
    return total


PI = math.pi


@harness("C21", [(k, m, a) for k in ("disc", "ring", "ellipse", "ellipse_ring", "ellipse_hole") for m in (199, 0, 24) for a in ((0, 0), (0.5, 2.5), (-1.0, -6.0), (2.0, PI), (-PI, PI), (PI, 3 * PI), (2 * PI, 3 * PI), (PI / 2, -PI), (PI, PI))],
         "discs, ellipses, rings and elliptical holes and their sections with symbolic centre, concrete radii, 9 pairs of angles (multiples of pi among them), number of vertices from the tolerance or given, whole or in pieces: every vertex on the outer or inner ellipse, each piece between its angles, vertex limit, tolerance")
def round_(cx, cfg):
    kind, m, (a0, a1) = cfg
    cx.float_constants()
    c = cx.point("c", -50, 50)
    R = (9.0, 4.0) if kind in ("ellipse", "ellipse_ring") else (9.0, 9.0)
    r = {"ring": (3.0, 3.0), "ellipse_ring": (2.0, 3.0), "ellipse_hole": (5.0, 3.0)}.get(kind)
    given = cx.flag("given")
    kw = dict(number_of_points=60) if given else dict(tolerance=0.005)
    p = cx.gds.Round(c, R if R[0] != R[1] else R[0], 0 if not r else r if r[0] != r[1] else r[0], a0, a1, max_points=m, layer=3, datatype=4, **kw)
    polys = [shifted(cx, q, c) for q in p.polygons]
    cx.check(list(p.layers) == [3] * len(polys) and list(p.datatypes) == [4] * len(polys), "layers and datatypes")
    if not m or m == 199:
        cx.check(len(polys) == 1, "one polygon")
    elif given:
        cx.check(len(polys) == math.ceil(60 / m), "number of pieces")
    check_round(cx, polys, R, r, a0, a1, None if given else 0.005, 60 if given else None, m)


@harness("C21", [(k, t, a) for k in ("disc", "ring") for t in (1.0, 3.9, 4.1, 5.0, 100.0) for a in ((0, 0), (0.5, 2.5), (-1.0, -6.0))],
         "discs, rings and their sections of radius 2 with symbolic centre and tolerances from half the radius up: every vertex on the outer or inner circle, at least three vertices, layer and datatype")
def coarse(cx, cfg):
    kind, tol, (a0, a1) = cfg
    cx.float_constants()
    c = cx.point("c", -50, 50)
    r = 1.0 if kind == "ring" else 0
    p = cx.gds.Round(c, 2.0, r, a0, a1, tolerance=tol, layer=3, datatype=4)
    cx.check(len(p.polygons) == 1 and p.layers == [3] and p.datatypes == [4], "one polygon")
    q = shifted(cx, p.polygons[0], c)
    cx.check(len(q) >= 3, "at least three vertices")
    for v in q:
        cx.check(min(abs(math.hypot(*v) - x) for x in ((2, r) if r or a0 != a1 else (2,))) < 1e-9, "every vertex on the outline")
    outer = [v for v in q if abs(math.hypot(*v) - 2) < 1e-9]
    if a0 != a1:
        cx.check(abs(wrap(polar(outer[0]) - a0)) < 1e-6 and abs(wrap(polar(outer[-1]) - a1)) < 1e-6, "initial and final angles")


TEXTS = ["A", "gj", "a b", "1\n2", "x\ty", "\tq\nz\tk", "?\n\n.w", "", "\u00e9B", "ab\tc\td", "Wxyz\t|"]


@harness("C21", [(t, h) for t in TEXTS for h in (True, False)],
         "texts of 11 contents (spaces, line breaks, tabs, characters without a glyph), horizontal and vertical, symbolic size, position and angle: each glyph is that of the single character scaled, advanced by 8/9 (line: 11/9) of the size, rotated about the origin of the text and shifted")
def text(cx, cfg):
    s, horizontal = cfg
    size = cx.real("size", 0.5, 20)
    pos = cx.point("pos", -50, 50)
    turned = cx.flag("turned")
    a = cx.angle_rad("a") if turned else 0
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    t = cx.gds.Text(s, size, pos, horizontal, a, l, d)
    ca, sa = (cx.cos(a), cx.sin(a)) if turned else (1, 0)
    want = []
    col = row = 0
    for ch in s:
        if ch == "\n":
            if horizontal:
                row, col = row + 1, 0
            else:
                row, col = 0, col + 1
            continue
        if ch == "\t":
            # stops at every fourth character counted from the fourth
            if horizontal:
                col += 4 - (col + 1) % 4
            else:
                row += 4 - (row + 1) % 4
            continue
        for poly in cx.gds.Text(ch, 9).polygons if ch not in " " else []:
            q = []
            for v in poly:
                x, y = (v[0] + 8 * col) * size / 9, (v[1] - 11 * row) * size / 9
                q.append((pos[0] + x * ca - y * sa, pos[1] + x * sa + y * ca))
            want.append(q)
        if horizontal:
            col += 1
        else:
            row += 1
    cx.eqpolys(t.polygons, want, "glyphs")
    cx.check(len(t.layers) == len(want) == len(t.datatypes), "layers and datatypes")
    for x, y in zip(t.layers, t.datatypes):
        cx.eq(x, l, "layer")
        cx.eq(y, d, "datatype")


@harness("C21", [None], "all 94 printable characters: glyphs of unit steps inside the 5 by 9 cell, pairwise distinct, none but the space empty (symbolic size and position)")
def glyphs(cx):
    size = cx.real("size", 0.5, 20)
    pos = cx.point("pos", -50, 50)
    seen = set()
    for k in range(33, 127):
        t = cx.gds.Text(chr(k), 9)
        key = []
        cx.check(len(t.polygons) > 0, "glyph of %r" % chr(k))
        for p in t.polygons:
            q = [(round(cx.nearly_const(v[0]), 6), round(cx.nearly_const(v[1]), 6)) for v in p]
            for (x, y), (x0, y0) in zip(q, q[-1:] + q[:-1]):
                cx.check(abs(x - x0) + abs(y - y0) == 1 and 0 <= x <= 5 and 0 <= y <= 9, "glyph of %r" % chr(k))
            key.append(tuple(q))
        key = tuple(sorted(key))
        cx.check(key not in seen, "glyph of %r" % chr(k))
        seen.add(key)
    cx.check(len(cx.gds.Text(" ", size, pos).polygons) == 0, "space")
    whole = cx.gds.Text("".join(chr(k) for k in range(33, 127)), size, pos)
    n = 0
    for k in range(33, 127):
        for p in cx.gds.Text(chr(k), 9).polygons:
            v, w = whole.polygons[n][0], p[0]
            cx.eq(v[0], pos[0] + (w[0] + 8 * (k - 33)) * size / 9, "place of %r" % chr(k))
            cx.eq(v[1], pos[1] + w[1] * size / 9, "place of %r" % chr(k))
            n += 1
    cx.check(n == len(whole.polygons), "number of polygons")
