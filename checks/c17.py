"""C17: FlexPath outlines."""
import math
from symex.ctx import harness
from .geom import Aff, placement, translation, rotation, rot

DIRS = [(1, 0), (3 / 5, 4 / 5), (0, 1), (-3 / 5, 4 / 5), (0, -1), (4 / 5, -3 / 5), (-1, 0), (-4 / 5, -3 / 5)]
from fractions import Fraction as F
RAT = {0: (F(1), F(0)), 1: (F(3, 5), F(4, 5)), 2: (F(0), F(1)), 3: (F(-3, 5), F(4, 5)), 4: (F(0), F(-1)), 5: (F(4, 5), F(-3, 5)), 6: (F(-1), F(0)), 7: (F(-4, 5), F(-3, 5))}


def unit(cx, i):
    return RAT[i] if cx.symbolic else tuple(float(v) for v in RAT[i])


def add(p, d, k=1):
    return (p[0] + d[0] * k, p[1] + d[1] * k)


def left(d):
    return (-d[1], d[0])


def spine(cx, dirs, start=None, lo=5, hi=50):
    """Vertices along unit directions with symbolic lengths."""
    pts = [start if start is not None else cx.point("s", -50, 50)]
    for i, d in enumerate(dirs):
        pts.append(add(pts[-1], unit(cx, d), cx.real("len%d" % i, lo, hi)))
    return pts


def caps(p, q, d, w0, w1, end):
    """Outline of a straight piece p-q along d (unit), widths w0, w1, extension of the ends."""
    n = left(d)
    if end == "flush":
        e0 = e1 = None
    elif end == "extended":
        e0, e1 = w0 / 2, w1 / 2
    else:
        e0, e1 = end
    out = []
    if e0 is not None:
        b = add(p, d, -e0)
        out += [add(b, n, w0 / 2), add(b, n, w0 / -2)]
    else:
        out += [add(p, n, w0 / 2), add(p, n, w0 / -2)]
    if e1 is not None:
        b = add(q, d, e1)
        out += [add(b, n, w1 / -2), add(b, n, w1 / 2)]
    else:
        out += [add(q, n, w1 / -2), add(q, n, w1 / 2)]
    return out


def ends_of(cx, kind):
    return {"flush": "flush", "extended": "extended", "custom": (cx.real("e0", 0, 9), cx.real("e1", 0, 9)) if kind == "custom" else None}[kind]


@harness("C17", [(d, e, n) for d in (0, 1, 4, 7) for e in ("flush", "extended", "custom") for n in (1, 2)],
         "straight spine in 4 directions, symbolic start, length, widths and offsets; flush, half-width-extended and custom ends; 1-2 parallel elements",
         thorough=[(d, e, n) for d in (2, 3, 5, 6) for e in ("flush", "extended", "custom") for n in (1, 3)])
def straight(cx, cfg):
    di, e, n = cfg
    d = unit(cx, di)
    p, q = spine(cx, [di])
    w = [cx.real("w%d" % i, 0.1, 4) for i in range(n)]
    o = [cx.real("o%d" % i, -9, 9) for i in range(n)]
    L = [cx.int("l%d" % i, 0, 255) for i in range(n)]
    end = ends_of(cx, e)
    fp = cx.gds.FlexPath([p, q], w, o, ends=end, layer=list(L), datatype=[3, 4, 5][:n])
    got = fp.get_polygons(True)
    cx.check(len(got) == n, "one specification per element")
    for i in range(n):
        k = [v for (l, dt), v in got.items() if dt == 3 + i]
        cx.check(len(k) == 1 and len(k[0]) == 1, "polygons of an element")
        cx.check(cx.or_(*[l == L[i] for (l, dt) in got if dt == 3 + i]), "layer of an element")
        a, b = add(p, left(d), o[i]), add(q, left(d), o[i])
        cx.eqsets(k[0], [caps(a, b, d, w[i], w[i], end)], "element %d" % i, cyclic=True)
    cx.eqsets(fp.get_polygons(), [v for k in got.values() for v in k], "repeated query")


@harness("C17", [(d, k, r) for d in (0, 3) for k in ("taper", "list", "none") for r in (False, True)] + [(0, "point", False), (0, "rr", True)],
         "straight segments added one by one with symbolic tapered widths and offset increases (number or list), absolute and relative end points",
         thorough=[(d, k, r) for d in (1, 4, 6) for k in ("taper", "list", "none") for r in (False, True)])
def segments(cx, cfg):
    di, kind, rel = cfg
    d = unit(cx, di)
    s = cx.point("s", -50, 50) if kind != "point" else (3, 5)
    l = cx.real("len", 5, 50)
    w0, w1 = cx.real("w0", 0.1, 4), cx.real("w1", 0.1, 4)
    o0 = cx.real("o0", -9, 9)
    fp = cx.gds.FlexPath((3, 5) if kind == "point" else [s], [w0, w0 + 1], [o0, 20])
    e = add(s, d, l)
    arg = (d[0] * l, d[1] * l) if rel else e
    if kind in ("taper", "point"):
        r = fp.segment(arg, w1, relative=rel)
        W, O = [w1, w1], [o0, 20]
    elif kind == "list":
        r = fp.segment(arg, [w1, 3], [o0 + l * F(3, 4) if cx.symbolic else o0 + l * 0.75, 20], relative=rel)
        W, O = [w1, 3], [o0 + l * (F(3, 4) if cx.symbolic else 0.75), 20]
    elif kind == "rr":
        # an offset given as a number is an increase
        fp.segment((d[0], d[1]), relative=True)
        k = cx.real("k", -3, 3)
        r = fp.segment(arg, None, k, True)
        cx.eqpts(fp.points, [s, add(s, d), add(add(s, d), d, l)], "spine")
        cx.eqpts(fp.offsets, [(o0, 20), (o0, 20), (o0 + k, 20 + k)], "offsets")
        cx.eqpts(fp.widths, [(w0, w0 + 1)] * 3, "widths")
        return
    else:
        r = fp.segment(arg, relative=rel)
        W, O = [w0, w0 + 1], [o0, 20]
    cx.check(r is fp, "returns its object")
    cx.eqpts(fp.points, [s, e], "spine")
    cx.check(len(fp.widths) == 2 and len(fp.offsets) == 2, "one width and offset per spine vertex")
    want = []
    n = left(d)
    for i, (a, b, oa, ob) in enumerate(((w0, W[0], o0, O[0]), (w0 + 1, W[1], 20, O[1]))):
        p, q = add(s, n, oa), add(e, n, ob)
        if kind == "list" and i == 0:
            # the element goes along (4, 3) / 5 relative to the spine
            dd = (d[0] * F(4, 5) + n[0] * F(3, 5), d[1] * F(4, 5) + n[1] * F(3, 5)) if cx.symbolic else (d[0] * .8 + n[0] * .6, d[1] * .8 + n[1] * .6)
        else:
            dd = d
        want.append(caps(p, q, dd, a, b, "flush"))
    cx.eqsets(fp.get_polygons(), want, "outline", cyclic=True)


TURNS = [(0, 2), (0, 4), (0, 1), (1, 3), (0, 3), (2, 6)]


def joint(cx, p, d0, d1, w, corner, side):
    """Vertices of the join at spine vertex p on one side (+1: left)."""
    n0, n1 = left(d0), left(d1)
    c = d0[0] * d1[0] + d0[1] * d1[1]
    s = d0[0] * d1[1] - d0[1] * d1[0]
    h = w / 2 * side
    k = 1 / (1 + c)
    cross = (p[0] + (n0[0] + n1[0]) * k * h, p[1] + (n0[1] + n1[1]) * k * h)
    inner = s * side > 0
    if corner == "miter" or inner or (corner == "natural" and c >= 0):
        return [cross]
    a, b = add(p, n0, h), add(p, n1, h)
    if corner == "natural":
        return [add(a, d0, w / 2), add(b, d1, w / -2)]
    return [a, b]       # bevel


@harness("C17", [(t, c, e) for t in range(len(TURNS)) for c, e in (("natural", "flush"), ("miter", "extended"), ("bevel", "custom"))] + [(t, c, "offset") for t in (0, 1, 2) for c in ("natural", "miter", "bevel")],
         "spine with one bend (6 turns: left, right, shallow and sharp), symbolic start, lengths and width; natural, miter and bevel corners; flush, extended, custom ends; with and without an offset",
         thorough=[(t, c, e) for t in range(len(TURNS)) for c in ("natural", "miter", "bevel") for e in ("flush", "extended", "custom", "offset")])
def bends(cx, cfg):
    t, corner, e = cfg
    dirs = [unit(cx, i) for i in TURNS[t]]
    off = e == "offset"
    start = cx.point("s", -50, 50)
    pts = spine(cx, TURNS[t], start, 30, 90)
    w = cx.real("w", 0.1, 4)
    o = cx.real("o", -5, 5) if off else 0
    end = "flush" if off else ends_of(cx, e)
    fp = cx.gds.FlexPath(pts, w, [o] if off else 0, corners=corner, ends=end, max_points=0)
    d0, d1 = dirs
    c = d0[0] * d1[0] + d0[1] * d1[1]
    n0, n1 = left(d0), left(d1)
    k = 1 / (1 + c)
    mid = add(pts[1], (n0[0] + n1[0], n0[1] + n1[1]), k * o) if off else pts[1]
    a = caps(add(pts[0], n0, o), mid, d0, w, w, end)
    b = caps(mid, add(pts[2], n1, o), d1, w, w, end)
    want = [a[0], a[1]] + joint(cx, mid, d0, d1, w, corner, -1) + [b[2], b[3]] + joint(cx, mid, d0, d1, w, corner, 1)[::-1]
    if end not in ("flush",):
        # the sides also keep the vertices at the unextended ends
        f0, f1 = caps(pts[0], mid, d0, w, w, "flush"), caps(mid, pts[2], d1, w, w, "flush")
        want = [f0[0], a[0], a[1], f0[1]] + joint(cx, mid, d0, d1, w, corner, -1) + [f1[2], b[2], b[3], f1[3]] + joint(cx, mid, d0, d1, w, corner, 1)[::-1]
    got = fp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    simplified_eq(cx, got[0], want, dirs)


@harness("C17", [(t, c, e) for t in (0, 1, 3) for c, e in (("natural", "extended"), ("miter", "custom"), ("bevel", "flush"))],
         "the ends of a bent spine whose width and offset change from vertex to vertex, symbolic start and extensions: the four corners of the ends are at half the width and the offset of that end, beyond it by the extension")
def tapered_ends(cx, cfg):
    t, corner, e = cfg
    cx.float_constants()
    pts = [cx.point("s", -50, 50)]
    for d in TURNS[t]:
        pts.append(add(pts[-1], DIRS[d], 50))
    w, o = [1.0, 3.0, 2.0], [0.5, -1.0, 2.0]
    end = ends_of(cx, e)
    # square ends: the width changes along the spine only in the middle, where it does not turn the ends
    P = [pts[0], add(pts[0], DIRS[TURNS[t][0]], 10), pts[1], add(pts[2], DIRS[TURNS[t][1]], -10), pts[2]]
    W, O = [w[0], w[0], w[1], w[2], w[2]], [o[0], o[0], o[1], o[2], o[2]]
    fp = cx.gds.FlexPath([P[0]], W[0], [O[0]], corners=corner, ends=end, max_points=0)
    for k in range(1, 5):
        fp.segment(P[k], W[k], [O[k]])
    d0, d1 = (DIRS[i] for i in TURNS[t])
    a = caps(add(P[0], left(d0), O[0]), P[0], d0, w[0], w[0], end)[:2]
    b = caps(P[4], add(P[4], left(d1), O[4]), d1, w[2], w[2], end)[2:]
    got = fp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    for v, what in [(v, "beginning") for v in a] + [(v, "end") for v in b]:
        near = [cx.and_(*[cx.and_(q[k] - v[k] < 1e-6, v[k] - q[k] < 1e-6) for k in (0, 1)]) for q in got[0]]
        cx.check(cx.cond(cx.or_(*near)), "corner of the " + what)


def simplified_eq(cx, got, want, dirs):
    """Equal outlines; vertices in the middle of a straight side do not matter."""
    cx.eqsets([got], [want], "outline", cyclic=True) if len(got) == len(want) else cx.eqsets([drop(cx, got)], [drop(cx, want)], "outline", cyclic=True)


def drop(cx, p):
    out = []
    p = [b for a, b in zip([p[-1]] + list(p), p) if not cx.cond(cx.and_(*[cx.and_(b[k] - a[k] < 1e-6, b[k] - a[k] > -1e-6) for k in (0, 1)]))]
    n = len(p)
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        s = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        if not cx.cond(cx.and_(s < 1e-9, s > -1e-9)):
            out.append(b)
    return out


@harness("C17", [(t, wd) for t in (0, 1, 2, 4) for wd in (1, 3)],
         "round corners and round ends of a bent spine with symbolic start: every vertex lies on the straight sides or on the circle of half the width around the joint or end, within tolerance of it")
def rounded(cx, cfg):
    t, w = cfg
    cx.float_constants()
    d0, d1 = [tuple(float(v) for v in RAT[i]) for i in TURNS[t]]
    s = cx.point("s", -50, 50)
    pts = [s, add(s, d0, 20)]
    pts.append(add(pts[1], d1, 30))
    fp = cx.gds.FlexPath(pts, w, corners="round", ends="round", tolerance=0.01, max_points=0)
    got = fp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    poly = [(v[0] - s[0], v[1] - s[1]) for v in got[0]]
    flat = []
    for v in poly:
        q = []
        for u in v:
            if hasattr(u, "const"):
                u = u.const()
                cx.check(u is not None, "the outline moves with its start")
            q.append(float(u))
        flat.append(tuple(q))
    P = [(0.0, 0.0), add((0, 0), d0, 20)]
    P.append(add(P[1], d1, 30))
    on = outline_distance(flat, P, (d0, d1), w / 2, cx, True)
    cx.check(on, "a vertex is away from the outline")
    # the outline is the stroked spine: area within the tolerance
    full = region_area(P, (d0, d1), w)
    a = abs(sum(flat[i - 1][0] * flat[i][1] - flat[i][0] * flat[i - 1][1] for i in range(len(flat)))) / 2
    cx.check(abs(a - full) < 0.03 * w * 4, "area of the stroked spine")


def region_area(P, D, w):
    c = D[0][0] * D[1][0] + D[0][1] * D[1][1]
    th = math.acos(max(-1, min(1, c)))
    h = w / 2
    l = 50
    # two rectangles - inner overlap (kite) + outer sector + two half discs
    return w * l - h * h * math.tan(th / 2) + h * h * th / 2 + math.pi * h * h


def outline_distance(poly, P, D, h, cx, ends):
    """All vertices at distance h from the spine (ends: capsule)."""
    for v in poly:
        m = min(seg_dist(v, P[i], P[i + 1]) for i in range(len(P) - 1))
        if abs(m - h) > 1e-6:
            return False
    return True


def seg_dist(v, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = ((v[0] - a[0]) * dx + (v[1] - a[1]) * dy) / (dx * dx + dy * dy)
    t = max(0, min(1, t))
    return math.hypot(v[0] - a[0] - t * dx, v[1] - a[1] - t * dy)


def concrete(cx, poly, s):
    out = []
    for v in poly:
        q = []
        for u, o in ((v[0], s[0]), (v[1], s[1])):
            u = u - o
            u = cx.nearly_const(u)
            cx.check(u is not None, "the outline moves with its start")
            q.append(u)
        out.append(tuple(q))
    return out


@harness("C17", [(t, r, o) for t in (0, 1, 2, 3) for r in (4, 8) for o in (0, 1)],
         "circular bends of the configured radius (and offset) with symbolic start: sides are arcs at the bend radius plus and minus half the width about the centre of the bend, joined to the straight sides")
def circular(cx, cfg):
    t, R, o = cfg
    cx.float_constants()
    d0, d1 = [tuple(float(v) for v in RAT[i]) for i in TURNS[t]]
    s = cx.point("s", -50, 50)
    w = 1.0
    pts = [s, add(s, d0, 40)]
    pts.append(add(pts[1], d1, 50))
    fp = cx.gds.FlexPath(pts, w, [o] if o else 0, corners="circular bend", bend_radius=R, tolerance=0.01, max_points=0)
    got = fp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    poly = concrete(cx, got[0], s)
    n0, n1 = left(d0), left(d1)
    c = d0[0] * d1[0] + d0[1] * d1[1]
    sg = 1 if d0[0] * d1[1] - d0[1] * d1[0] > 0 else -1
    J = add(add((0, 0), d0, 40), (n0[0] + n1[0], n0[1] + n1[1]), o / (1 + c))
    C = add(J, (n0[0] + n1[0], n0[1] + n1[1]), sg * R / (1 + c))
    T = R * math.tan(math.acos(c) / 2)
    counts = {1: 0, -1: 0}
    for v in poly:
        # before the bend, after it, or on one of its arcs
        a = ((v[0] - J[0]) * d0[0] + (v[1] - J[1]) * d0[1])
        b = ((v[0] - J[0]) * d1[0] + (v[1] - J[1]) * d1[1])
        ra = math.hypot(v[0] - C[0], v[1] - C[1])
        ha = abs((v[0] - J[0]) * n0[0] + (v[1] - J[1]) * n0[1])
        hb = abs((v[0] - J[0]) * n1[0] + (v[1] - J[1]) * n1[1])
        if a <= -T + 1e-9 and abs(ha - w / 2) < 1e-6 and abs(ra - R) > 2:
            continue
        if b >= T - 1e-9 and abs(hb - w / 2) < 1e-6 and abs(ra - R) > 2:
            continue
        e = 1 if abs(ra - R - w / 2) < 1e-6 else -1
        cx.check(abs(ra - R - e * w / 2) < 1e-6, "a vertex of the bend is off its arc")
        counts[e] += 1
    cx.check(counts[1] > 1 and counts[-1] > 1, "both sides bend")
    # ends of the spine (shifted by the offset)
    A, B = add((0, 0), n0, o), add(add(add((0, 0), d0, 40), d1, 50), n1, o)
    for p, n in ((A, n0), (B, n1)):
        for k in (1, -1):
            q = add(p, n, k * w / 2)
            cx.check(min(abs(v[0] - q[0]) + abs(v[1] - q[1]) for v in poly) < 1e-6, "corner of an end")


@harness("C17", [(di, n) for di in (0, 1, 6) for n in (1, 2)], "a straight path with round ends (concrete width, symbolic start and direction length): half circles about the ends of the spine shifted by the offset")
def round_ends(cx, cfg):
    di, n = cfg
    cx.float_constants()
    d = tuple(float(v) for v in RAT[di])
    s = cx.point("s", -50, 50)
    w, o = [1.0, 2.5][:n], [0.0, 6.0][:n]
    fp = cx.gds.FlexPath([s, add(s, d, 25)], w, o, ends="round", tolerance=0.01, max_points=0, layer=[1, 2][:n])
    got = fp.get_polygons(True)
    for i in range(n):
        polys = got[(i + 1, 0)]
        cx.check(len(polys) == 1, "one polygon")
        poly = concrete(cx, polys[0], s)
        a = add((0, 0), left(d), o[i])
        b = add(a, d, 25)
        for v in poly:
            cx.check(abs(seg_dist(v, a, b) - w[i] / 2) < 1e-6, "vertices at half the width from the spine")
        k = [((v[0] - a[0]) * d[0] + (v[1] - a[1]) * d[1]) for v in poly]
        cx.check(min(k) < -w[i] / 2 + 0.02 and max(k) > 25 + w[i] / 2 - 0.02, "round ends reach half the width beyond the spine")
        ar = abs(sum(poly[j - 1][0] * poly[j][1] - poly[j][0] * poly[j - 1][1] for j in range(len(poly)))) / 2
        cx.check(abs(ar - (25 * w[i] + math.pi * w[i] ** 2 / 4)) < 0.03 * w[i] * 3, "area")


@harness("C17", [(k, t) for k in ("ends", "corners", "bend", "arc", "zero") for t in (0.6, 2.5, 40.0)],
         "round ends, round corners, circular bends and arcs with tolerances from half of the width or radius up, and round ends of a path without width: every vertex on the outline (symbolic start)")
def coarse(cx, cfg):
    kind, tol = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    w = 0.0 if kind == "zero" else 1.0
    P = [(0.0, 0.0), (25.0, 0.0)]
    if kind in ("corners", "bend"):
        P.append((25.0, 30.0))
    if kind == "arc":
        fp = cx.gds.FlexPath([s], w, tolerance=tol)
        fp.arc(1.0, 0, 1.5)
        pts = concrete(cx, fp.points, s)
        cx.check(len(pts) >= 3, "arc of at least two steps")
        for v in pts:
            cx.check(abs(math.hypot(v[0] + 1, v[1]) - 1) < 1e-9, "points of the arc on its circle")
        e = (math.cos(1.5) - 1, math.sin(1.5))
        cx.check(math.hypot(pts[-1][0] - e[0], pts[-1][1] - e[1]) < 1e-9, "end of the arc")
        return
    kw = {"ends": dict(ends="round"), "zero": dict(ends="round"), "corners": dict(corners="round"), "bend": dict(corners="circular bend", bend_radius=1.2)}[kind]
    fp = cx.gds.FlexPath([add(s, v) for v in P], w, tolerance=tol, max_points=0, **kw)
    got = fp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    poly = concrete(cx, got[0], s)
    for v in poly:
        if kind == "bend":
            C = (25 - 1.2, 1.2)
            ra = math.hypot(v[0] - C[0], v[1] - C[1])
            on = min(seg_dist(v, P[0], P[1]), seg_dist(v, P[1], P[2]))
            cx.check(min(abs(abs(ra - 1.2) - w / 2), abs(on - w / 2)) < 1e-6, "vertices of a bend on its arcs or sides")
        else:
            d = min(seg_dist(v, a, b) for a, b in zip(P, P[1:]))
            # the inner corner lies on both sides
            cx.check(abs(d - w / 2) < 1e-6, "vertices at half the width from the spine")


@harness("C17", [("arc", a, k) for a in ((0.0, 1.5), (0.5, -1.0), (3.0, 5.0)) for k in ("same", "taper")] + [("turn", a, k) for a in (1.2, -0.7, "l", "r", "ll") for k in ("same", "taper")],
         "arcs and turns of radius 5 appended to a path with a symbolic start: points on the circle tangent to the previous segment, exact end, widths and offsets linear from point to point")
def arcs(cx, cfg):
    kind, a, k = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    d = (0.6, 0.8)
    w1, o1 = (2.0, 1.5) if k == "taper" else (1.0, 0.5)
    fp = cx.gds.FlexPath([s, add(s, d, 10)], 1.0, [0.5], tolerance=0.001, max_points=0)
    kw = dict(width=w1, offset=[o1]) if k == "taper" else {}
    e = (6.0, 8.0)
    if kind == "arc":
        r = fp.arc(5, a[0], a[1], **kw)
        i0, i1 = a
    else:
        r = fp.turn(5, a, **kw)
        ang = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi}.get(a, a)
        t = math.atan2(d[1], d[0])
        i0 = t - math.pi / 2 if ang > 0 else t + math.pi / 2
        i1 = i0 + ang
    cx.check(r is fp, "returns its object")
    pts = concrete(cx, fp.points, s)
    C = (e[0] - 5 * math.cos(i0), e[1] - 5 * math.sin(i0))
    n = len(pts) - 2
    cx.check(len(fp.widths) == len(pts) and len(fp.offsets) == len(pts), "one width and offset per spine vertex")
    cx.check(n >= 2, "points of the arc")
    for j in range(n + 1):
        t = i0 + (i1 - i0) * j / n
        cx.eq(pts[1 + j][0], C[0] + 5 * math.cos(t), "point of the arc")
        cx.eq(pts[1 + j][1], C[1] + 5 * math.sin(t), "point of the arc")
        cx.eq(fp.widths[1 + j][0], 1 + (w1 - 1) * j / n, "width along the arc")
        cx.eq(fp.offsets[1 + j][0], 0.5 + (o1 - 0.5) * j / n, "offset along the arc")
    cx.check(5 * (1 - math.cos((i1 - i0) / n / 2)) < 0.002, "tolerance of the arc")


@harness("C17", [("two", None, 1), ("two", None, 2)] + [(k, c, e) for k in ("three",) for c in ("natural", "miter", "bevel") for e in ("extended", "custom")] + [("three", "natural", "parallel")],
         "translate, rotate, scale and placement by symbolic amounts (also negative scales) of straight and bent paths (1-2 elements), with and without an earlier query of the polygons; reflected only without offsets")
def transformations(cx, cfg):
    kind, corner, e = cfg
    g = cx.gds
    if kind == "two":
        pts = [(1, 2), (31, 42)]
        fp = g.FlexPath(pts, [1.0, 2.0][:e], [0.5, 9.0][:e], ends="extended", layer=[1, 2][:e])
        offs = True
    else:
        pts = [(1, 2), (31, 42), (31, 92)]
        par = e == "parallel"
        fp = g.FlexPath(pts, [1.0, 2.0] if par else 2.0, [-1.5, 1.5] if par else 0, corners=corner, ends=(2.0, 0.5) if e == "custom" else "extended" if e == "extended" else "flush", layer=[1, 2] if par else 1)
        offs = par
    before = {k: [[(v[0], v[1]) for v in p] for p in ps] for k, ps in fp.get_polygons(True).items()}
    op = cx.choice("op", ["translate", "rotate", "scale", "transform", "reflect"])
    if op == "reflect" and offs:
        op = "transform"
    fresh = cx.flag("copied")
    if fresh:
        fp = g.copy(fp)
    dx, dy = cx.real("dx", -50, 50), cx.real("dy", -50, 50)
    if op == "translate":
        r, A = fp.translate(dx, dy), translation(dx, dy)
    elif op == "rotate":
        a = cx.angle_rad("a")
        r, A = fp.rotate(a, (dx, dy)), translation(-dx, -dy).then(rotation(cx.cos(a), cx.sin(a))).then(translation(dx, dy))
    elif op == "scale":
        k = cx.real("k", 0.1, 8) * cx.choice("sign", [1, -1])
        r, A = fp.scale(k, (dx, dy)), translation(-dx, -dy).then(Aff(k, 0, 0, k)).then(translation(dx, dy))
    else:
        a, k = cx.angle_rad("a"), cx.real("k", 0.1, 8) * (cx.choice("sign", [1, -1]) if op == "transform" else 1)
        ar = cx.flag("array")
        sx, sy = (cx.real("sx", -50, 50), cx.real("sy", -50, 50)) if ar else (0, 0)
        r = fp.transform(cx.array((dx, dy)), a, k, op == "reflect", cx.array((sx, sy)) if ar else None)
        c, s = cx.cos(a), cx.sin(a)
        lat = Aff(1, 0, 0, -1) if op == "reflect" else Aff()
        A = Aff(k, 0, 0, k).then(translation(sx, sy)).then(lat).then(rotation(c, s)).then(translation(dx, dy))
    cx.check(r is fp, "returns its object")
    got = fp.get_polygons(True)
    cx.check(set(got) == set(before), "specifications")
    for key in before:
        cx.eqsets(got[key], [[A(v) for v in p] for p in before[key]], "transformed outline", cyclic=True)


@harness("C17", [(t, g) for t in (True, False) for g in (True, False)], "scaling a path by a symbolic factor (also a negative one) with width_transform and gdsii_path on or off: the width scales unless the path is a GDSII path without width_transform; offsets, bend radius and custom ends always scale")
def scaled_width(cx, cfg):
    wt, gp = cfg
    w, o, k = cx.real("w", 0.1, 4), cx.real("o", -5, 5), cx.real("k", 0.1, 8)
    e0, e1, b = cx.real("e0", 0, 5), cx.real("e1", 0, 5), cx.real("b", 1, 9)
    how, sign = cx.choice("how", [("scale", 1), ("scale", -1), ("transform", 1), ("transform", -1)])
    fp = cx.gds.FlexPath([(0, 0), (30, 0)], [w, w], [o, 7], ends=[(e0, e1), "flush"], bend_radius=[b, None], width_transform=wt, gdsii_path=gp)
    if how == "scale":
        fp.scale(k * sign)
    else:
        fp.transform(None, None, k * sign, False)
    W = w if gp and not wt else w * k
    for i in (0, 1):
        cx.eq(fp.widths[i][0], W, "width")
        cx.eq(fp.offsets[i][0], o * k, "offset")
    cx.eq(fp.ends[0][0], e0 * k, "extension")
    cx.eq(fp.ends[0][1], e1 * k, "extension")
    cx.check(fp.ends[1] == "flush", "end")
    cx.eq(fp.bend_radius[0], b * k, "bend radius")
    cx.check(fp.bend_radius[1] is None, "bend radius")
    cx.eqpts(fp.points, [(0, 0), (30 * k * sign, 0)], "spine")


@harness("C17", [None], "options given as shorter lists or single values apply to the parallel elements in turn; a single offset number spaces the elements evenly about the spine")
def options(cx):
    o = cx.real("o", 0.1, 5)
    w = [cx.real("w%d" % i, 0.1, 4) for i in range(3)]
    l = [cx.int("l%d" % i, 0, 255) for i in range(2)]
    fp = cx.gds.FlexPath([(0, 0), (10, 0)], list(w), o, layer=list(l), datatype=[7], ends=["flush", "extended"])
    cx.check(fp.n == 3, "number of elements")
    for i in range(3):
        cx.eq(fp.offsets[0][i], o * (i - 1), "offset")
        cx.eq(fp.widths[1][i], w[i], "width")
        cx.eq(fp.layers[i], l[i % 2], "layer")
        cx.check(fp.datatypes[i] == 7 and fp.ends[i] == ["flush", "extended"][i % 2], "repeated options")
    # symmetric about the spine for even numbers as well
    fp = cx.gds.FlexPath([(0, 0), (10, 0)], [w[0], w[1]], o)
    cx.eq(fp.offsets[0][0], o / -2, "offset")
    cx.eq(fp.offsets[1][1], o / 2, "offset")
    fp = cx.gds.FlexPath([(0, 0), (10, 0)], w[0], [o, 3, -o])
    cx.check(fp.n == 3, "number of elements")
    cx.eqsets(fp.get_polygons(), [caps((0, k), (10, k), (1, 0), w[0], w[0], "flush") for k in (o, 3, -o)], "outlines", cyclic=True)


@harness("C17", [(w, t) for w in ("first", "middle", "last") for t in (False, True)], "a spine with a repeated vertex (symbolic start, with symbolic length and width or with fixed widths and offsets that change from vertex to vertex): the same outline as without it")
def repeated(cx, cfg):
    where, tapered = cfg
    s = cx.point("s", -50, 50)
    l, w = (20, 1) if tapered else (cx.real("len", 5, 50), cx.real("w", 0.1, 4))
    q = add(s, (1, 0), l)
    r = add(q, (0, 1), 30)
    vs = [(s, w, 0), (q, 2 if tapered else w, 0.25 if tapered else 0), (r, 3 if tapered else w, -0.5 if tapered else 0)]
    k = {"first": 0, "middle": 1, "last": 2}[where]

    def outline(vs):
        fp = cx.gds.FlexPath([vs[0][0]], [vs[0][1]], [vs[0][2]], corners="miter", max_points=0)
        for q, width, off in vs[1:]:
            fp.segment(q, [width], [off])
        return fp.get_polygons()

    cx.eqsets(outline(vs[:k + 1] + vs[k:]), outline(vs), "outline", cyclic=True)
