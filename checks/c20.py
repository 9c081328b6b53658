"""C20: Curve commands."""
import math
from symex.ctx import harness
from .c17 import add


def args(cx, pts, cplx):
    out = []
    for p in pts:
        out += [cx.complex(*p)] if cplx else list(p)
    return out


def check_points(cx, curve, want, msg):
    got = curve.get_points()
    cx.eqpts(got, want, msg)


@harness("C20", [(s, c) for s in ("L", "Lh", "lv", "HL", "Vl", "hH", "vV", "llh", "LvL") for c in (False, True)],
         "sequences of 1-3 straight commands with two points or coordinates each, symbolic start and coordinates, real and complex arguments: end points, relative commands count from the end of the preceding command")
def lines(cx, cfg):
    seq, cplx = cfg
    s = cx.point("s", -50, 50)
    c = cx.gds.Curve(cx.complex(*s)) if cplx else cx.gds.Curve(*s)
    cur = s
    want = [s]
    for k, f in enumerate(seq):
        o = cur if f.islower() else (0, 0)
        if f in "Ll":
            v = cx.points("p%d" % k, 2, -50, 50)
            r = getattr(c, f)(*args(cx, v, cplx))
            new = [add(o, q) for q in v]
        else:
            v = [cx.real("p%d_%d" % (k, i), -50, 50) for i in range(2)]
            r = getattr(c, f)(*v)
            new = [(o[0] + x, cur[1]) if f in "Hh" else (cur[0], o[1] + x) for x in v]
        cx.check(r is c, "returns its object")
        want += new
        cur = new[-1]
    cx.assume(cx.or_(cur[0] - s[0] > 1, s[0] - cur[0] > 1, cur[1] - s[1] > 1, s[1] - cur[1] > 1))
    check_points(cx, c, want, "points")


@harness("C20", ["closed", "open"], "curve that ends at a symbolic distance from its start, symbolic tolerance: the end is left out exactly when it is within the tolerance of the start")
def closing(cx, kind):
    s = cx.point("s", -50, 50)
    tol = cx.real("tol", 0.001, 1)
    dx, dy = cx.real("dx", -2, 2), cx.real("dy", -2, 2)
    d2 = dx * dx + dy * dy
    cx.assume(d2 < tol * tol * 0.98 if kind == "closed" else d2 > tol * tol * 1.02)
    c = cx.gds.Curve(s[0], s[1], tolerance=tol).l(5, 5, 10, 0).L(s[0] + dx, s[1] + dy)
    want = [s, add(s, (5, 5)), add(s, (10, 0))] + ([] if kind == "closed" else [add(s, (dx, dy))])
    check_points(cx, c, want, "points")
    check_points(cx, c, want, "points asked again")


def bez(c, u):
    while len(c) > 1:
        c = [(a[0] * (1 - u) + b[0] * u, a[1] * (1 - u) + b[1] * u) for a, b in zip(c, c[1:])]
    return c[0]


def probe(cx, f, deg):
    """Parameters at which a single section without refinement is sampled: a section along x with equal steps."""
    n = cx.number
    c = cx.gds.Curve(n(-1), n(0), tolerance=1e3)
    k = 2 if f in "Tt" else 3
    if f in "Ss":
        c.C(n(-1) + 1 / n(3), n(0), n(-1) + 2 / n(3), n(0), n(0), n(0))
        a = [2 / n(3), n(0), n(1), n(0)]
    elif f in "Tt":
        c.Q(1 / n(-2), n(0), n(0), n(0))
        a = [n(1), n(0)]
    else:
        c.L(n(0), n(0))
        a = [x for i in range(1, deg + 1) for x in (i / n(deg), n(0))]
    m = len(c.points)
    getattr(c, f)(*a)
    out = [cx.nearly_const(p[0]) for p in c.points[m:]]
    cx.check(all(v is not None for v in out) and abs(out[-1] - 1) < 1e-9 and all(a < b for a, b in zip([0] + out, out)), "sampling of a straight section")
    return out


BEFORE = ["", "L", "l", "H", "h", "V", "v", "arc", "C", "c", "S", "s", "Q", "q", "T", "t", "B", "b"]


def build(cx, f, sets, before, cplx):
    """Curve with a section of the command after another one -> curve, index of its first new point, its control polygons."""
    s = cx.point("s", -50, 50)
    c = cx.gds.Curve(s[0], s[1], tolerance=1e3)
    last = None  # last control point of a cubic or quadratic section
    cur = s
    if before:
        if before in "LlHhVv":
            v = cx.point("b", -50, 50)
            getattr(c, before)(*(v if before in "Ll" else v[:1]))
        elif before == "arc":
            c.arc(600, 0.5, 2.5)
        else:
            k = {"c": 3, "s": 2, "q": 2, "t": 1, "b": 2}[before.lower()]
            v = cx.points("b", k, -50, 50)
            getattr(c, before)(*args(cx, v, False))
            o = cur if before.islower() else (0, 0)
            if before in "Cc" and f in "Ss" or before in "Qq" and f in "Tt":
                last = add(o, v[-2])
            elif before in "Ss" and f in "Ss":
                last = add(o, v[0])
            elif before in "Tt" and f in "Tt":
                last = cur
        p = c.points[-1]
        cur = (p[0], p[1])
    n0 = len(c.points)
    deg = {"c": 3, "s": 3, "q": 2, "t": 2, "b": None}[f.lower()]
    k = {"c": 3, "s": 2, "q": 2, "t": 1, "b": sets}[f.lower()]
    o = cur if f.islower() else (0, 0)
    polys = []
    vs = []
    for i in range(1 if f in "Bb" else sets):
        v = cx.points("c%d_" % i, k, -50, 50)
        vs += v
        w = [add(o, q) for q in v]
        ctrl = [cur]
        if f in "SsTt":
            ctrl.append(cur if last is None else (2 * cur[0] - last[0], 2 * cur[1] - last[1]))
        ctrl += w
        polys.append(ctrl)
        last = ctrl[-2]
        cur = w[-1]
    r = getattr(c, f)(*args(cx, vs, cplx))
    cx.check(r is c, "returns its object")
    return c, n0, polys


@harness("C20", [(f, n, "", c) for f in "CcQqBb" for n in (1, 2) for c in (False, True)] + [(f, 3, "L", False) for f in "Bb"] + [(f, n, b, False) for f in "SsTt" for b in BEFORE for n in (1, 2) if n == 1 or b in "CcSsTtQq"] + [(f, 1, "l", True) for f in "SsTt"],
         "Bezier commands, absolute and relative, with 1-2 sections, all control points symbolic, no refinement: each section starts at the current point, ends at its stated end and is sampled on its curve; smooth continuation after each other command",
         thorough=[(f, n, b, False) for f in "CcQqBb" for b in BEFORE[1:] for n in (1, 2)] + [(f, 3, b, True) for f in "SsTtBb" for b in "CcQqSsTt"])
def section(cx, cfg):
    f, sets, before, cplx = cfg
    c, n0, polys = build(cx, f, sets, before, cplx)
    us = probe(cx, f, len(polys[0]) - 1)
    pts = c.points[n0:]
    cx.check(len(pts) == len(us) * len(polys), "number of points")
    for i, ctrl in enumerate(polys):
        for j, u in enumerate(us):
            q = pts[i * len(us) + j]
            w = ctrl[-1] if j == len(us) - 1 else bez(ctrl, u)
            for k in (0, 1):
                cx.eq(q[k], w[k], "section %d: %s" % (i, "end point" if w is ctrl[-1] else "point on the curve"))


@harness("C20", [(f, n) for f in "LHVCSQTB" for n in (1, 2)], "each relative command against the absolute one with the coordinates shifted by the current point, after a cubic and after a quadratic section; all coordinates symbolic, symbolic tolerance")
def relative(cx, cfg):
    f, n = cfg
    s = cx.point("s", -50, 50)
    cv = []
    k = n * {"C": 3, "S": 2, "Q": 2, "T": 1, "B": 2, "L": 1, "H": 1, "V": 1}[f]
    b = cx.points("b", 3, -50, 50)
    v = cx.points("c", k, -50, 50)
    cubic = cx.flag("cubic")
    for g in (f, f.lower()):
        c = cx.gds.Curve(s[0], s[1], tolerance=1e3)
        (c.C if cubic else c.B)(*args(cx, b, False))
        if not cubic:
            c.Q(*args(cx, [(1, 2), (3, 5)], False))
        p = c.points[-1]
        o = (p[0], p[1]) if g == f else (0, 0)
        w = [add(o, q) for q in v]
        a = args(cx, w, False)
        if f == "H":
            a = [q[0] for q in w]
        elif f == "V":
            a = [q[1] for q in w]
        getattr(c, g)(*a)
        cv.append(c)
    cx.eqpts(cv[0].points, cv[1].points, "points")


SHAPES = {
    "cubic": [(0, 0), (5, 8), (14, -4), (22, 3)],
    "loop": [(0, 0), (20, 12), (-6, 12), (14, 0)],
    "straight": [(0, 0), (3, 0), (6, 0), (9, 0)],
    "quad": [(0, 0), (7, 9), (15, 2)],
    "line": [(0, 0), (4, 9)],
    "quintic": [(0, 0), (3, 5), (8, 6), (11, -4), (15, -6), (20, 2)],
}


def on_curve(cx, got, f, msg, tol, mindist=0.0, N=2048):
    """got: points after the start; they follow the curve f in order, within tol between consecutive points."""
    F = [f(i / N) for i in range(N + 1)]
    last = 0.0
    for k, p in enumerate(got):
        if k == len(got) - 1:
            u = 1.0
        else:
            # first approach of the curve to the point after the preceding parameter
            cand = [i for i in range(int(last * N), N) if (F[i][0] - p[0]) ** 2 + (F[i][1] - p[1]) ** 2 < (abs(F[i + 1][0] - F[i][0]) + abs(F[i + 1][1] - F[i][1])) ** 2 + 1e-12]
            cx.check(bool(cand), msg + ": point on the curve")
            i = cand[0]
            while i + 1 in cand and (F[i + 1][0] - p[0]) ** 2 + (F[i + 1][1] - p[1]) ** 2 < (F[i][0] - p[0]) ** 2 + (F[i][1] - p[1]) ** 2:
                i += 1
            u = i / N
            h = 1 / N
            for _ in range(60):
                u = min((u - h, u, u + h), key=lambda t: (f(t)[0] - p[0]) ** 2 + (f(t)[1] - p[1]) ** 2)
                h *= 0.6
        q = f(u)
        cx.check(abs(q[0] - p[0]) + abs(q[1] - p[1]) < 1e-6, msg + ": point on the curve")
        cx.check(u > last, msg + ": order of the points")
        a, b = f(last), q
        d2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
        for j in range(1, 16):
            m = f(last + (u - last) * j / 16)
            t = 0 if d2 == 0 else max(0, min(1, ((m[0] - a[0]) * (b[0] - a[0]) + (m[1] - a[1]) * (b[1] - a[1])) / d2))
            e = math.hypot(m[0] - a[0] - t * (b[0] - a[0]), m[1] - a[1] - t * (b[1] - a[1]))
            cx.check(e < 2 * tol, msg + ": tolerance")
        last = u
    return last


def shifted(cx, pts, s):
    out = []
    for p in pts:
        q = (cx.nearly_const(p[0] - s[0]), cx.nearly_const(p[1] - s[1]))
        cx.check(q[0] is not None and q[1] is not None, "points follow the start")
        out.append(q)
    return out


@harness("C20", [(f, k) for f in "Cc" for k in ("cubic", "loop", "straight")] + [(f, "quad") for f in "Qq"] + [(f, k) for f in "Bb" for k in ("line", "quad", "cubic", "quintic")] + [("S", "cubic"), ("s", "loop"), ("T", "quad"), ("t", "quad")],
         "Bezier commands with refinement: symbolic start, fixed shapes, two tolerances: ordered points on the curve within the tolerance of it")
def refined(cx, cfg):
    f, shape = cfg
    s = cx.point("s", -50, 50)
    tol = cx.choice("tol", [0.01, 0.3])
    c = cx.gds.Curve(s[0], s[1], tolerance=tol)
    P = SHAPES[shape]
    v = P[1:]
    if f in "SsTt":
        # reflected control point of a first section that is a point-symmetric copy
        q = [(-a, -b) for a, b in P]
        first = q[::-1]
        c.L(*add(s, q[-1]))
        (c.C if f in "Ss" else c.Q)(*args(cx, [add(s, w) for w in first[1:]], False))
        # the first section is checked like the second
        v = P[2:]
        cur = c.points[-1]
        cx.eq(cur[0], s[0], "end point")
        cx.eq(cur[1], s[1], "end point")
    n0 = len(c.points)
    w = v if f.islower() else [add(s, q) for q in v]
    getattr(c, f)(*args(cx, w, cx.flag("complex")))
    pts = shifted(cx, c.points[n0:], s)
    cx.check(math.hypot(pts[-1][0] - P[-1][0], pts[-1][1] - P[-1][1]) < 1e-9, "end point")
    on_curve(cx, pts, lambda u: bez(P, u), "section", tol)


@harness("C20", [(r, a) for r in ("circle", "ellipse", "rotated", "rotated_circle") for a in ((0.0, 2.0), (3.0, 0.2), (-1.0, -4.5), (0.5, 0.6))],
         "circular and elliptical arcs, with the axes rotated or not, both senses: symbolic start, fixed radii, angles and rotation, three tolerances (one greater than the diameter): ordered points on the ellipse, end point, tolerance; complete again after another section")
def arc(cx, cfg):
    kind, (a0, a1) = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    tol = cx.choice("tol", [0.01, 0.4, 30.0])
    rx, ry = (9.0, 9.0) if "circle" in kind else cx.choice("radii", [(9.0, 4.0), (3.0, 11.0)])
    rot = cx.choice("rot", [0.7, -2.0]) if "rotated" in kind else 0
    c = cx.gds.Curve(s[0], s[1], tolerance=tol).l(3, 4)
    r = c.arc(rx if rx == ry else (rx, ry), a0, a1, rot)
    cx.check(r is c, "returns its object")
    def f(u):
        t = a0 + (a1 - a0) * u - rot
        x, y = rx * math.cos(t), ry * math.sin(t)
        return x * math.cos(rot) - y * math.sin(rot), x * math.sin(rot) + y * math.cos(rot)
    o = f(0)
    pts = shifted(cx, c.points[2:], add(s, (3, 4)))
    g = lambda u: (f(u)[0] - o[0], f(u)[1] - o[1])
    e = g(1)
    cx.check(math.hypot(pts[-1][0] - e[0], pts[-1][1] - e[1]) < 1e-9, "end point")
    on_curve(cx, pts, g, "arc", tol)
    c.h(5)
    p, q = c.points[-2], c.points[-1]
    cx.eq(q[0], p[0] + 5, "next section")
    cx.eq(q[1], p[1], "next section")


@harness("C20", [(f, k) for f in "Ii" for k in ("open", "angles", "some", "cycle", "cycle_angles", "tension")],
         "smooth interpolation with symbolic start and fixed relative points: it passes through all points in order, with the stated directions; closed curves return to the start; I and i agree")
def interpolated(cx, cfg):
    f, kind = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    rel = [(5.0, 2.0), (7.0, -3.0), (1.0, -6.0)]
    kw = {"open": {}, "angles": dict(angles=[0.5, -0.2, -2.0, 3.0]), "some": dict(angles=[None, -0.2, None, 3.0]),
          "cycle": dict(cycle=True), "cycle_angles": dict(cycle=True, angles=[None, -0.9, None, None]),
          "tension": dict(t_in=[1, 2, 1, 1.5], t_out=[1.2, 1, 1, 1], curl_start=0.5, curl_end=2)}[kind]
    c = cx.gds.Curve(s[0], s[1], tolerance=0.001)
    r = getattr(c, f)(rel if f == "i" else [add(s, q) for q in rel], **kw)
    cx.check(r is c, "returns its object")
    pts = shifted(cx, c.points, s)
    stops = [(0.0, 0.0)] + rel + ([(0.0, 0.0)] if kw.get("cycle") else [])
    i = 0
    at = []
    for k, p in enumerate(pts):
        if i < len(stops) and math.hypot(p[0] - stops[i][0], p[1] - stops[i][1]) < 1e-9:
            at.append(k)
            i += 1
    cx.check(i == len(stops) and at[-1] == len(pts) - 1, "passes through the points in order")
    def out(k):
        return math.atan2(pts[k + 1][1] - pts[k][1], pts[k + 1][0] - pts[k][0])
    def into(k):
        return math.atan2(pts[k][1] - pts[k - 1][1], pts[k][0] - pts[k - 1][0])
    def near(a, b):
        return abs((a - b + math.pi) % (2 * math.pi) - math.pi) < 0.12
    angles = kw.get("angles") or [None] * len(stops)
    for i, a in enumerate(at):
        if 0 < i < len(at) - 1:
            cx.check(near(out(a), into(a)), "continuous direction")
        if i < len(angles) and angles[i] is not None:
            cx.check(i == len(at) - 1 or near(out(a), angles[i]), "stated direction")
            cx.check(i == 0 or near(into(a), angles[i]), "stated direction")
    if kw.get("cycle"):
        cx.check(near(out(0), into(len(pts) - 1)), "continuous direction at the start")
        cx.check(len(c.get_points()) == len(pts) - 1, "closed")
