"""C19: Path, L1Path and PolyPath construction."""
import math
from symex.ctx import harness
from .geom import Aff, translation, rotation
from .c17 import RAT, unit, add, left, concrete, drop, caps

STR = {"+x": (1, 0), "+y": (0, 1), "-x": (-1, 0), "-y": (0, -1)}
ANG = {"+x": 0, "+y": 1, "-x": 2, "-y": 3}


def direction(cx, kind):
    """Argument and unit vector of a direction."""
    if kind in STR:
        return kind, STR[kind]
    a = cx.angle_rad("dir")
    return a, (cx.cos(a), cx.sin(a))


def section(p, q, d, w0, w1, k0, k1, n):
    """Polygons of a straight section of n parallel paths; the first path is leftmost."""
    l = left(d)
    out = []
    for i in range(n):
        c0, c1 = -(i - (n - 1) / 2) * k0, -(i - (n - 1) / 2) * k1
        out.append([add(p, l, c0 + w0 / 2), add(p, l, c0 - w0 / 2), add(q, l, c1 - w1 / 2), add(q, l, c1 + w1 / 2)])
    return out


def layers(cx, n, m):
    """m layers and datatypes repeated over n paths."""
    L = [cx.int("l%d" % i, 0, 255) for i in range(m)]
    return L, [L[i % m] for i in range(n)]


def same_specs(cx, got, want, msg):
    cx.check(len(got) == len(want), msg + ": number of entries")
    for a, b in zip(got, want):
        cx.eq(a, b, msg)


@harness("C19", [(k, n, m) for k in ("+x", "-y", "angle") for n, m in ((1, 0), (2, 1), (3, 2), (2, 3))],
         "one straight section: 2 axis directions or a symbolic angle, symbolic start, length, width, final width, distance, final distance and axis offset, 1-3 parallel paths with shorter, longer and single layer lists",
         thorough=[(k, n, m) for k in ("-x", "+y") for n, m in ((1, 0), (2, 1), (3, 2), (2, 3))])
def segment(cx, cfg):
    kind, n, m = cfg
    s = cx.point("s", -50, 50)
    a, d = direction(cx, kind)
    l = cx.real("len", 1, 50)
    w0, w1 = cx.real("w0", 0.1, 4), cx.real("w1", 0.1, 4)
    k0, k1 = cx.real("k0", 4, 9), cx.real("k1", 4, 9)
    o = cx.real("o", -9, 9)
    p = cx.gds.Path(w0, s, n, k0)
    cx.check(p.polygons == [] and p.direction == "+x", "new path")
    cx.eq(p.x, s[0], "start")
    cx.eq(p.y, s[1], "start")
    L = [cx.int("l%d" % i, 0, 255) for i in range(m)] or cx.int("l", 0, 255)
    D = [cx.int("d%d" % i, 0, 255) for i in range(m)] or cx.int("d", 0, 255)
    fw, fk, ao = cx.flag("taper"), cx.flag("spread"), cx.flag("shift")
    r = p.segment(l, a, w1 if fw else None, k1 if fk else None, o if ao else 0, L, D)
    cx.check(r is p, "returns its object")
    if not fw:
        w1 = w0
    if not fk:
        k1 = k0
    if not ao:
        o = 0
    q = add(add(s, d, l), left(d), -o)
    cx.eq(p.x, q[0], "end point")
    cx.eq(p.y, q[1], "end point")
    cx.eq(p.w, w1 / 2, "half width")
    cx.eq(p.distance, k1, "distance")
    cx.check(p.direction == a, "direction")
    cx.eq(p.length * p.length, l * l + o * o, "length")
    cx.check(p.length > 0, "length")
    cx.eqsets(p.polygons, section(s, q, d, w0, w1, k0, k1, n), "polygons", cyclic=True)
    want = section(s, q, d, w0, w1, k0, k1, n)
    for i in range(n):
        cx.eqsets([p.polygons[i]], [want[i]], "polygon of path %d" % i, cyclic=True)
    same_specs(cx, p.layers, [L[i % m] if m else L for i in range(n)], "layers")
    same_specs(cx, p.datatypes, [D[i % m] if m else D for i in range(n)], "datatypes")


@harness("C19", [(a, b, n) for a, b in (("+x", "+y"), ("-x", None), ("angle", None), ("-y", "angle")) for n in (1, 2)],
         "two straight sections in different directions or the same (not given again): the second starts at the end of the first with its width and distance; symbolic start, lengths, widths and distances")
def sequence(cx, cfg):
    ka, kb, n = cfg
    s = cx.point("s", -50, 50)
    a, d = direction(cx, ka)
    b, e = direction(cx, kb) if kb else (None, d)
    l, m = cx.real("l", 1, 50), cx.real("m", 1, 50)
    w0, w1 = cx.real("w0", 0.1, 4), cx.real("w1", 0.1, 4)
    k0, k1 = cx.real("k0", 4, 9), cx.real("k1", 4, 9)
    p = cx.gds.Path(w0, s, n, k0)
    p.segment(l, a, w1, k1, layer=3, datatype=4)
    p.segment(m, *([b] if kb else []), layer=[5, 6], datatype=[7])
    q = add(s, d, l)
    r = add(q, e, m)
    cx.eq(p.x, r[0], "end point")
    cx.eq(p.y, r[1], "end point")
    cx.eq(p.length, l + m, "length")
    cx.check(p.direction == (b if kb else a), "direction")
    cx.eqsets(p.polygons[:n], section(s, q, d, w0, w1, k0, k1, n), "first section", cyclic=True)
    cx.eqsets(p.polygons[n:], section(q, r, e, w1, w1, k1, k1, n), "second section", cyclic=True)
    cx.check(list(p.layers) == [3] * n + [5, 6][:n] and list(p.datatypes) == [4] * n + [7] * n, "layers and datatypes")


@harness("C19", [(k, z) for k in ("segment", "arc") for z in ("start", "end", "both")], "sections that start or end with zero width: no repeated vertices, the tip at the end of the axis, no polygon for a section without any width")
def pointed(cx, cfg):
    kind, z = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    w = cx.real("w", 0.1, 1)
    w0, w1 = (0 if z != "end" else w), (w if z == "start" else 0)
    p = cx.gds.Path(w0, s)
    if kind == "segment":
        l = cx.real("len", 1, 50)
        p.segment(l, final_width=w1, layer=3)
        q = add(s, (1, 0), l)
        want = [add(s, (0, 1), w0 / 2), add(s, (0, 1), w0 / -2), add(q, (0, 1), w1 / -2), add(q, (0, 1), w1 / 2)]
    else:
        R = cx.real("R", 5, 20)
        N = 8
        p.arc(R, 0, 2.0, number_of_points=N, final_width=w1, layer=3)
        c = add(s, (1, 0), -R)
        q = (c[0] + R * math.cos(2.0), c[1] + R * math.sin(2.0))
        outer = [j / 3 for j in range(4)]
        inner = list(outer)
        # the side with the larger number of vertices is the inner one
        if z == "start":
            outer, inner = outer[1:], [j / 4 for j in range(5)]
        elif z == "end":
            outer, inner = outer[:-1], [j / 4 for j in range(5)]
        pt = lambda r, t: (c[0] + r * math.cos(t), c[1] + r * math.sin(t))
        want = [pt(R + (w0 * (1 - t) + w1 * t) / 2, 2.0 * t) for t in outer] + [pt(R - (w0 * (1 - t) + w1 * t) / 2, 2.0 * t) for t in inner[::-1]]
    cx.eq(p.x, q[0], "end point")
    cx.eq(p.y, q[1], "end point")
    if z == "both":
        cx.check(len(p.polygons) == 0 and len(p.layers) == 0 and len(p.datatypes) == 0, "nothing drawn")
        return
    if kind == "segment":
        want = want[1:] if z == "start" else want[:-1]
        if z == "start":
            want[0] = s
        else:
            want[-1] = q
    cx.check(list(p.layers) == [3] and list(p.datatypes) == [0], "layer and datatype")
    cx.eqsets(p.polygons, [want], "polygon", cyclic=True)


def ring(cx, p, c, R, a0, a1, w0, w1, k0, k1, n, sg=1):
    """Vertices of each polygon lie on the sides of its path, with the ends of the sides among them."""
    cx.check(len(p) == n, "one polygon per path")
    for i in range(n):
        rest = []
        for side in (1, -1):
            for t in (0, 1):
                r = R + (i - (n - 1) / 2) * (k1 if t else k0) + side * (w1 if t else w0) / 2
                a = a1 if t else a0
                rest.append((c[0] + r * math.cos(a), c[1] + r * math.sin(a)))
        poly = p[i]
        N = len(poly)
        h = N - N // 2
        for j, v in enumerate(poly):
            if j < h:
                t, side, m = j, 1, h
            else:
                t, side, m = N - 1 - j, -1, N - h
            t = t / (m - 1)
            a = a0 + (a1 - a0) * t
            r = R + (i - (n - 1) / 2) * (k0 + (k1 - k0) * t) + side * (w0 + (w1 - w0) * t) / 2
            cx.eq(v[0], c[0] + r * math.cos(a), "vertex of a side")
            cx.eq(v[1], c[1] + r * math.sin(a), "vertex of a side")


@harness("C19", [(a, n, N) for a in ((0.5, 2.0), (3.0, 0.2), (-1.0, -4.5)) for n in (1, 2) for N in (6, 9)],
         "arc after a straight section: symbolic start, radius, widths and distances, both senses, given number of vertices: the vertices of each path divide its sides evenly in angle, width and distance; end point, direction, width, distance, length")
def arc(cx, cfg):
    (a0, a1), n, N = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    R = cx.real("R", 12, 50)
    w0, w1 = cx.real("w0", 0.1, 4), cx.real("w1", 0.1, 4)
    k0, k1 = cx.real("k0", 4, 9), cx.real("k1", 4, 9)
    taper = cx.flag("taper")
    p = cx.gds.Path(w0, s, n, k0)
    L, LL = layers(cx, n, 2)
    r = p.arc(R, a0, a1, number_of_points=N, final_width=w1 if taper else None, final_distance=k1 if taper else None, layer=L, datatype=[4])
    if not taper:
        w1, k1 = w0, k0
    cx.check(r is p, "returns its object")
    c = (s[0] - R * math.cos(a0), s[1] - R * math.sin(a0))
    cx.eq(p.x, c[0] + R * math.cos(a1), "end point")
    cx.eq(p.y, c[1] + R * math.sin(a1), "end point")
    cx.eq(p.w, w1 / 2, "half width")
    cx.eq(p.distance, k1, "distance")
    cx.eq(p.direction, a1 + (math.pi / 2 if a1 > a0 else -math.pi / 2), "direction")
    cx.eq(p.length, R * abs(a1 - a0), "length")
    for i in range(n):
        cx.check(len(p.polygons[i]) == N, "number of vertices")
    ring(cx, p.polygons, c, R, a0, a1, w0, w1, k0, k1, n)
    same_specs(cx, p.layers, LL, "layers")
    cx.check(list(p.datatypes) == [4] * n, "datatypes")


@harness("C19", [(m, n) for m in (199, 12, 0) for n in (1, 2)],
         "arc of concrete radius with the number of vertices from the tolerance, whole or in pieces, symbolic start: the sides are within the tolerance of their circles and the pieces follow each other")
def arc_tolerance(cx, cfg):
    m, n = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    tol = cx.choice("tol", [0.01, 0.2])
    R, a0, a1, w0, w1 = 20.0, 0.25, 3.0, 1.0, 2.0
    k = 5.0
    p = cx.gds.Path(w0, s, n, k)
    p.arc(R, a0, a1, tolerance=tol, max_points=m, final_width=w1, layer=[1, 2], datatype=3)
    c = (-R * math.cos(a0), -R * math.sin(a0))
    cx.eq(p.length, R * (a1 - a0), "length")
    cx.eq(p.direction, a1 + math.pi / 2, "direction")
    for got, want in ((p.x, s[0] + c[0] + R * math.cos(a1)), (p.y, s[1] + c[1] + R * math.sin(a1))):
        cx.eq(got, want, "end point")
    pieces = len(p.polygons) // n
    cx.check(len(p.polygons) == n * pieces and list(p.layers) == [1, 2][:n] * pieces and list(p.datatypes) == [3] * n * pieces, "layers and datatypes")
    cx.check((pieces == 1) if m == 0 else all(len(q) <= m for q in p.polygons), "vertex limit")
    polys = [concrete(cx, q, s) for q in p.polygons]
    for i in range(n):
        rc = R + (i - (n - 1) / 2) * k
        area, prev = 0, a0
        for q in polys[i::n]:
            pol = [(math.hypot(v[0] - c[0], v[1] - c[1]), math.atan2(v[1] - c[1], v[0] - c[0])) for v in q]
            for r, a in pol:
                f = (a - a0) / (a1 - a0)
                cx.check(-1e-9 < f < 1 + 1e-9, "angle of a vertex")
                h = (w0 + (w1 - w0) * f) / 2
                cx.check(min(abs(r - rc - h), abs(r - rc + h)) < 1e-6, "vertex on a side")
            cx.check(abs(min(a for r, a in pol) - prev) < 1e-6, "a piece starts where the last one ended")
            prev = max(a for r, a in pol)
            for (r, a), (r1, b) in zip(pol, pol[1:]):
                if abs(r - r1) < 0.5:
                    # documented as approximate; cutting into pieces loses up to one vertex per piece and side
                    cx.check(r * (1 - math.cos((a - b) / 2)) < (1.5 if pieces == 1 else 4) * tol, "tolerance")
        cx.check(abs(prev - a1) < 1e-6, "last piece ends at the end")


@harness("C19", [(k, t) for k in ("+x", "+y", "-x", "-y", "num") for t in ("l", "r", "ll", "rr", "angle")],
         "turns from 4 axis directions or a numeric direction, by named turns or numeric angles to both sides, symbolic start and radius: tangent start, end point, direction")
def turn(cx, cfg):
    kind, t = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    R = cx.real("R", 12, 50)
    w = cx.real("w", 0.1, 4)
    d0 = cx.choice("d0", [0.7, -2.5]) if kind == "num" else ANG[kind] * math.pi / 2
    ang = {"l": math.pi / 2, "r": -math.pi / 2, "ll": math.pi, "rr": -math.pi}.get(t)
    if ang is None:
        ang = cx.choice("ang", [0.6, -0.6, 2.5, -4.0])
    p = cx.gds.Path(w, s)
    p.segment(5, d0 if kind == "num" else kind)
    m = add(s, (math.cos(d0), math.sin(d0)), 5)
    r = p.turn(R, ang if t == "angle" else t, number_of_points=8, layer=5)
    cx.check(r is p, "returns its object")
    sg = 1 if ang > 0 else -1
    a0 = d0 - sg * math.pi / 2
    a1 = a0 + ang
    c = (m[0] - R * math.cos(a0), m[1] - R * math.sin(a0))
    cx.eq(p.x, c[0] + R * math.cos(a1), "end point")
    cx.eq(p.y, c[1] + R * math.sin(a1), "end point")
    e = p.direction
    if isinstance(e, str):
        cx.check(e in STR, "direction")
        e = ANG[e] * math.pi / 2
    else:
        e = cx.nearly_const(e)
    cx.check(e is not None and abs(math.cos(e) - math.cos(d0 + ang)) < 1e-9 and abs(math.sin(e) - math.sin(d0 + ang)) < 1e-9, "direction")
    cx.eq(p.length, 5 + R * abs(ang), "length")
    ring(cx, p.polygons[1:], c, R, a0, a1, w, w, 0, 0, 1)
    cx.check(list(p.layers) == [0, 5], "layers")


def moved(cx, op, p):
    dx, dy = cx.real("dx", -50, 50), cx.real("dy", -50, 50)
    k = 1
    if op == "translate":
        r, A = p.translate(dx, dy), translation(dx, dy)
    elif op == "rotate":
        a = cx.angle_rad("a")
        r, A = p.rotate(a, (dx, dy)), translation(-dx, -dy).then(rotation(cx.cos(a), cx.sin(a))).then(translation(dx, dy))
    elif op == "scale":
        k = cx.real("k", 0.1, 8)
        r, A = p.scale(k, center=(dx, dy)), translation(-dx, -dy).then(Aff(k, 0, 0, k)).then(translation(dx, dy))
    elif op == "scalexy":
        k = cx.real("k", 0.1, 8)
        j = cx.real("j", 0.1, 8)
        r, A = p.scale(k, j, (dx, dy)), translation(-dx, -dy).then(Aff(k, 0, 0, j)).then(translation(dx, dy))
    else:
        u = {"x": (1, 0), "y": (0, 2), "diag": (3, 4)}[op]
        n2 = u[0] * u[0] + u[1] * u[1]
        q = (dx + u[0], dy + u[1])
        r = p.mirror((dx, dy), q)
        c, t = (u[0] * u[0] - u[1] * u[1]) / n2, 2 * u[0] * u[1] / n2
        A = translation(-dx, -dy).then(Aff(c, t, t, -c)).then(translation(dx, dy))
    cx.check(r is p, "returns its object")
    return A, k


def vec(cx, d):
    return STR[d] if isinstance(d, str) else (cx.cos(d), cx.sin(d))


@harness("C19", [(op, kind, n) for op in ("translate", "rotate", "scale", "x", "y", "diag") for kind in ("+x", "-y", "angle") for n in (1, 2)] + [("scalexy", "+x", 1)],
         "translate, rotate, scale and mirror a path by symbolic amounts: polygons, end point and direction follow, and a further section continues from the mapped end with the mapped width and distance",
         )
def transformed(cx, cfg):
    op, kind, n = cfg
    s = cx.point("s", -50, 50)
    w, k = cx.real("w", 0.1, 3), cx.real("d", 4, 9)
    p = cx.gds.Path(w, s, n, k)
    p.segment(10, "+y").segment(7, direction(cx, kind)[0])
    before = [[(v[0], v[1]) for v in q] for q in p.polygons]
    end = (p.x, p.y)
    d0 = vec(cx, p.direction)
    l0 = p.length
    A, f = moved(cx, op, p)
    cx.eqsets(p.polygons, [[A(v) for v in q] for q in before], "mapped polygons")
    e = A(end)
    cx.eq(p.x, e[0], "mapped end point")
    cx.eq(p.y, e[1], "mapped end point")
    if op == "scalexy":
        return
    D = A.lin(d0)
    d1 = vec(cx, p.direction)
    cx.eq(d1[0] * f, D[0], "mapped direction")
    cx.eq(d1[1] * f, D[1], "mapped direction")
    cx.eq(p.w, w / 2 * f, "half width")
    cx.eq(p.length, l0 * f, "length")
    p.segment(6)
    q = add(e, d1, 6)
    cx.eq(p.x, q[0], "end of the further section")
    cx.eq(p.y, q[1], "end of the further section")
    cx.eqsets(p.polygons[2 * n:], section(e, q, d1, w * f, w * f, k * f, k * f, n), "further section", cyclic=True)


@harness("C19", [(k, r, n) for k in ("parametric", "derivative", "bezier", "tapered") for r in (True, False) for n in (1, 2)],
         "parametric and Bezier sections with symbolic start, absolute and relative: the sides are at half the width and the distance from the curve, square to it; end point, direction, width, distance and length")
def curve(cx, cfg):
    kind, rel, n = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    m = (s[0] + 5, s[1])
    w0, k0 = 1.0, 4.0
    p = cx.gds.Path(w0, s, n, k0)
    p.segment(5)
    kw = dict(layer=[1, 2], datatype=3, tolerance=0.01, relative=rel, max_points=0)
    W, K = (lambda u: w0), (lambda u: k0)
    if kind == "tapered":
        W, K = (lambda u: 1 + u), (lambda u: 4 + u * u)
        kw.update(final_width=2.0, final_distance=K)
    elif kind == "derivative":
        W, K = (lambda u: 1 + u * u), (lambda u: 4 + 2 * u)
        kw.update(final_width=W, final_distance=6.0)
    f = lambda u: (20 * u, 6 * u * u)
    D = lambda u: (20.0, 12 * u)
    if kind == "bezier":
        P = [(0, 0), (5, 8), (14, -4), (22, 3)]
        B = lambda c, u: c[0] if len(c) == 1 else B([(a[0] * (1 - u) + b[0] * u, a[1] * (1 - u) + b[1] * u) for a, b in zip(c, c[1:])], u)
        f = lambda u: B(P, u)
        D = lambda u: B([(b[0] - a[0], b[1] - a[1]) for a, b in zip(P, P[1:])], u)
        r = p.bezier([q if rel else add(m, q) for q in P[1:]], **kw)
    else:
        g = f if rel else (lambda u: (m[0] + 20 * u, m[1] + 6 * u * u))
        r = p.parametric(g, D if kind == "derivative" else None, **kw)
    cx.check(r is p, "returns its object")
    e = add(m, f(1))
    cx.eq(p.x, e[0], "end point")
    cx.eq(p.y, e[1], "end point")
    cx.eq(p.w, W(1) / 2, "half width")
    cx.eq(p.distance, K(1), "distance")
    dd = cx.nearly_const(p.direction)
    v = D(1)
    cx.check(dd is not None and abs(math.cos(dd) - v[0] / math.hypot(*v)) < 2e-2 and abs(math.sin(dd) - v[1] / math.hypot(*v)) < 2e-2, "direction")
    arc = sum(math.hypot(f((j + 1) / 999)[0] - f(j / 999)[0], f((j + 1) / 999)[1] - f(j / 999)[1]) for j in range(999))
    ln = cx.nearly_const(p.length)
    cx.check(ln is not None and abs(ln - 5 - arc) < 0.1, "length")
    polys = p.polygons[n:]
    cx.check(len(polys) == n, "one polygon per path")
    # either order of the parallel paths across the axis (see the order harness)
    got = [concrete(cx, q, m) for q in polys]
    for sg in (1, -1):
        if all(follows(got[i], f, D, W, lambda u: sg * (i - (n - 1) / 2) * K(u)) for i in range(n)):
            break
    else:
        cx.check(False, "sides of the paths")
    cx.check(list(p.layers[n:]) == [1, 2][:n] and list(p.datatypes[n:]) == [3] * n, "layers and datatypes")


def follows(poly, f, D, W, K):
    """The vertices are pairs on both sides of the curve, from its start to its end."""
    N = len(poly)
    if N % 2:
        return False
    last = -1
    for j in range(N // 2):
        a, b = poly[j], poly[N - 1 - j]
        mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        # parameter of the closest point of the shifted curve
        best = None
        for i in range(129):
            u = i / 128
            v = D(u)
            h = math.hypot(*v)
            n = (-v[1] / h, v[0] / h)
            q = add(f(u), n, K(u))
            e = math.hypot(q[0] - mid[0], q[1] - mid[1])
            if best is None or e < best[0]:
                best = (e, u, n)
        e, u, n = best
        if e > 0.05 or u <= last or (j == 0 and u != 0) or (j == N // 2 - 1 and u != 1):
            return False
        last = u
        w = ((a[0] - b[0]), (a[1] - b[1]))
        if abs(math.hypot(*w) - W(u)) > 1e-6 + 0.02 or abs(w[0] * n[1] - w[1] * n[0]) > 0.05 * W(u):
            return False
    return True


@harness("C19", ["right_turn", "parametric", "mirror"], "two parallel paths on different layers: each keeps its side of the axis through a right turn, a parametric section and a mirrored path")
def order(cx, kind):
    cx.float_constants()
    s = cx.point("s", -50, 50)
    p = cx.gds.Path(1, s, 2, 5)
    p.segment(10, layer=[1, 2])
    if kind == "mirror":
        p.mirror((1, 0))
        p.segment(10, layer=[1, 2])
    elif kind == "right_turn":
        p.turn(20, "r", number_of_points=8, layer=[1, 2])
    else:
        p.parametric(lambda u: (10 * u, 0 * u), layer=[1, 2])
    # the second section of the first path starts at the end of its first section
    a, b = p.polygons[0], p.polygons[2]
    near = [v for v in b for q in a if abs(cx.nearly_const(v[0] - q[0])) + abs(cx.nearly_const(v[1] - q[1])) < 1e-6]
    cx.check(len(near) == 2, "first path continues on its side")


def manhattan(start, d, w, k, n, lengths, turns):
    """Outlines of Manhattan paths: width scale by turn; path i at offset (i - (n-1)/2) k on the right... left."""
    c = [start]
    dirs = [d]
    for l, t in zip(lengths, list(turns) + [None]):
        d = dirs[-1]
        c.append(add(c[-1], d, l))
        if t is not None:
            dirs.append(left(d) if t > 0 else (d[1], -d[0]))
    return c, dirs


@harness("C19", [(d, t) for d in ("+x", "+y", "-x", "-y") for t in ((), (1,), (-1,), (1, 1), (1, -1), (-1, -1), (-1, 1, 1))],
         "Manhattan paths from each direction with up to 3 turns, symbolic start, lengths, width and distance, 1-3 parallel paths: outlines at half the width and the distance about the axis, end point, direction, layers; then translated, rotated, scaled or mirrored")
def l1path(cx, cfg):
    dn, turns = cfg
    s = cx.point("s", -50, 50)
    n = cx.choice("n", [1, 2, 3] if len(turns) == 1 else [1, 2])
    w, k = cx.real("w", 0.1, 3), cx.real("dist", 4, 9)
    ls = [cx.real("len%d" % i, 20, 50) for i in range(len(turns) + 1)]
    L = [cx.int("l%d" % i, 0, 255) for i in range(2)]
    p = cx.gds.L1Path(s, dn, w, list(ls), list(turns), n, k, layer=L, datatype=4)
    c, dirs = manhattan(s, STR[dn], w, k, n, ls, turns)
    cx.eq(p.x, c[-1][0], "end point")
    cx.eq(p.y, c[-1][1], "end point")
    cx.check(STR[p.direction] == dirs[-1], "direction")
    want = []
    for i in range(n):
        # the first path is rightmost
        o = (i - (n - 1) / 2) * k
        sides = []
        for h in (o + w / 2, o - w / 2):
            pts = [add(c[0], left(dirs[0]), h)]
            for j in range(1, len(dirs)):
                pts.append(add(add(c[j], left(dirs[j - 1]), h), left(dirs[j]), h))
            pts.append(add(c[-1], left(dirs[-1]), h))
            sides.append(pts)
        want.append(sides[0] + sides[1][::-1])
    cx.check(len(p.polygons) == n, "one polygon per path")
    for i in range(n):
        cx.eqsets([p.polygons[i]], [want[i]], "outline of path %d" % i, cyclic=True)
    same_specs(cx, p.layers, [L[i % 2] for i in range(n)], "layers")
    cx.check(list(p.datatypes) == [4] * n, "datatypes")
    if len(turns) != 1:
        return
    op = cx.choice("op", ["translate", "rotate", "scale", "x", "y", "diag"])
    A, f = moved(cx, op, p)
    cx.eqsets(p.polygons, [[A(v) for v in q] for q in want], "mapped outline", cyclic=True)
    e = A(c[-1])
    cx.eq(p.x, e[0], "mapped end point")
    cx.eq(p.y, e[1], "mapped end point")
    D, d1 = A.lin(dirs[-1]), vec(cx, p.direction)
    cx.eq(d1[0] * f, D[0], "mapped direction")
    cx.eq(d1[1] * f, D[1], "mapped direction")


@harness("C19", ["+x", "-y"], "a Manhattan path with 5 turns cut into pieces of at most 6 or 8 vertices (symbolic start and width): the pieces cover the whole path and keep layer and datatype")
def l1pieces(cx, dn):
    s = cx.point("s", -50, 50)
    w = cx.real("w", 0.1, 3)
    m = cx.choice("m", [6, 8, 10])
    args = ([20, 30, 25, 35, 20, 40], [1, -1, -1, 1, 1])
    whole = cx.gds.L1Path(s, dn, w, args[0], args[1], 2, 6, max_points=0)
    p = cx.gds.L1Path(s, dn, w, args[0], args[1], 2, 6, max_points=m, layer=[1, 2], datatype=[3])
    cx.check(all(len(q) <= m for q in p.polygons), "vertex limit")
    cx.check(len(p.layers) == len(p.polygons) == len(p.datatypes) and list(p.datatypes) == [3] * len(p.polygons), "datatypes")
    cx.eq(p.x, whole.x, "end point")
    cx.eq(p.y, whole.y, "end point")
    from .geom import shoelace2
    for l in (1, 2):
        t = 0
        for q, ll in zip(p.polygons, p.layers):
            if ll == l:
                a = shoelace2(q)
                t = t + a
        cx.eq(t, shoelace2(whole.polygons[l - 1]), "area of the pieces of path %d" % l)


@harness("C19", [(d, n, e) for d in (0, 1, 6) for n in (1, 2) for e in ("flush", "extended")],
         "polygonal path of one straight section, symbolic start, length, widths and distances per point (lists) or constant")
def polypath(cx, cfg):
    di, n, e = cfg
    d = unit(cx, di)
    s = cx.point("s", -50, 50)
    q = add(s, d, cx.real("len", 5, 50))
    w0, w1 = cx.real("w0", 0.1, 3), cx.real("w1", 0.1, 3)
    k0, k1 = cx.real("k0", 4, 9), cx.real("k1", 4, 9)
    const = cx.flag("constant")
    if const:
        w1, k1 = w0, k0
    p = cx.gds.PolyPath([s, q], w0 if const else [w0, w1], n, k0 if const else [k0, k1], ends=e, layer=[1, 2], datatype=3)
    if e == "extended":
        s, q = add(s, d, w0 / -2), add(q, d, w1 / 2)
    want = section(s, q, d, w0, w1, k0, k1, n)[::-1]
    cx.check(len(p.polygons) == n, "one polygon per path")
    for i in range(n):
        cx.eqsets([p.polygons[i]], [want[i]], "outline of path %d" % i, cyclic=True)
    cx.check(list(p.layers) == [1, 2][:n] and list(p.datatypes) == [3] * n, "layers and datatypes")


TURNS = [(0, 2), (0, 4), (0, 1), (1, 3), (0, 3), (2, 6)]


@harness("C19", [(t, c, n) for t in range(4) for c, n in (("miter", 1), ("miter", 2), ("bevel", 1))] + [(5, "bevel", 1)],
         "polygonal path with one bend, symbolic start, lengths, width and distance; miter and bevel corners",
         thorough=[(t, c, n) for t in (4,) for c, n in (("miter", 1), ("miter", 2), ("bevel", 1))])
def polybend(cx, cfg):
    t, corner, n = cfg
    d0, d1 = [unit(cx, i) for i in TURNS[t]]
    s = cx.point("s", -50, 50)
    m = add(s, d0, cx.real("l0", 40, 90))
    q = add(m, d1, cx.real("l1", 40, 90))
    w, k = cx.real("w", 0.1, 3), cx.real("k", 4, 9)
    p = cx.gds.PolyPath([s, m, q], w, n, k, corners=corner, layer=[1, 2], datatype=3)
    n0, n1 = left(d0), left(d1)
    f = 1 / (1 + d0[0] * d1[0] + d0[1] * d1[1])
    turn_ = d0[0] * d1[1] - d0[1] * d1[0]
    for i in range(n):
        o = (i - (n - 1) / 2) * k
        sides = []
        for h, side in ((o + w / 2, 1), (o - w / 2, -1)):
            j = [add(m, (n0[0] + n1[0], n0[1] + n1[1]), f * h)]
            if corner == "bevel" and turn_ * side < 0:
                j = [add(m, n0, h), add(m, n1, h)]
            sides.append([add(s, n0, h)] + j + [add(q, n1, h)])
        cx.eqsets([p.polygons[i]], [sides[0] + sides[1][::-1]], "outline of path %d" % i, cyclic=True)
    cx.check(len(p.polygons) == n and list(p.layers) == [1, 2][:n] and list(p.datatypes) == [3] * n, "layers and datatypes")


def crossing(a, b, c, d):
    """Intersection of the lines through a, b and through c, d."""
    u, v = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
    t = ((c[0] - a[0]) * v[1] - (c[1] - a[1]) * v[0]) / (u[0] * v[1] - u[1] * v[0])
    return add(a, u, t)


@harness("C19", [((0, 2, 1), "miter", 2, 4, 3, "flush"), ((2, 6), "bevel", 2, 2, 3, "flush"), ((1, 3, 0), "bevel", 1, 3, 1, "flush"), ((0, 1, 4), "miter", 3, 2, 2, "extended"), ((4, 0), "bevel", 1, 1, 1, "extended"),
                 ((6, 4, 0), "miter", 2, 1, 4, "round"), ((1, 2), "bevel", 1, 3, 2, "round"), ((1,), "miter", 1, 2, 1, "round"), ((4,), "miter", 2, 2, 2, "round"), ((0,), "bevel", 1, 1, 1, "round")],
         "polygonal path of 1-3 sections along the configured directions (lengths fixed, start symbolic), 1-3 parallel paths, widths and distances that change from vertex to vertex in turn, each kind of corner and end: outlines, semicircles of the ends")
def polypath_varying(cx, cfg):
    import math
    dirs, corner, n, lw, ld, end = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    W, K = [2.0, 3.0, 1.5, 2.5][:lw], [5.0, 7.0, 6.0, 8.0][:ld]
    rel = [(0.0, 0.0)]
    D = [tuple(float(v) for v in RAT[i]) for i in dirs]
    for i, d in enumerate(D):
        rel.append(add(rel[-1], d, 40.0 + 10 * i))
    pts = [add(s, p) for p in rel]
    p = cx.gds.PolyPath(pts, W if lw > 1 else W[0], n, K if ld > 1 else K[0], corners=corner, ends=end, layer=[1, 2], datatype=3)
    m = len(D)
    w, k = [W[j % lw] for j in range(m + 1)], [K[j % ld] for j in range(m + 1)]
    if end == "extended":
        rel[0], rel[-1] = add(rel[0], D[0], w[0] / -2), add(rel[-1], D[-1], w[-1] / 2)

    def at(j, a, i, side):
        return add(rel[j], left(D[a]), (i - (n - 1) / 2) * k[j] + side * w[j] / 2)
    want = []
    for i in range(n):
        sides = []
        for side in (1, -1):
            q = [at(0, 0, i, side)]
            for j in range(1, m):
                turn_ = D[j - 1][0] * D[j][1] - D[j - 1][1] * D[j][0]
                if corner == "bevel" and turn_ * ((i - (n - 1) / 2) * k[j] + side * w[j] / 2) < 0:
                    q += [at(j, j - 1, i, side), at(j, j, i, side)]
                else:
                    q.append(crossing(at(j - 1, j - 1, i, side), at(j, j - 1, i, side), at(j, j, i, side), at(j + 1, j, i, side)))
            sides.append(q + [at(m, m - 1, i, side)])
        want.append([add(s, v) for v in sides[0] + sides[1][::-1]])
    caps = []
    if end == "round":
        for j, a, f in ((0, 0, -1), (m, m - 1, 1)):
            for i in range(n):
                c = add(rel[j], left(D[a]), (i - (n - 1) / 2) * k[j])
                t0 = math.atan2(D[a][1] * f, D[a][0] * f) - math.pi / 2
                caps.append([add(s, c)] + [add(s, add(c, (math.cos(t0 + math.pi * h / 31), math.sin(t0 + math.pi * h / 31)), w[j] / 2)) for h in range(32)])
    cx.check(len(p.polygons) == len(want) + len(caps), "%d polygons" % len(p.polygons))
    for got, q in zip(p.polygons, caps):
        cx.check(len(got) == 33, "vertices of the round ends")
        cx.eqpts(got, q, "round end", 1e-6)
    for got, q in zip(p.polygons[len(caps):], want):
        cx.eqsets([got], [q], "outline", cyclic=True)
    spec = [1 + i % 2 for i in range(n)]
    cx.check(list(p.layers) == spec * (1 + (len(caps) > 0) * 2) and list(p.datatypes) == [3] * len(p.polygons), "layers and datatypes")


@harness("C19", [((0, 2, 0, 4), "miter", 2), ((1, 3, 1, 3), "bevel", 1), ((0, 1, 2, 3), "miter", 1)], "polygonal path of 4 sections cut into pieces of at most the given number of vertices: vertex limit, layers, and total area of each path are those of the uncut path")
def polypath_pieces(cx, cfg):
    from .geom import shoelace2
    dirs, corner, n = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    pts = [s]
    for i, d in enumerate(dirs):
        pts.append(add(pts[-1], tuple(float(v) for v in RAT[d]), 40.0 + 10 * i))
    m = cx.choice("m", [5, 6, 8])
    mk = lambda m: cx.gds.PolyPath(pts, [2.0, 3.0], n, 7.0, corners=corner, max_points=m, layer=[1, 2], datatype=[3])
    whole, p = mk(0), mk(m)
    cx.check(len(whole.polygons) == n, "the uncut path")
    cx.check(all(len(q) <= m for q in p.polygons) if corner == "miter" else len(p.polygons) > n, "vertex limit")
    cx.check(len(p.layers) == len(p.polygons) == len(p.datatypes) and list(p.datatypes) == [3] * len(p.polygons), "datatypes")
    for l in range(n):
        t = 0
        for q, ll in zip(p.polygons, p.layers):
            if ll == l + 1:
                t = t + shoelace2(q)
        cx.eq(t, shoelace2(whole.polygons[l]), "area of the pieces of path %d" % l, 1e-6)
