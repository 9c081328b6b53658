"""C27: smooth interpolation (Curve.I/i, Path.smooth, FlexPath.smooth, RobustPath.smooth)."""
import math
from symex.ctx import harness
from .c17 import RAT, unit, add

ASSUMPTIONS = ["the linear system of the interpolation is regular and solved by its equations", "the denominators of the interpolation are different from zero"]


def heading(cx, i):
    """Angle of a unit vector."""
    if cx.symbolic:
        return cx.core.s_arctan2(*[cx.number(v) for v in reversed(RAT[i])]) if RAT[i][1] else (cx.number(0) if RAT[i][0] > 0 else cx.pi)
    return math.atan2(float(RAT[i][1]), float(RAT[i][0]))


def turn(cx, i, j):
    """Cosine and sine of the angle from direction i to direction j."""
    a, b = unit(cx, i), unit(cx, j)
    return a[0] * b[0] + a[1] * b[1], a[0] * b[1] - a[1] * b[0]


LIMIT = 60
SIN = {"a": 2 ** 0.5, "b": 1.0 / 16, "c": (3 - 5 ** 0.5) / 2}


def speeds(ct, st, cp, sp):
    """Hobby's lengths of the two tangents of a section of length 1 and tension 1."""
    a, b, c = SIN["a"], SIN["b"], SIN["c"]
    alpha = a * (st - b * sp) * (sp - b * st) * (ct - cp)
    return (2 + alpha) / (1 + (1 - c) * ct + c * cp) / 3, (2 - alpha) / (1 + (1 - c) * cp + c * ct) / 3


def controls(cx, S):
    """Control points of a section from its samples at 0, 0.2, 0.5, 0.8 and 1."""
    p, q = S[0], S[4]
    out = []
    n = cx.number
    for k in (0, 1):
        # B(u) = (1-u)^3 p + 3 u (1-u)^2 a + 3 u^2 (1-u) b + u^3 q
        r1 = S[1][k] - p[k] * n("0.512") - q[k] * n("0.008")
        r2 = S[3][k] - p[k] * n("0.008") - q[k] * n("0.512")
        # r1 = .384 a + .096 b, r2 = .096 a + .384 b
        a = (r1 * 4 - r2) / n("1.44")
        b = (r2 * 4 - r1) / n("1.44")
        cx.eq(S[2][k], (p[k] + 3 * a + 3 * b + q[k]) / 8, "the section is a cubic Bezier curve")
        out.append((a, b))
    return (out[0][0], out[1][0]), (out[0][1], out[1][1])


def samples(cx, c, n):
    """Points of the n sections added to a curve that had one point."""
    pts = [(p[0], p[1]) for p in c.points]
    cx.check(len(pts) == 1 + 4 * n, "number of points")
    return [pts[4 * i:4 * i + 5] for i in range(n)]


def polygon(cx, dirs, lens, start):
    P = [start]
    for d, l in zip(dirs, lens):
        P.append(add(P[-1], unit(cx, d), l))
    return P


def curve(cx, P, rel, **kw):
    n = cx.number
    c = cx.gds.Curve(P[0][0], P[0][1], tolerance=math.inf)
    if rel:
        c.i([(p[0] - P[0][0], p[1] - P[0][1]) for p in P[1:]], **kw)
    else:
        c.I(P[1:], **kw)
    return c


def tensions(cx, kind, n):
    if kind == "one":
        return 1, 1, [1] * n, [1] * n
    if kind == "number":
        a, b = cx.real("tin", 0.75, 2), cx.real("tout", 0.75, 2)
        return a, b, [a] * n, [b] * n
    a = [cx.real("tin%d" % i, 0.75, 2) for i in range(n)]
    b = [cx.real("tout%d" % i, 0.75, 2) for i in range(n)]
    return a, b, a, b


GIVEN = [((0,), (1, 5)), ((1, 5), (0, 2, 4)), ((0, 2), (1, 3, 2)), ((1, 0, 5), (0, 1, 5, 7)), ((6, 4), (3, 6, 7)), ((0, 2), (0, 0, 2))]


@harness("C27", [(i, r, t) for i in range(len(GIVEN)) for r in (False, True) for t in ("one", "list") if t == "one" or i in (1, 3)] + [(1, False, "number")],
         "open curves of 1-3 sections with all tangent directions given: rational directions of sections and tangents, symbolic start, lengths and (where configured) tensions: sections end at the points, tangents along the given directions with Hobby's lengths",
         thorough=[(i, r, "number") for i in range(len(GIVEN)) for r in (False, True)])
def given(cx, cfg):
    i, rel, ten = cfg
    dirs, tans = GIVEN[i]
    n = len(tans)
    s = cx.point("s", -50, 50)
    lens = [cx.real("d%d" % k, 1, 20) for k in range(n - 1)]
    P = polygon(cx, dirs, lens, s)
    tin, tout, ti, to = tensions(cx, ten, n)
    c = curve(cx, P, rel, angles=[heading(cx, t) for t in tans], t_in=tin, t_out=tout)
    check_given(cx, samples(cx, c, n - 1), P, dirs, lens, tans, ti, to)


def check_given(cx, secs, P, dirs, lens, tans, ti, to):
    m = len(P)
    for k, S in enumerate(secs):
        j = (k + 1) % m
        cx.eqpts([S[0], S[4]], [P[k], P[j]], "ends of a section")
        a, b = controls(cx, S)
        ct, st = turn(cx, dirs[k], tans[k])
        cp, sp = turn(cx, tans[j], dirs[k])
        r, q = speeds(ct, st, cp, sp)
        cx.eqpts([a], [add(P[k], unit(cx, tans[k]), r * lens[k] / to[k])], "control point after a point")
        cx.eqpts([b], [add(P[j], unit(cx, tans[j]), -q * lens[k] / ti[j])], "control point before a point")


# closed polygons by directions: sums of lengths are made to vanish
LOOPS = {"square": ((0, 2, 6, 4), lambda a, b: (a, b, a, b)), "triangle": ((0, 2, 7), lambda a, b: (a * 4, a * 3, a * 5))}


def loop(cx, name):
    dirs, f = LOOPS[name]
    a = cx.real("a", 1, 9)
    b = cx.real("b", 1, 9) if name == "square" else None
    lens = f(a, b)
    P = polygon(cx, dirs, lens, cx.point("s", -50, 50))
    for k in (0, 1):
        cx.eq(P[0][k], P[-1][k], "closed")
    return P[:-1], dirs, lens


@harness("C27", [("square", (0, 1, 3, 7), r) for r in (False, True)] + [("triangle", (5, 1, 3), r) for r in (False, True)],
         "closed curves of 3 and 4 sections with all tangent directions given, symbolic start and size: as for open curves, with a last section back to the start",
         )
def closed(cx, cfg):
    name, tans, rel = cfg
    P, dirs, lens = loop(cx, name)
    n = len(P)
    tin, tout, ti, to = tensions(cx, "list", n)
    c = curve(cx, P, rel, angles=[heading(cx, t) for t in tans], t_in=tin, t_out=tout, cycle=True)
    check_given(cx, samples(cx, c, n), P, dirs, lens, tans, ti, to)


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def check_smooth(cx, secs, P, tans, closed):
    """Directions: stated where given, continuous everywhere."""
    m = len(P)
    C = []
    for k, S in enumerate(secs):
        j = (k + 1) % m
        cx.eqpts([S[0], S[4]], [P[k], P[j]], "ends of a section")
        C.append(controls(cx, S))
    for k in range(m):
        after = sub(C[k][0], P[k]) if k < len(secs) else None
        before = sub(P[k], C[k - 1][1]) if k > 0 or closed else None
        if tans[k] is not None:
            for v in (before, after):
                if v is not None:
                    cx.eq(cross(v, unit(cx, tans[k])), 0, "stated direction")
        if before is not None and after is not None:
            cx.eq(cross(before, after), 0, "continuous direction")


N = None
OPEN = [((0, 2), (N, N, N)), ((1, 5), (0, N, N)), ((0, 4), (N, 1, N)), ((1, 0), (N, N, 3)), ((0, 2, 1), (N, N, N, N)), ((0, 2, 1), (0, N, N, 1)), ((0, 2, 1), (N, 1, N, N)), ((1, 4, 0), (2, N, 5, N)), ((0,), (N, N)), ((0,), (1, N)), ((1,), (N, 5))]


@harness("C27", [(i, r, t) for i in range(len(OPEN)) for r in (False, True) for t in ("one", "list") if t == "one" or not r],
         "open curves of 1-3 sections with none or some of the tangent directions given (rational directions, symbolic start, lengths, tensions, curls): sections end at the points, tangents along the given directions, the same line before and after every inner point")
def openfree(cx, cfg):
    cx.exact_literals()
    cx.assume_nonzero()
    cx.name_large(LIMIT)
    i, rel, ten = cfg
    dirs, tans = OPEN[i]
    n = len(tans)
    s = cx.point("s", -50, 50)
    lens = [cx.real("d%d" % k, 1, 20) for k in range(n - 1)]
    P = polygon(cx, dirs, lens, s)
    tin, tout, ti, to = tensions(cx, ten, n)
    kw = dict(curl_start=cx.real("c0", 0.5, 2), curl_end=cx.real("c1", 0.5, 2)) if ten == "list" else {}
    ang = None if all(t is None for t in tans) and not rel else [None if t is None else heading(cx, t) for t in tans]
    c = curve(cx, P, rel, angles=ang, t_in=tin, t_out=tout, **kw)
    cx.name_large(None)
    check_smooth(cx, samples(cx, c, n - 1), P, tans, False)


@harness("C27", [("square", t, r) for t in ((N,) * 4, (0, N, N, N), (N, 1, N, 7), (N, N, N, 3)) for r in (False, True)] + [("triangle", t, False) for t in ((N,) * 3, (N, 3, N), (1, N, 5))],
         "closed curves of 3 and 4 sections with none or some of the tangent directions given: as for open curves, also at the point where the curve closes")
def closedfree(cx, cfg):
    cx.exact_literals()
    cx.assume_nonzero()
    cx.name_large(LIMIT)
    name, tans, rel = cfg
    if name == "triangle":
        cx.float_constants()
    P, dirs, lens = loop(cx, name)
    n = len(P)
    ang = None if all(t is None for t in tans) else [None if t is None else heading(cx, t) for t in tans]
    c = curve(cx, P, rel, angles=ang, cycle=True)
    cx.name_large(None)
    check_smooth(cx, samples(cx, c, n), P, tans, True)


# ---------------------------------------------------------------- values of the free directions

def gauss(A, b):
    n = len(b)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def hobby(pts, angles, ti, to, curls, closed):
    """Control points by the mock curvature equations: unknown directions w_k at the points (numbers)."""
    m = len(pts)
    nseg = m if closed else m - 1
    z = [complex(*p) for p in pts]
    d = [abs(z[(k + 1) % m] - z[k]) for k in range(nseg)]
    arg = [math.atan2((z[(k + 1) % m] - z[k]).imag, (z[(k + 1) % m] - z[k]).real) for k in range(nseg)]
    wrap = lambda x: math.remainder(x, 2 * math.pi)
    # unknowns: theta of every section, phi of every section
    A, b = [], []

    def row(terms, rhs):
        r = [0.0] * (2 * nseg)
        for i, v in terms:
            r[i] += v
        A.append(r)
        b.append(rhs)
    T, F = (lambda k: k), (lambda k: nseg + k)
    al, be = (lambda k: 1.0 / to[k % m]), (lambda k: 1.0 / ti[k % m])
    leave = lambda k, f: [(T(k), f * (3 - be(k + 1)) / al(k) ** 2 / d[k]), (F(k), -f * be(k + 1) / al(k) ** 2 / d[k])]
    arrive = lambda k, f: [(F(k), f * (3 - al(k)) / be(k + 1) ** 2 / d[k]), (T(k), -f * al(k) / be(k + 1) ** 2 / d[k])]
    for k in range(m):
        out = k if closed or k < m - 1 else None
        inn = (k - 1) % m if closed or k > 0 else None
        if angles[k] is not None:
            if out is not None:
                row([(T(out), 1)], angles[k] - arg[out])
            if inn is not None:
                row([(F(inn), 1)], arg[inn] - angles[k])
        elif out is None:
            row(leave_end(al, be, inn, T, F, curls[1], False), 0)
        elif inn is None:
            row(leave_end(al, be, out, T, F, curls[0], True), 0)
        else:
            row([(T(out), 1), (F(inn), 1)], -wrap(arg[out] - arg[inn]))
            # leaving and arriving curvature agree: theta and phi measure opposite turns
            row(leave(out, 1) + arrive(inn, -1), 0)
    x = gauss(A, b)
    res = []
    for k in range(nseg):
        t, p = x[k], x[nseg + k]
        r, q = speeds(math.cos(t), math.sin(t), math.cos(p), math.sin(p))
        v = z[(k + 1) % m] - z[k]
        c0 = z[k] + v * complex(math.cos(t), math.sin(t)) * r * al(k)
        c1 = z[(k + 1) % m] - v * complex(math.cos(p), -math.sin(p)) * q * be(k + 1)
        res.append(((c0.real, c0.imag), (c1.real, c1.imag)))
    return res


def leave_end(al, be, k, T, F, curl, first):
    """Mock curvature at the end of the curve is curl times the one at its neighbour."""
    a, e = al(k), be(k + 1)
    near, far = (3 - e) / a ** 2, -e / a ** 2      # leaving z_k: theta, phi
    nr, fr = (3 - a) / e ** 2, -a / e ** 2         # arriving at z_k+1: phi, theta
    if first:
        return [(T(k), near - curl * fr), (F(k), far - curl * nr)]
    return [(F(k), nr - curl * far), (T(k), fr - curl * near)]


SHAPES = {
    "corner": (((0, 2), (3, 4)), False), "bend": (((1, 5), (5, 7)), False), "three": (((0, 2, 1), (4, 2, 5)), False), "zigzag": (((1, 4, 0, 2), (5, 5, 3, 2)), False),
    "square": (((0, 2, 6, 4), (2, 2, 2, 2)), True), "rectangle": (((0, 2, 6, 4), (5, 2, 5, 2)), True), "triangle": (((0, 2, 7), (4, 3, 5)), True), "clockwise": (((2, 0, 7, 4), (8, 8, 5, 4)), True),
}
TENS = {"one": (1, 1), "number": (0.8, 1.5), "list": ((1, 1.25, 0.8, 1.5, 2), (1.5, 0.75, 1, 1.2, 0.9))}
VALUES = [(s, None, t, c) for s in SHAPES for t in TENS for c in ((1, 1), (0.5, 1.5)) if c == (1, 1) or (t == "list" and not SHAPES[s][1])] \
    + [("three", (0, N, N, 2), "list", (1, 1)), ("three", (N, N, 5, N), "list", (0.5, 2)), ("zigzag", (N, 0, N, N, N), "list", (1, 0)), ("zigzag", (N, N, N, N, 3), "number", (0, 1)),
       ("rectangle", (N, N, 1, N), "list", (1, 1)), ("triangle", (N, 2, N), "list", (1, 1)), ("clockwise", (N, 1, 0, N), "list", (1, 1)), ("square", (0, N, N, N), "number", (1, 1))]


@harness("C27", [v + (r,) for v in VALUES for r in (False, True)],
         "curves of a fixed shape (2-4 sections; open and closed; no, some directions given; default, common and individual tensions; curls) at symbolic position and scale: control points by an independent solution of the mock curvature equations")
def values(cx, cfg):
    shape, tans, ten, curls, rel = cfg
    cx.exact_literals()
    cx.assume_nonzero()
    cx.float_constants()
    (dirs, lens), closed = SHAPES[shape]
    a, s = cx.real("a", 0.5, 20), cx.point("s", -50, 50)
    P = polygon(cx, dirs, [a * l for l in lens], s)
    Q = [(0.0, 0.0)]
    for d, l in zip(dirs, lens):
        Q.append((Q[-1][0] + l * float(RAT[d][0]), Q[-1][1] + l * float(RAT[d][1])))
    if closed:
        P, Q = P[:-1], Q[:-1]
    n = len(P)
    tans = tans or (N,) * n
    ti, to = TENS[ten]
    if ten == "list":
        ti, to = list(ti[:n]), list(to[:n])
    ang = [None if t is None else math.atan2(float(RAT[t][1]), float(RAT[t][0])) for t in tans]
    kw = dict(angles=ang) if any(t is not None for t in tans) else {}
    if closed:
        kw["cycle"] = True
    if curls != (1, 1):
        kw["curl_start"], kw["curl_end"] = curls
    if ten != "one":
        kw["t_in"], kw["t_out"] = ti, to
    c = curve(cx, P, rel, **kw)
    fill = lambda v: v if isinstance(v, list) else [v] * n
    want = hobby(Q, ang, fill(ti), fill(to), curls, closed)
    secs = samples(cx, c, n if closed else n - 1)
    cx.check(len(want) == len(secs), "number of sections")
    for k, S in enumerate(secs):
        j = (k + 1) % n
        cx.eqpts([S[0], S[4]], [P[k], P[j]], "ends of a section")
        got = controls(cx, S)
        for g, w in zip(got, want[k]):
            cx.eqpts([g], [(s[0] + a * w[0], s[1] + a * w[1])], "control points of section %d" % k)


# ---------------------------------------------------------------- paths

DEFAULTS = dict(angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle=False)


def given(kw):
    """Arguments other than the documented defaults: what is left out must mean the default."""
    return {k: v for k, v in kw.items() if not (v == DEFAULTS[k] or k == "angles" and all(a is None for a in v))}


PATHS = [("corner", None, "one", (1, 1)), ("bend", (0, N, N), "list", (1, 0.5)), ("rectangle", None, "number", (1, 1)), ("triangle", (N, 2, N), "list", (1, 1))]


@harness("C27", [(k, i, r) for k in ("flex", "robust", "path") for i in range(len(PATHS)) for r in (False, True)],
         "smooth sections of the three kinds of paths (symbolic start, fixed shape, two parallel elements that change width and offset): the same polygons as of Bezier sections through the control points of the mock curvature equations")
def paths(cx, cfg):
    kind, i, rel = cfg
    shape, tans, ten, curls = PATHS[i]
    cx.float_constants()
    cx.exact_literals()
    g = cx.gds
    s = cx.point("s", -50, 50)
    (dirs, lens), closed = SHAPES[shape]
    Q = [(0.0, 0.0)]
    for d, l in zip(dirs, lens):
        Q.append((Q[-1][0] + 2 * l * float(RAT[d][0]), Q[-1][1] + 2 * l * float(RAT[d][1])))
    if closed:
        Q = Q[:-1]
    n = len(Q)
    tans = tans or (N,) * n
    ti, to = TENS[ten]
    if ten == "list":
        ti, to = list(ti[:n]), list(to[:n])
    ang = [None if t is None else math.atan2(float(RAT[t][1]), float(RAT[t][0])) for t in tans]
    fill = lambda v: v if isinstance(v, list) else [v] * n
    C = hobby(Q, ang, fill(ti), fill(to), curls, closed)
    kw = given(dict(angles=ang, curl_start=curls[0], curl_end=curls[1], t_in=ti, t_out=to, cycle=closed))
    at = lambda p: (s[0] + p[0], s[1] + p[1])
    P = Q[1:] if rel else [at(p) for p in Q[1:]]
    secs = [[at(c0), at(c1), at(Q[(k + 1) % n])] for k, (c0, c1) in enumerate(C)]
    if kind == "path":
        def new():
            return g.Path(0.4, s, 2, 1.0)
        fw = [0.4 + 0.1 * k for k in range(len(secs))]
        fd = [1 + 0.25 * k for k in range(len(secs))]
        A = new().smooth(P, final_widths=fw, final_distances=fd, relative=rel, tolerance=0.05, layer=[3, 4], datatype=2, **kw)
        B = new()
        for k, c in enumerate(secs):
            B.bezier(c, 0.05, 5, 199, fw[k], fd[k], False, [3, 4], 2)
        D = new().smooth(P, relative=rel, **kw)
        E = new()
        for c in secs:
            E.bezier(c, relative=False)
        pairs = [(A, B), (D, E)]
        for X, Y in pairs:
            cx.eqpts([(X.x, X.y)], [(Y.x, Y.y)], "end of the path")
            cx.eq(X.direction, Y.direction, "direction")
            cx.eq(X.w, Y.w, "width")
            cx.eq(X.distance, Y.distance, "distance")
            cx.eq(X.length, Y.length, "length")
            cx.check(list(X.layers) == list(Y.layers) and list(X.datatypes) == list(Y.datatypes), "layers and datatypes")
    else:
        def new():
            if kind == "flex":
                return g.FlexPath([s], [0.4, 0.3], 1.0, tolerance=0.05, corners="bevel")
            return g.RobustPath(s, [0.4, 0.3], 1.0, tolerance=0.05)
        w, o = [0.6, 0.2], [-0.5, 0.75]
        A = new().smooth(P, width=w, offset=o, relative=rel, **kw)
        B = new()
        for c in secs:
            B.bezier(c, w, o, False)
        D = new().smooth(P, width=0.5, offset=0.125, relative=rel, **kw)
        E = new()
        for c in secs:
            E.bezier(c, 0.5, 0.125, False)
        pairs = [(A, B), (D, E)]
    if kind == "robust":
        for X, Y in pairs:
            cx.check(len(X) == len(Y), "number of sections")
            cx.eqpts([(X.x[0], X.x[1])], [(Y.x[0], Y.x[1])], "end of the path")
            for k in range(4 * len(Y) + 1):
                u = k / 4.0
                for name in ("__call__", "width"):
                    a, b = getattr(X, name)(u), getattr(Y, name)(u)
                    cx.check(len(a) == len(b) == 2, "number of elements")
                    for v, w in zip(a, b):
                        if name == "__call__":
                            cx.eqpts([v], [w], "position at %s" % u)
                        else:
                            cx.eq(v, w, "%s at %s" % (name, u))
        return
    for X, Y in pairs:
        p, q = (X.polygons, Y.polygons) if kind == "path" else (X.get_polygons(), Y.get_polygons())
        cx.check(len(p) == len(q) > 0, "number of polygons")
        for u, v in zip(p, q):
            cx.eqpts(u, v, "polygons")
