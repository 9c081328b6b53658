"""C14: PolygonSet transformations and areas."""
from symex.ctx import harness
from .geom import shoelace2, area as ref_area, rot

SIZES = [[3, 4], [4, 3]]
MORE = [[5, 3], [1, 2]]
B = "2 polygons of the configured vertex counts, coordinates in [-100,100], layers/datatypes 0..255 "
KINDS = ("PolygonSet", "Polygon", "Rectangle")


def mkset(cx, sizes):
    pts = [cx.points("p%d_" % i, k, -100, 100) for i, k in enumerate(sizes)]
    ps = cx.gds.PolygonSet(pts, layer=0)
    ps.layers = [cx.int("l%d" % i, 0, 255) for i in range(len(sizes))]
    ps.datatypes = [cx.int("d%d" % i, 0, 255) for i in range(len(sizes))]
    ps.properties = {1: "keep"}
    return ps, pts


def checked(cx, sizes, op, f, inverse=None):
    """op applies the transformation, f is the expected map."""
    ps, pts = mkset(cx, sizes)
    L, D = list(ps.layers), list(ps.datatypes)
    old = ps.polygons
    oldpts = list(ps.polygons)
    r = op(ps)
    cx.check(r is ps, "the method returns its object")
    cx.check(len(ps.polygons) == len(sizes), "polygon count changed")
    cx.check(len(ps.layers) == len(L) and len(ps.datatypes) == len(D), "layer/datatype count changed")
    for i in range(len(L)):
        cx.eq(ps.layers[i], L[i], "layer %d" % i)
        cx.eq(ps.datatypes[i], D[i], "datatype %d" % i)
    cx.check(ps.properties == {1: "keep"}, "properties changed")
    cx.eqpolys(ps.polygons, [[f(q) for q in p] for p in pts], "transformed")
    if inverse:
        inverse(ps)
        cx.eqpolys(ps.polygons, pts, "restored by the inverse")


@harness("C14", SIZES, B + "shift in [-1000,1000]^2", thorough=MORE)
def translate(cx, sizes):
    dx, dy = cx.real("dx"), cx.real("dy")
    checked(cx, sizes, lambda s: s.translate(dx, dy), lambda p: (p[0] + dx, p[1] + dy), lambda s: s.translate(-dx, -dy))


@harness("C14", SIZES, B + "any rotation angle in (-7,7) rad, centre in [-100,100]^2", thorough=MORE)
def rotate(cx, sizes):
    a = cx.angle_rad("a")
    o = cx.point("c", -100, 100)
    c, s = cx.cos(a), cx.sin(a)
    checked(cx, sizes, lambda S: S.rotate(a, o), lambda p: rot(p, c, s, o), lambda S: S.rotate(-a, o))


@harness("C14", SIZES, B + "any rotation angle, default centre", thorough=MORE)
def rotate_origin(cx, sizes):
    a = cx.angle_rad("a")
    c, s = cx.cos(a), cx.sin(a)
    checked(cx, sizes, lambda S: S.rotate(a), lambda p: rot(p, c, s))


@harness("C14", SIZES, B + "factor in [-10,10] (for the inverse: not 0), centre in [-100,100]^2", thorough=MORE)
def scale_uniform(cx, sizes):
    k = cx.real("k", -10, 10)
    o = cx.point("c", -100, 100)
    inv = None
    if cx.flag("inverse"):
        cx.assume(cx.or_(k > 0.01, k < -0.01))
        inv = lambda S: S.scale(1 / k, center=o)
    checked(cx, sizes, lambda S: S.scale(k, center=o), lambda p: ((p[0] - o[0]) * k + o[0], (p[1] - o[1]) * k + o[1]), inv)


@harness("C14", SIZES, B + "factors in [-10,10]^2, centre in [-100,100]^2", thorough=MORE)
def scale_axes(cx, sizes):
    k, m = cx.real("kx", -10, 10), cx.real("ky", -10, 10)
    if cx.flag("centred"):
        o = cx.point("c", -100, 100)
        checked(cx, sizes, lambda S: S.scale(k, m, o), lambda p: ((p[0] - o[0]) * k + o[0], (p[1] - o[1]) * m + o[1]))
    else:
        checked(cx, sizes, lambda S: S.scale(k, m), lambda p: (p[0] * k, p[1] * m))


@harness("C14", SIZES, B + "mirror line through two points of [-100,100]^2 at least 0.01 apart", thorough=MORE)
def mirror(cx, sizes):
    p1 = cx.point("m", -100, 100)
    default = cx.flag("default")
    p2 = (0, 0) if default else cx.point("n", -100, 100)
    vx, vy = p2[0] - p1[0], p2[1] - p1[1]
    n2 = vx * vx + vy * vy
    cx.assume(n2 > 0.0001)

    def f(p):
        # reflection: p - 2 * (distance along the normal) * normal
        d = ((p[0] - p1[0]) * -vy + (p[1] - p1[1]) * vx) * 2 / n2
        return (p[0] + d * vy, p[1] - d * vx)
    inv = (lambda S: S.mirror(p1)) if default else (lambda S: S.mirror(p2, p1))
    checked(cx, sizes, (lambda S: S.mirror(p1)) if default else (lambda S: S.mirror(p1, p2)), f, inv)


@harness("C14", [[3, 4], [4, 5]], B + "area and area by specification, all coincidences of layers and datatypes", thorough=[[5, 6], [3, 3, 3]])
def area(cx, sizes):
    ps, pts = mkset(cx, sizes)
    want = [ref_area(p) for p in pts]
    tot = 0
    for w in want:
        tot = tot + w
    cx.eq(ps.area(), tot, "area")
    got = ps.area(True)
    keys = []
    for i in range(len(sizes)):
        for k in keys:
            if cx.cond(cx.and_(k[0] == ps.layers[i], k[1] == ps.datatypes[i])):
                k[2] = k[2] + want[i]
                break
        else:
            keys.append([ps.layers[i], ps.datatypes[i], want[i]])
    cx.check(len(got) == len(keys), "number of specifications")
    for l, d, w in keys:
        hit = [v for (a, b), v in got.items() if cx.cond(cx.and_(a == l, b == d))]
        cx.check(len(hit) == 1, "specification listed once")
        cx.eq(hit[0], w, "area of a specification")
    cx.eqpolys(ps.polygons, pts, "unchanged by area")


@harness("C14", [4], B + "signed area of one polygon after a rotation, scaling and reflection")
def area_scales(cx, n):
    pts = cx.points("p", n, -100, 100)
    a = cx.angle_rad("a")
    kx, ky = cx.real("kx", -10, 10), cx.real("ky", -10, 10)
    ps = cx.gds.PolygonSet([pts])
    ps.rotate(a, (1, 2))
    cx.eq(shoelace2(ps.polygons[0]), shoelace2(pts), "signed area after rotation")
    ps.scale(kx, ky, (3, 4))
    cx.eq(shoelace2(ps.polygons[0]), shoelace2(pts) * kx * ky, "signed area after scaling")
    cx.eq(ps.area(), abs(shoelace2(pts) * kx * ky) / 2, "area after scaling")


@harness("C14", ["Rectangle", "Polygon", "Round"], "the same methods on the shape subclasses; one shape of each kind, symbolic transformation")
def subclasses(cx, kind):
    g = cx.gds
    if kind == "Rectangle":
        s = g.Rectangle(cx.point("p", -100, 100), cx.point("q", -100, 100), 3, 4)
    elif kind == "Polygon":
        s = g.Polygon(cx.points("p", 4, -100, 100), 3, 4)
    else:
        s = g.Round(cx.point("p", -100, 100), cx.real("r", 1, 50), number_of_points=4, layer=3, datatype=4)
    before = [[(q[0], q[1]) for q in p] for p in s.polygons]
    a, k, dx = cx.angle_rad("a"), cx.real("k", -5, 5), cx.real("dx")
    c, sn = cx.cos(a), cx.sin(a)
    s.rotate(a, (1, 2)).scale(k).translate(dx, 7).mirror((0, 0), (0, 1))

    def f(p):
        x, y = rot(p, c, sn, (1, 2))
        return (-(x * k + dx), y * k + 7)
    cx.eqpolys(s.polygons, [[f(q) for q in p] for p in before], "transformed " + kind)
    cx.check(list(s.layers) == [3] * len(before) and list(s.datatypes) == [4] * len(before), "layers and datatypes")
