"""C28: rounding the corners of polygons."""
import math
from fractions import Fraction
from symex.ctx import harness
from .c17 import RAT as RAT17, add

RAT = dict(RAT17)
RAT[8] = (-RAT[1][0], -RAT[1][1])
# a slight turn of about 1.8 degrees
RAT[9], RAT[10] = (Fraction(3968, 3970), Fraction(126, 3970)), (Fraction(-3968, 3970), Fraction(-126, 3970))


def unit(cx, i):
    return RAT[i] if cx.symbolic else tuple(float(v) for v in RAT[i])



# directions of the sides (in order) and their lengths, with zero sum
SHAPES = {
    "rectangle": ((0, 2, 6, 4), lambda a, b: (a, b, a, b)),
    "clockwise": ((2, 0, 4, 6), lambda a, b: (a, b, a, b)),
    "triangle": ((0, 2, 7), lambda a, b: (4 * a, 3 * a, 5 * a)),
    "ell": ((0, 2, 6, 2, 6, 4), lambda a, b: (2 * a, b, a, b, a, 2 * b)),
    "collinear": ((0, 0, 2, 6, 4), lambda a, b: (a, 3 * a, b, 4 * a, b)),
}
SHAPES["slight"] = ((0, 9, 6, 10), lambda a, b: (a, b, a, b))
SHAPES["slanted"] = ((0, 1, 6, 8), lambda a, b: (a, b, a, b))


def shape(cx, name, tag="", lo=4, hi=20):
    dirs, f = SHAPES[name]
    a, b = cx.real("a" + tag, lo, hi), cx.real("b" + tag, lo, hi)
    lens = f(a, b)
    P = [cx.point("s" + tag, -50, 50)]
    for d, l in zip(dirs, lens):
        P.append(add(P[-1], unit(cx, d), l))
    for k in (0, 1):
        cx.eq(P[0][k], P[-1][k], "closed")
    return P[:-1], [(float(RAT[d][0]), float(RAT[d][1])) for d in dirs], lens


def rounded(cx, P, dirs, lens, radii, n, factor=0.49):
    """Outline with rounded corners: corner i is between sides i - 1 and i."""
    out = []
    for i in range(len(P)):
        u, v = dirs[i - 1], dirs[i]
        th = math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])
        if abs(th) < 1e-9:
            out.append(P[i])
            continue
        t = math.tan(abs(th) / 2)
        m = cx.min(radii[i] * t, lens[i - 1] * factor, lens[i] * factor)
        r = m / t
        sg = 1 if th > 0 else -1
        # from the corner: back along the first side, then to the center on the inner side of the turn
        c = add(add(P[i], u, -m), (-u[1], u[0]), r * sg)
        k = max(int(math.ceil(abs(th) / (2 * math.pi) * n - 1e-9)), 2)
        a0 = math.atan2(-u[0] * sg, u[1] * sg)
        for j in range(k):
            a = a0 + th * j / (k - 1)
            out.append(add(c, (math.cos(a), math.sin(a)), r))
    return out


def compare(cx, got, want, msg):
    cx.check(len(got) == len(want), msg + ": number of vertices")
    # the outline starts at the last corner
    cx.eqsets([got], [want], msg, cyclic=True)


@harness("C28", [(s, n) for s in SHAPES for n in (8, 5, 12)],
         "shapes of 3-6 sides (convex, reflex and straight corners, both orientations) of symbolic position and size, one symbolic radius for all corners, below and above the limits of the sides; 5, 8 or 12 points per circle")
def outline(cx, cfg):
    name, n = cfg
    cx.float_constants()
    P, dirs, lens = shape(cx, name)
    r = cx.real("r", 0.25, 15)
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    ps = cx.gds.Polygon(P, l, d)
    res = ps.fillet(r, points_per_2pi=n, max_points=0 if n == 5 else 199)
    cx.check(res is ps, "the method returns its object")
    cx.check(len(ps.polygons) == 1 and len(ps.layers) == 1 and len(ps.datatypes) == 1, "one polygon")
    cx.eq(ps.layers[0], l, "layer")
    cx.eq(ps.datatypes[0], d, "datatype")
    compare(cx, ps.polygons[0], rounded(cx, P, dirs, lens, [r] * len(P), n), "rounded outline")


@harness("C28", ["number", "polygon", "vertex", "mixed", "flat", "tuple", "repeated", "repeated flat"],
         "two polygons (triangle and rectangle of symbolic position and size) with one radius, one for each polygon, one for each vertex (nested or in one list), symbolic and within the limits; a repeated vertex goes with its radius")
def radii(cx, form):
    cx.float_constants()
    A, B = shape(cx, "triangle", "t"), shape(cx, "rectangle", "q")
    ra, rb = [cx.real("r%d" % i, 0.25, 1.9) for i in range(3)], [cx.real("r%d" % i, 0.25, 1.9) for i in range(3, 7)]
    P, Q = A[0], B[0]
    if form == "number":
        ra, rb = [ra[0]] * 3, [ra[0]] * 4
        arg = ra[0]
    elif form in ("polygon", "tuple"):
        ra, rb = [ra[0]] * 3, [rb[0]] * 4
        arg = [ra[0], rb[0]]
    elif form == "mixed":
        rb = [rb[0]] * 4
        arg = [list(ra), rb[0]]
    elif form == "vertex":
        arg = [list(ra), list(rb)]
    elif form == "flat":
        arg = ra + rb
    else:
        # the second vertex of the rectangle comes twice; its second radius goes with it
        Q = [Q[0], Q[1], Q[1], Q[2], Q[3]]
        rr = [rb[0], rb[1], cx.real("extra", 0.25, 1.9), rb[2], rb[3]]
        arg = ra + rr if form == "repeated flat" else [list(ra), rr]
    if form == "tuple":
        arg = tuple(arg)
    keep = repr_free(arg)
    g = cx.gds
    ps = g.PolygonSet([P, Q], 5, 6)
    ps.fillet(arg, points_per_2pi=8, max_points=0)
    cx.check(repr_free(arg) == keep, "the list of radii is left alone")
    cx.check(len(ps.polygons) == 2 and list(ps.layers) == [5, 5] and list(ps.datatypes) == [6, 6], "polygons, layers, datatypes")
    compare(cx, ps.polygons[0], rounded(cx, A[0], A[1], A[2], ra, 8), "triangle")
    compare(cx, ps.polygons[1], rounded(cx, B[0], B[1], B[2], rb, 8), "rectangle")


def repr_free(v):
    """The identities of the objects in nested lists."""
    return [repr_free(x) for x in v] if isinstance(v, (list, tuple)) else id(v)


@harness("C28", ["short", "long", "vertex", "flat"], "lists of radii of a wrong length are refused with a ValueError and nothing changes")
def refused(cx, form):
    A, B = shape(cx, "triangle", "t"), shape(cx, "rectangle", "q")
    r = cx.real("r", 0.25, 1.9)
    ps = cx.gds.PolygonSet([A[0], B[0]], 5, 6)
    arg = {"short": [r], "long": [r] * 3, "vertex": [[r] * 3, [r] * 5], "flat": [r] * 6}[form]
    cx.raises(ValueError, lambda: ps.fillet(arg), "wrong length accepted")
    cx.eqpolys(ps.polygons, [A[0], B[0]], "unchanged")
