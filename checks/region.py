"""Regions covered by polygons, as conditions on a symbolic test point that is on no edge."""


def const(v):
    """Value of a number that is the same for all inputs."""
    if hasattr(v, "const"):
        return v.const()
    return v


def ratio(a, b):
    """a / b when it is the same for all inputs."""
    p, q = getattr(a, "p", None), getattr(b, "p", None)
    if p is None or q is None or p.keys() != q.keys():
        return None
    r = {c / q[m] for m, c in p.items()}
    return r.pop() if len(r) == 1 else None


def within(cx, poly, t):
    """Even-odd membership (an edge followed back and forth has no effect)."""
    odd = False
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        dx, dy = b[0] - a[0], b[1] - a[1]
        cx_, cy_ = const(dx), const(dy)
        if cy_ == 0:
            continue
        if cx_ == 0:
            right = lambda s: t[0] < a[0]
        elif ratio(dx, dy) is not None:
            q = ratio(dx, dy)
            right = lambda s: t[0] - a[0] < q * (t[1] - a[1])
        else:
            # left of the edge, which goes up (s = 1) or down (s = -1)
            right = lambda s: (t[0] - a[0]) * dy * s < dx * (t[1] - a[1]) * s
        c = cx.or_(cx.and_(a[1] <= t[1], t[1] < b[1], right(1)), cx.and_(b[1] <= t[1], t[1] < a[1], right(-1)))
        odd = cx.xor(odd, c)
    return odd


def off(cx, polys, t, margin=None):
    """The test point is on no edge."""
    r = []
    for poly in polys:
        n = len(poly)
        for i in range(n):
            a, b = poly[i], poly[(i + 1) % n]
            dx, dy = b[0] - a[0], b[1] - a[1]
            s = (t[0] - a[0]) * dy - dx * (t[1] - a[1])
            if const(dx) == 0:
                s = t[0] - a[0]
            elif const(dy) == 0:
                s = t[1] - a[1]
            elif ratio(dx, dy) is not None:
                s = t[0] - a[0] - ratio(dx, dy) * (t[1] - a[1])
            box = cx.and_(*[cx.or_(cx.and_(a[k] <= t[k], t[k] <= b[k]), cx.and_(b[k] <= t[k], t[k] <= a[k])) for k in (0, 1)])
            r.append(cx.not_(cx.and_(s == 0, box)))
    return cx.and_(*r)


OPS = {"or": lambda cx, a, b: cx.or_(a, b), "and": lambda cx, a, b: cx.and_(a, b),
       "not": lambda cx, a, b: cx.and_(a, cx.not_(b)), "xor": lambda cx, a, b: cx.xor(a, b)}


def covered(cx, polys, t):
    return [within(cx, p, t) for p in polys]


def any_(cx, c):
    return cx.or_(*c) if c else False


def same_region(cx, got, want, t, msg):
    """Exactly the wanted points are covered, once."""
    w = covered(cx, got, t)
    cx.check(cx.iff(any_(cx, w), want), msg + ": point covered exactly when it is in the result")
    for i in range(len(w)):
        for j in range(i):
            cx.check(cx.not_(cx.and_(w[i], w[j])), msg + ": result polygons do not overlap")


def side(cx, a, b, p):
    """Positive on one side of the line, negative on the other one (not comparable between lines)."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    if const(dx) == 0:
        return p[0] - a[0]
    if const(dy) == 0:
        return p[1] - a[1]
    q = ratio(dx, dy)
    if q is not None:
        return p[0] - a[0] - q * (p[1] - a[1])
    return (p[0] - a[0]) * dy - dx * (p[1] - a[1])


def uncrossed(cx, poly, msg):
    """No two edges of the outline cross at an inner point of both."""
    n = len(poly)
    e = [(poly[i], poly[(i + 1) % n]) for i in range(n)]
    bad = []
    for i in range(n):
        for j in range(i):
            (a, b), (c, d) = e[i], e[j]
            s, t = side(cx, a, b, c), side(cx, a, b, d)
            u, v = side(cx, c, d, a), side(cx, c, d, b)
            bad.append(cx.and_(cx.or_(cx.and_(s < 0, t > 0), cx.and_(s > 0, t < 0)), cx.or_(cx.and_(u < 0, v > 0), cx.and_(u > 0, v < 0))))
    cx.check(cx.not_(cx.or_(*bad)), msg + ": the outline does not cross itself")
