"""Reference geometry (independent of gdspy), works on symbolic and concrete numbers."""


def shoelace2(p):
    """Twice the signed area."""
    t = 0
    n = len(p)
    for i in range(n):
        x0, y0 = p[i][0], p[i][1]
        x1, y1 = p[(i + 1) % n][0], p[(i + 1) % n][1]
        t = t + (x0 * y1 - x1 * y0)
    return t


def area(p):
    return abs(shoelace2(p)) / 2


def rot(p, c, s, o=(0, 0)):
    x, y = p[0] - o[0], p[1] - o[1]
    return (o[0] + x * c - y * s, o[1] + x * s + y * c)


class Aff:
    """Affine map x -> A x + t."""

    def __init__(self, a=1, b=0, c=0, d=1, tx=0, ty=0):
        self.m = (a, b, c, d, tx, ty)

    def __call__(self, p):
        a, b, c, d, tx, ty = self.m
        return (a * p[0] + b * p[1] + tx, c * p[0] + d * p[1] + ty)

    def lin(self, p):
        a, b, c, d, tx, ty = self.m
        return (a * p[0] + b * p[1], c * p[0] + d * p[1])

    def then(self, o):
        """o after self."""
        a, b, c, d, tx, ty = self.m
        A, B, C, D, TX, TY = o.m
        return Aff(A * a + B * c, A * b + B * d, C * a + D * c, C * b + D * d, A * tx + B * ty + TX, C * tx + D * ty + TY)


def translation(dx, dy):
    return Aff(tx=dx, ty=dy)


def rotation(c, s):
    return Aff(c, -s, s, c)


def scaling(k):
    return Aff(k, 0, 0, k)


XREFL = Aff(1, 0, 0, -1)


def placement(cx, origin=None, rotation_deg=None, magnification=None, x_reflection=None):
    """Reference placement: reflect, magnify, rotate, translate."""
    t = Aff()
    if x_reflection:
        t = t.then(XREFL)
    if magnification is not None:
        t = t.then(scaling(magnification))
    if rotation_deg is not None:
        a = rotation_deg * cx.pi / 180
        t = t.then(rotation(cx.cos(a), cx.sin(a)))
    if origin is not None:
        t = t.then(translation(origin[0], origin[1]))
    return t


def match(cx, got, want, msg, same=None):
    """Multiset equality of two lists; same(a, b) decides (may branch)."""
    got, want = list(got), list(want)
    cx.check(len(got) == len(want), "%s: %d entries instead of %d" % (msg, len(got), len(want)))
    rest = list(want)
    for i, g in enumerate(got):
        for j, w in enumerate(rest):
            if same(g, w):
                del rest[j]
                break
        else:
            cx.check(False, "%s: entry %d is not expected" % (msg, i))
