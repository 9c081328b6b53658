"""C26: boolean operations, offsets and cuts; the extension module is executed symbolically from its LLVM IR."""
import os
from symex.ctx import harness
from .region import within, off, OPS, same_region, covered, any_, uncrossed

NEED_CLIPPER = True
ASSUMPTIONS = ["64-bit integers do not overflow and products of coordinates are exact in doubles (coordinates below 2^25 in units of the precision)",
               "integer coordinates are relaxed to reals in the solver (the answer holds for all of them, or a counterexample is scaled to integers); all intersections are on the grid",
               "the compiled extension behaves as the LLVM IR of clang -O1 of its source (witnesses run on a g++ build)"]


def prepare(work):
    """Translate the functions used once, before the jobs start."""
    from symex import llvm, loader
    h = llvm.hooks(os.path.join(loader.REPO, "gdspy", "clipper.cpp"), ["clip", "offset", "_chop"])
    A = [[(0, 0), (20, 0), (20, 20), (0, 20)], [(3, 3), (5, 9), (30, 11)]]
    B = [[(2, 2), (5, 2), (5, 5), (2, 5)], [(7, 7), (12, 7), (9, 12)], [(0, 8), (3, 16), (4, 11)]]
    for op in OPS:
        try:
            h["clip"](A, B, op, 1.0)
        except Exception:
            pass
    for a in ((A, 1, "miter", 2, 1.0, 0), (B, -1, "miter", 2, 1.0, 1), (A, 1, "round", 8, 1.0, 0), (A, 1, "bevel", 2, 1.0, 0)):
        try:
            h["offset"](*a)
        except Exception:
            pass
    try:
        h["_chop"](A[0], [3, 4], 0, 1.0)
    except Exception:
        pass


def rect(x0, y0, x1, y1, turn=0):
    r = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    if turn >= 4:
        r = r[::-1]
    return r[turn % 4:] + r[:turn % 4]


def probe(cx):
    return (cx.grid("tx", -10 ** 7, 10 ** 7), cx.grid("ty", -10 ** 7, 10 ** 7))


def operate(cx, A, B, op, unit=1):
    t = probe(cx)
    cx.assume(off(cx, A + B, t))
    r = cx.gds.boolean(A, B, op, precision=unit, max_points=0)
    got = [] if r is None else [[tuple(p) for p in q] for q in r.polygons]
    want = OPS[op](cx, any_(cx, covered(cx, A, t)), any_(cx, covered(cx, B, t)))
    same_region(cx, got, want, t, op)


def orders(n):
    """All weak orders of the ends of n intervals of positive length: ranks (lo0, hi0, lo1, hi1, ...), dense from 0."""
    out = []

    def fill(level, ranks, left):
        if not left:
            out.append(tuple(ranks))
            return
        for m in range(1, 1 << len(left)):
            pick = [left[i] for i in range(len(left)) if m >> i & 1]
            # a lower end before its upper end
            if any(v % 2 == 1 and (ranks[v - 1] is None or v - 1 in pick) for v in pick):
                continue
            r = list(ranks)
            for v in pick:
                r[v] = level
            fill(level + 1, r, [v for v in left if v not in pick])
    fill(0, [None] * (2 * n), list(range(2 * n)))
    return sorted(out)


TWO = orders(2)
THREE = orders(3)


# lowest coordinates: positive, negative, any
WHERE = [(1, 10 ** 6), (-10 ** 6, -10 ** 5), (-10 ** 6, 10 ** 6)]


def axis(cx, name, ranks, where=0):
    """Coordinates in the given order, with any distances between consecutive ones."""
    u = [cx.grid(name, *WHERE[where])]
    for k in range(max(ranks)):
        u.append(u[-1] + cx.grid("%s_%d" % (name, k), 1, 1000))
    return [u[r] for r in ranks]


@harness("C26", [(op, i) for op in OPS for i in range(0, 13, 4)], "two rectangles of any size and position (touching, nested, equal and disjoint included; the 169 orders of their sides), vertices in both orientations and from any corner", timeout=900)
def pair(cx, cfg):
    op, i = cfg
    cx.native("clip")
    k = cx.choice("order", [(i + d, j) for d in range(4) for j in range(13) if i + d < 13])
    x, y = axis(cx, "x", TWO[k[0]]), axis(cx, "y", TWO[k[1]], k[0] % 2)
    turn = (3 * k[0] + k[1]) % 8
    operate(cx, [rect(x[0], y[0], x[1], y[1])], [rect(x[2], y[2], x[3], y[3], turn)], op)


# orders of the other axis for scenes of three rectangles: nested, staircase, rows, crossing, aligned, chain
ROWS3 = [(0, 5, 1, 3, 2, 4), (0, 2, 1, 4, 3, 5), (0, 1, 1, 2, 0, 2), (1, 2, 0, 3, 0, 3), (0, 3, 0, 1, 2, 3), (0, 1, 2, 3, 1, 2), (0, 3, 1, 2, 1, 2), (2, 3, 0, 2, 1, 4)]


def scene(cx, xs, ys, wx=0, wy=0, names="xy"):
    x, y = axis(cx, names[0], xs, wx), axis(cx, names[1], ys, wy)
    return [rect(x[2 * k], y[2 * k], x[2 * k + 1], y[2 * k + 1]) for k in range(len(xs) // 2)]


@harness("C26", [(op, m, j) for m, op in enumerate(OPS) for j in range(m % 2, 4, 2)], "three rectangles in two operands: every order of their horizontal sides (409), 8 orders of the vertical ones, swapped axes, any sizes and position; quick tier: two orders of the vertical ones and half of the horizontal ones for each operation",
         thorough=[(op, m, j) for m in range(4, 12) for op in OPS for j in range(4)], timeout=900)
def three(cx, cfg):
    op, m, j = cfg
    cx.native("clip")
    i = cx.choice("order", range(j, len(THREE), 4))
    ranks = THREE[i], ROWS3[(2 * m + i % 2) % len(ROWS3)]
    if i // 2 % 2:
        ranks = ranks[::-1]
    R = scene(cx, ranks[0], ranks[1], i // 4 % 2, i // 8 % 2)
    if i // 4 % 2:
        A, B = R[:1], R[1:]
    else:
        A, B = R[:2], R[2:]
    operate(cx, A, B, op)


# vertical orders of three holes in a rectangle: stacked, aligned, overlapping, touching at corners
HOLES = [(0, 1, 2, 3, 4, 5), (0, 1, 0, 1, 0, 1), (0, 2, 1, 4, 3, 5), (0, 1, 1, 2, 0, 1), (0, 1, 2, 3, 0, 1), (1, 2, 0, 3, 1, 2), (2, 3, 0, 1, 1, 2), (0, 3, 1, 2, 0, 3)]


@harness("C26", list(range(8)), "a rectangle minus three rectangles inside it (every order of their horizontal sides, 8 of the vertical ones, each side of the outer rectangle at a distance or touched)",
         thorough=list(range(8, 32)), timeout=900)
def holes(cx, j):
    cx.native("clip")
    i = cx.choice("order", range(j % 8, len(THREE), 8))
    ranks = [THREE[i], HOLES[(i + j // 8 + i // 8) % 8]]
    if i // 3 % 4 == 0:
        ranks = ranks[::-1]
    full = []
    for k, r in enumerate(ranks):
        lo, hi = [(1, 1), (1, 0), (0, 1), (1, 1), (0, 0)][(i // 7 + 2 * k + j) % 5]
        r = tuple(v + lo for v in r)
        full.append((0, max(r) + hi) + r)
    R = scene(cx, full[0], full[1], i % 2, i // 2 % 2)
    if i % 2:
        R[2] = R[2][::-1]
    operate(cx, R[:1], R[1:], "not")


# second rectangle inside the first one: at a distance, or touching some sides from the inside
INNER = [(0, 3, 1, 2), (0, 2, 0, 1), (0, 2, 1, 2), (0, 1, 0, 1)]


def third(r, i):
    """A third interval among the ends of two others: rank of its lower and upper end in twice the resolution."""
    m = 2 * max(r) + 2
    v = [(a, b) for a in range(-1, m) for b in range(a + 1, m + 1)]
    a, b = v[i % len(v)]
    c = [2 * k for k in r] + [a, b]
    order = sorted(set(c))
    return tuple(order.index(k) for k in c), len(v)


@harness("C26", [(op, j) for j, op in enumerate(OPS)] + [("or", 4), ("xor", 5)], "a rectangle with a rectangular hole (itself the result of a difference), with its seam, as an operand: every position of the hole's and of a third rectangle's horizontal sides, sampled orders of the vertical ones",
         thorough=[(op, j) for op in OPS for j in range(6, 18)], timeout=900)
def compose(cx, cfg):
    op, j = cfg
    cx.native("clip")
    a, b = INNER[j % 2 * 2 if j >= 4 else 0], INNER[0 if j < 6 else j % 4]
    n = third(a, 0)[1]
    i = cx.choice("order", range(n))
    ranks = third(a, i)[0], third(b, 7 * i + 5 * j)[0]
    R = scene(cx, ranks[0], ranks[1], i % 2, j % 2)
    t = probe(cx)
    cx.assume(off(cx, R, t))
    ring = cx.gds.boolean(R[:1], R[1:2], "not", precision=1, max_points=0)
    if ring is None:
        A, cov = [], False
    else:
        A = [[tuple(p) for p in q] for q in ring.polygons]
        cov = cx.and_(within(cx, R[0], t), cx.not_(within(cx, R[1], t)))
        same_region(cx, A, cov, t, "ring")
    if not A:
        return
    first = i % 3 == 0 and op != "not"
    r = cx.gds.boolean(R[2:] if first else ring, ring if first else R[2:], op, precision=1, max_points=0)
    got = [] if r is None else [[tuple(p) for p in q] for q in r.polygons]
    same_region(cx, got, OPS[op](cx, cov, within(cx, R[2], t)), t, "with the third: " + op)


def scaled(shape, s, at=(0, 0)):
    return [(at[0] + s * x, at[1] + s * y) for x, y in shape]


DIAMOND = [(1, 0), (0, 1), (-1, 0), (0, -1)]
OCTAGON = [(2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1), (-1, -2), (1, -2), (2, -1)]


@harness("C26", [(op, 1) for op in OPS] + [("xor", -2)], "a square on its corner and a rectangle, any sizes and positions with all intersections on the grid; the lower left corner of the rectangle on either side of the centre of the other; quick tier: left and above it for one operation",
         thorough=[(op, -1) for op in OPS], timeout=900)
def diamond(cx, cfg):
    op, q = cfg
    cx.native("clip")
    s = cx.grid("s", 1, 1000)
    c = (cx.grid("cx", 20000, 10 ** 6), cx.grid("cy", -10 ** 6, -20000))
    x = cx.grid("x", 1, 3000) if q > 0 else cx.grid("x", -3000, 0)
    y = cx.grid("y", 0 if q == -2 else -3000, 3000)
    w, h = cx.grid("w", 1, 1000), cx.grid("h", 1, 1000)
    operate(cx, [scaled(DIAMOND, 2 * s, c)], [rect(c[0] + x, c[1] + y, c[0] + x + w, c[1] + y + h, 5 if q > 0 else 2)], op)


# pairs of shapes whose edges have directions of components up to 2: all intersections are multiples of the grid
SLOPED = [([(0, 0), (4, 0), (2, 4)], [(0, 0), (2, 4), (-2, 2)]),
          ([(0, 0), (8, 0), (8, 4), (4, 6), (0, 4)], [(0, 0), (1, 2), (-1, 1)]),
          ([(0, 0), (6, 0), (6, 6), (0, 6)], [(0, 0), (2, 1), (1, 2)]),
          ([(0, 0), (4, 0), (4, 4), (2, 2), (0, 4)], [(0, 0), (2, 1), (0, 2)]),
          ([(0, 0), (6, 0), (6, 2), (2, 2), (2, 4), (6, 4), (6, 6), (0, 6)], [(0, 0), (1, 1), (0, 2), (-1, 1)]),
          ([(0, 0), (4, 4), (0, 8), (-4, 4)], [(0, 0), (2, 0), (1, 2)]),
          ([(0, 0), (4, 4), (4, 0), (0, 4)], [(0, 0), (2, 1), (0, 2)]),
          ([(-3, 0), (0, 3), (3, 0), (0, -3), (1, 0), (0, 1), (-1, 0), (0, -1)], [(0, 0), (2, 0), (1, 1)])]


@harness("C26", [(k, list(OPS)[(k + j) % 4]) for k in range(8) for j in (0, 2) if j == 0 or k in (0, 2, 5)], "two polygons of 8 pairs of shapes (3-8 vertices, with slanted edges, concave, touching themselves), any scale and relative position with all intersections on the grid",
         thorough=[(k, op) for k in range(8) for op in OPS], timeout=1500)
def sloped(cx, cfg):
    k, op = cfg
    cx.native("clip")
    s = cx.grid("s", 1, 1000)
    o = (cx.grid("ox", 10 ** 5, 10 ** 6), cx.grid("oy", -10 ** 6, -10 ** 5))
    d = (cx.grid("dx", -10000, 10000), cx.grid("dy", -10000, 10000))
    a, b = SLOPED[k]
    K = 120
    o = (K * o[0], K * o[1])
    operate(cx, [scaled(a, K * s, o)], [scaled(b, K * s, (o[0] + K * d[0], o[1] + K * d[1]))], op)


@harness("C26", list(OPS), "a single operand (1-2 rectangles, the second operand None or empty): every order of their sides")
def single(cx, op):
    cx.native("clip")
    k = cx.choice("order", [(i, (5 * i + 3 * j) % 13) for i in range(13) for j in range(2)])
    R = scene(cx, TWO[k[0]], TWO[k[1]], k[0] % 2)
    A = R if k[1] % 3 else R[:1]
    t = probe(cx)
    cx.assume(off(cx, A, t))
    r = cx.gds.boolean(A, None if k[0] % 2 else [], op, precision=1, max_points=0)
    got = [] if r is None else [[tuple(p) for p in q] for q in r.polygons]
    want = any_(cx, covered(cx, A, t)) if op != "and" else False
    if op == "or" or len(A) == 1:
        same_region(cx, got, want, t, op)
    else:
        cx.check(cx.iff(any_(cx, covered(cx, got, t)), want), op + ": point covered exactly when it is in the result")


@harness("C26", [(0, "or"), (1, "not"), (2, "xor"), (3, "and")], "the same with coordinates off the grid of the precision (less than half a unit): the result is that of the nearest grid points, in multiples of the precision")
def precision(cx, cfg):
    k, op = cfg
    cx.native("clip")
    unit = [1, 0.125, 1 / 1024, 4][k]
    x, y = axis(cx, "x", TWO[3 * k + 1]), axis(cx, "y", TWO[(5 * k + 2) % 13], 1)
    f = [cx.real("f%d" % i, -0.49, 0.49) for i in range(4)]
    R = [rect(x[0], y[0], x[1], y[1]), rect(x[2], y[2], x[3], y[3])]
    t = probe(cx)
    cx.assume(off(cx, R, t))
    near = [[((p[0] + f[i]) * unit, (p[1] + f[3 - i]) * unit) for i, p in enumerate(r)] for r in R]
    r = cx.gds.boolean(near[:1], near[1:], op, precision=unit, max_points=0)
    got = [] if r is None else [[(p[0] / unit, p[1] / unit) for p in q] for q in r.polygons]
    for q in got:
        for p in q:
            for j in (0, 1):
                cx.check(cx.or_(*[p[j] == v for v in (x, y)[j]]), "vertex on the grid")
    same_region(cx, got, OPS[op](cx, within(cx, R[0], t), within(cx, R[1], t)), t, op)


CUTTABLE = [[(0, 0), (4, 0), (4, 2), (0, 2)], [(0, 0), (4, 4), (0, 8), (-4, 4)], [(0, 0), (6, 0), (6, 6), (4, 6), (4, 2), (2, 2), (2, 6), (0, 6)], [(0, 0), (4, 0), (2, 4)]]


@harness("C26", [(k, a, n) for k in range(4) for a in (0, 1) for n in (1, 2) if n == 1 or k < 3],
         "cuts of polygons of 4 shapes along both axes at 1-2 positions (inside, on vertices, outside), any scale and position",
         thorough=[(k, a, 3) for k in range(4) for a in (0, 1)] + [(3, a, 2) for a in (0, 1)], timeout=900)
def cuts(cx, cfg):
    k, ax, n = cfg
    cx.native("_chop")
    K = 4
    s = K * cx.grid("s", 1, 1000)
    o = (K * cx.grid("ox", 10 ** 6, 10 ** 7), K * cx.grid("oy", -10 ** 7, -10 ** 6))
    rel, c = None, []
    for i in range(n):
        g = cx.grid("c%d" % i, -20000, 20000) if i == 0 else cx.grid("c%d" % i, 0, 20000)
        rel = K * g if rel is None else rel + K * g
        c.append(o[ax] + rel)
    poly = scaled(CUTTABLE[k], s, o)
    t = probe(cx)
    cx.assume(off(cx, [poly], t))
    for v in c:
        cx.assume(t[ax] != v)
    r = cx.gds.slice([poly], list(reversed(c)) if n > 1 else c[0], ax, precision=1)
    cx.check(len(r) == n + 1, "one more piece than cuts")
    whole = within(cx, poly, t)
    for i, q in enumerate(r):
        slab = cx.and_(True if i == 0 else t[ax] > c[i - 1], True if i == n else t[ax] < c[i])
        cx.check(q is None or len(q.polygons) > 0, "empty pieces are None")
        same_region(cx, [] if q is None else [[tuple(p) for p in w] for w in q.polygons], cx.and_(whole, slab), t, "piece %d" % i)


def iaxis(cx, name, ranks, where=0, gap=1):
    u = [cx.int(name, *[(1000, 10 ** 6), (-10 ** 6, -10 ** 5)][where])]
    for k in range(max(ranks)):
        u.append(u[-1] + cx.int("%s_%d" % (name, k), gap, 1000))
    return [u[r] for r in ranks]


def grown(cx, R, d, t):
    """The test point is within the rectangle moved out by d on every side (in for negative d)."""
    return cx.and_(t[0] > R[0][0] - d, t[0] < R[2][0] + d, t[1] > R[0][1] - d, t[1] < R[2][1] + d)


def clear_of(cx, R, d, t):
    return cx.and_(*[t[k] != R[2 * j][k] + (2 * j - 1) * d for k in (0, 1) for j in (0, 1)])


def spread(lo0, hi0, lo1, hi1, a, b, cx):
    """The interval from a to b is covered by two intervals that touch, or by one of them."""
    one = cx.or_(cx.and_(lo0 <= a, b <= hi0), cx.and_(lo1 <= a, b <= hi1))
    two = cx.or_(cx.and_(lo0 <= a, b <= hi1, lo1 <= hi0), cx.and_(lo1 <= a, b <= hi0, lo0 <= hi1))
    return cx.or_(one, two)


def joined(cx, S, d, t):
    """The point is in the union of two rectangles moved out (or in) as one shape, with miter joints."""
    if d > 0 or len(S) == 1:
        return cx.or_(*[grown(cx, q, d, t) for q in S])
    # the square around the point is covered by both
    a, b = S
    r = [grown(cx, q, d, t) for q in S]
    for k in (0, 1):
        m = 1 - k
        r.append(cx.and_(spread(a[0][k], a[2][k], b[0][k], b[2][k], t[k] + d, t[k] - d, cx),
                         *[v for q in S for v in (q[0][m] < t[m] + d, t[m] - d < q[2][m])]))
    return cx.or_(*r)


@harness("C26", [(7, j, f, 1) for j in (0, 1, 2) for f in (False, True)] + [(-7, j, f, 15) for j in (0, 1, 2) for f in (False, True)] + [(-7, None, False, 1), (-7, None, True, 8)],
         "offset by a distance (in and out) of one rectangle or two, every order of their horizontal sides, miter joints, each by itself or joined first; quick tier: mostly distances between sides above twice the offset when shrinking",
         thorough=[(d, j, f, 1) for d in (1, -7, 100, -100) for j in (0, 1, 2, 3, 4) for f in (False, True)], timeout=900)
def miter(cx, cfg):
    d, j, first, gap = cfg
    cx.native("offset")
    if j is None:
        k = [(4, 9), (8, 2)][first]
    else:
        k = cx.choice("order", [(i, (5 * i + j) % 13) for i in range(13) if i % 3 == j % 3])
    x, y = iaxis(cx, "x", TWO[k[0]], 0, gap), iaxis(cx, "y", TWO[k[1]], 1, gap)
    R = [rect(x[0], y[0], x[1], y[1], k[0] % 8), rect(x[2], y[2], x[3], y[3], k[1] % 8)]
    S = [rect(x[0], y[0], x[1], y[1]), rect(x[2], y[2], x[3], y[3])]
    if k[0] % 5 == 0:
        del R[1], S[1]
    t = (cx.real("tx", -10 ** 7, 10 ** 7), cx.real("ty", -10 ** 7, 10 ** 7))
    cx.assume(cx.and_(*[clear_of(cx, q, d, t) for q in S]))
    r = cx.gds.offset(R, d, precision=1, join_first=first, max_points=0)
    got = [] if r is None else [[tuple(p) for p in q] for q in r.polygons]
    want = joined(cx, S, d, t) if first else cx.or_(*[grown(cx, q, d, t) for q in S])
    same_region(cx, got, want, t, "offset")


TRIANGLES = [[(0, 0), (4, 0), (4, 3)], [(0, 0), (6, 0), (3, 4)], [(0, 0), (4, 3), (0, 6), (-4, 3)], [(0, 0), (12, 0), (12, 5), (8, 8), (0, 8)]]


@harness("C26", [(k, d) for k in range(len(TRIANGLES)) for d in (60, -60)], "offset (in and out) of convex polygons with slanted sides of rational lengths, any scale and position, miter joints with a large limit", timeout=900)
def miter_sloped(cx, cfg):
    k, d = cfg
    cx.native("offset")
    shape = TRIANGLES[k]
    K = 120
    s = cx.int("s", 1, 1000)
    o = (K * cx.int("ox", 100, 10 ** 5), K * cx.int("oy", -10 ** 5, -2000))
    poly = scaled(shape, K * s, o)
    t = (cx.real("tx", -10 ** 8, 10 ** 8), cx.real("ty", -10 ** 8, 10 ** 8))
    inner, margin = [], []
    for (ax, ay), (bx, by) in zip(shape, shape[1:] + shape[:1]):
        u = (by - ay, ax - bx)
        length = cx.sqrt((u[0] ** 2 + u[1] ** 2) * 1.0)
        h = ((t[0] - o[0]) * u[0] + (t[1] - o[1]) * u[1] - K * s * (ax * u[0] + ay * u[1])) / length - d
        inner.append(h < 0)
        # points within two units of a side of the result are left to rounding
        margin.append(cx.or_(h < -2, h > 2))
    cx.assume(cx.and_(*margin))
    r = cx.gds.offset([poly], d, tolerance=20, precision=1, max_points=0)
    got = [] if r is None else [[tuple(p) for p in q] for q in r.polygons]
    same_region(cx, got, cx.and_(*inner), t, "offset")


# holes with their leftmost corner above, below or beside the rest; behind them a second, smaller one
BIG = [[(0, 8), (8, 0), (8, 10)], [(0, 2), (8, 0), (8, 10)], [(0, 0), (8, 4), (0, 8)], [(0, 4), (4, 0), (8, 4), (4, 8)], [(0, 8), (4, 4), (0, 0), (8, 0), (8, 8)]]


@harness("C26", [(k, j) for k in range(len(BIG)) for j in (0, 1) if j == 0 or k < 3], "a rectangle with a hole of 5 shapes with slanted sides and a rectangular hole to its right (any scale, size, height and distance): coverage, and seams that do not cross the outlines",
         thorough=[(k, j) for k in range(len(BIG)) for j in (2, 3)], timeout=900)
def slanted_holes(cx, cfg):
    k, j = cfg
    cx.native("clip")
    K = 8
    s = K * cx.grid("s", 1, 100)
    lo, hi = ((20000, 10 ** 5), (-10 ** 5, -20000))[::-1 if j % 2 else 1]
    o = (K * cx.grid("ox", *lo), K * cx.grid("oy", *hi))
    w, h = K * cx.grid("w", 1, 1000), K * cx.grid("h", 1, 1000)
    a, b = 8 * s + K * cx.grid("gap", 1, 1000), K * cx.grid("dy", -3000, 3000)
    m = [K * cx.grid("m%d" % i, 5000, 9000) for i in range(4)]
    outer = rect(o[0] - m[0], o[1] - m[1], o[0] + m[2], o[1] + m[3], 3 * j)
    H = [scaled(BIG[k], s, o), rect(o[0] + a, o[1] + b, o[0] + a + w, o[1] + b + h, 5 * j)]
    if j >= 2:
        H[1] = [(o[0] + a, o[1] + b), (o[0] + a + w, o[1] + b), (o[0] + a + w, o[1] + b + w)]
    t = probe(cx)
    cx.assume(off(cx, [outer] + H, t))
    r = cx.gds.boolean([outer], H if j % 2 else H[::-1], "not", precision=1, max_points=0)
    got = [[tuple(p) for p in q] for q in r.polygons]
    cx.check(len(got) == 1, "one polygon")
    same_region(cx, got, cx.and_(within(cx, outer, t), *[cx.not_(within(cx, q, t)) for q in H]), t, "holes")
    uncrossed(cx, got[0], "holes")


@harness("C26", [("round", 32), ("round", 128), ("miter", 2), ("bevel", 2)], "offset inwards of an L of any size, with each joint at its reflex corner: between the polygons of 32 sides inside and outside the expected circle",
         timeout=900)
def shrunk_corner(cx, cfg):
    import math
    join, tol = cfg
    cx.native("offset")
    d = 100
    w, h, a, b = (cx.int(n, 1000, 10000) for n in ("w", "h", "a", "b"))
    o = (120 * cx.int("ox", 100, 10 ** 5), 120 * cx.int("oy", -10 ** 5, -2000))
    L = [(o[0] + x, o[1] + y) for x, y in ((0, 0), (w + a, 0), (w + a, h), (w, h), (w, h + b), (0, h + b))]
    t = (cx.real("tx", -10 ** 8, 10 ** 8), cx.real("ty", -10 ** 8, 10 ** 8))
    r = cx.gds.offset([L], -d, join, tolerance=tol, precision=1, max_points=0)
    got = [[tuple(p) for p in q] for q in r.polygons]
    cx.check(len(got) == 1, "one polygon")
    inside = within(cx, got[0], t)
    c = L[3]
    x, y = t[0] - c[0], t[1] - c[1]
    n = 32
    dirs = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]

    def result(e, corner):
        """Sides moved in by e; the notch grown by a corner of the given size."""
        box = cx.and_(t[0] > o[0] + e, t[1] > o[1] + e, t[0] < o[0] + w + a - e, t[1] < o[1] + h + b - e)
        rounded = {"round": lambda: cx.and_(*[x * u[0] + y * u[1] < corner for u in dirs]), "bevel": lambda: cx.and_(x > -e, y > -e, x + y > -corner), "miter": lambda: cx.and_(x > -corner, y > -corner)}[join]()
        return cx.and_(box, cx.not_(cx.or_(cx.and_(x > -e, y > 0), cx.and_(x > 0, y > -e), cx.and_(x <= 0, y <= 0, rounded))))
    m = 1.6
    least = {"round": (d * math.cos(1.5 * math.pi / tol) - m) * math.cos(math.pi / n), "bevel": d * 2 ** .5 - 2 * m, "miter": d - m}[join]
    most = {"round": d + m, "bevel": d * 2 ** .5 + 2 * m, "miter": d + m}[join]
    cx.check(cx.or_(cx.not_(inside), result(d - m, least)), join + ": moved in by the distance")
    cx.check(cx.or_(cx.not_(result(d + m, most)), inside), join + ": not moved in further")
    if join == "round":
        cx.check(len(got[0]) <= tol + 14, "number of points of rounded joints")


def support(cx, shape, s, o, u):
    """Largest product of a point of the scaled shape with the direction u."""
    a, b = max(shape, key=lambda p: p[0] * u[0] + p[1] * u[1])
    return o[0] * u[0] + o[1] * u[1] + s[0] * a * u[0] + s[1] * b * u[1]


@harness("C26", [(0, 100, ("bevel", 2)), (0, 100, ("round", 16)), (0, 100, ("miter", 2)), (1, 100, ("bevel", 2)), (1, 100, ("miter", 2)), (2, 100, ("round", 16)), (1, 100, ("round", 16)), (2, 100, ("bevel", 2)), (2, 100, ("miter", 2))],
         "offset out of rectangles of any size and of triangles with rational side lengths of any scale, rounded, bevelled and limited joints: between the shapes grown by regular 32-gons inside and outside the expected circle",
         thorough=[(k, 400, ("round", 60)) for k in range(3)], timeout=900)
def joints(cx, cfg):
    import math
    k, d, (join, tol) = cfg
    cx.native("offset")
    if k == 0:
        shape = [(0, 0), (1, 0), (1, 1), (0, 1)]
        s = (cx.int("w", 1, 10000), cx.int("h", 1, 10000))
    else:
        shape = TRIANGLES[k - 1]
        f = 120 * cx.int("s", 1, 1000)
        s = (f, f)
    o = (120 * cx.int("ox", 100, 10 ** 5), 120 * cx.int("oy", -10 ** 5, -2000))
    t = (cx.real("tx", -10 ** 8, 10 ** 8), cx.real("ty", -10 ** 8, 10 ** 8))
    r = cx.gds.offset([[(o[0] + s[0] * x, o[1] + s[1] * y) for x, y in shape]], d, join, tolerance=tol, precision=1, max_points=0)
    got = [[tuple(p) for p in q] for q in r.polygons]
    cx.check(len(got) == 1, "one polygon")
    inside = within(cx, got[0], t)
    # inner: circle scaled for the requested number of points; outer: circle, or the limit of the joint
    n = 32
    # the last of the steps of a rounded joint is up to half a step longer
    rin = d * (math.cos(1.5 * math.pi / tol) if join == "round" else 1) - 1.6
    rout = {"round": d, "bevel": d / math.cos(math.pi / 8) if k == 0 else d * 1.42, "miter": d * 2}[join] + 1.5
    dirs = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) for i in range(n)]
    normals = [(shape[(i + 1) % len(shape)][1] - shape[i][1], shape[i][0] - shape[(i + 1) % len(shape)][0]) for i in range(len(shape))]
    normals = [(a / math.hypot(a, b), b / math.hypot(a, b)) for a, b in normals]

    def in_grown(rad, sides):
        # the shape plus a 32-gon with vertices (sides) or sides (vertices) at the radius
        c = [(t[0] * u[0] + t[1] * u[1]) - support(cx, shape, s, o, u) < (rad * max(u[0] * v[0] + u[1] * v[1] for v in dirs) if sides else rad)
             for u in normals + ([(math.cos(2 * math.pi * (i + .5) / n), math.sin(2 * math.pi * (i + .5) / n)) for i in range(n)] if sides else dirs)]
        return cx.and_(*c)
    cx.check(cx.or_(cx.not_(in_grown(rin, True)), inside), join + ": grown by the distance")
    cx.check(cx.or_(cx.not_(inside), in_grown(rout, False)), join + ": not grown by more than the joint allows")
    if join == "round":
        cx.check(len(got[0]) <= tol + 2 * len(shape) + 2, "number of points of rounded joints")
