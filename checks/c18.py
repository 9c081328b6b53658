"""C18: RobustPath outlines."""
import math
from fractions import Fraction as F
from symex.ctx import harness
from .geom import Aff, translation, rotation
from .c17 import RAT, unit, add, left, caps, concrete, drop, seg_dist


def ends_of(cx, kind):
    return (cx.real("e0", 0, 9), cx.real("e1", 0, 9)) if kind == "custom" else kind


def outline(p, q, d, w0, w1, end):
    """Outline of a straight section with the vertices where the caps begin."""
    f = caps(p, q, d, w0, w1, "flush")
    if isinstance(end, str) and end == "flush":
        return f
    a = caps(p, q, d, w0, w1, end)
    return [f[0], a[0], a[1], f[1], f[2], a[2], a[3], f[3]]


def same(cx, got, want, msg="outline"):
    """Equal sets of outlines, up to vertices in the middle of straight sides."""
    cx.check(len(got) == len(want), msg + ": number of polygons")
    if all(len(a) == len(b) for a, b in zip(got, want)):
        cx.eqsets(got, want, msg, cyclic=True)
    else:
        cx.eqsets([drop(cx, p) for p in got], [drop(cx, p) for p in want], msg, cyclic=True)


@harness("C18", [(d, e, n) for d in (0, 1, 4, 7) for e in ("flush", "extended", "custom") for n in (1, 2)],
         "one straight section in 4 directions, symbolic start, length, widths and offsets; flush, half-width-extended and custom ends; 1-2 parallel elements",
         thorough=[(d, e, n) for d in (2, 3, 5, 6) for e in ("flush", "extended", "custom") for n in (1, 3)])
def straight(cx, cfg):
    cx.exact_literals()
    di, e, n = cfg
    d = unit(cx, di)
    p = cx.point("s", -50, 50)
    q = add(p, d, cx.real("len", 5, 50))
    w = [cx.real("w%d" % i, 0.1, 4) for i in range(n)]
    o = [cx.real("o%d" % i, -9, 9) for i in range(n)]
    L = [cx.int("l%d" % i, 0, 255) for i in range(n)]
    end = ends_of(cx, e)
    W, O = list(w), list(o)
    rp = cx.gds.RobustPath(p, W, O, ends=end, layer=list(L), datatype=[3, 4, 5][:n], max_evals=1024)
    cx.check(rp.segment(q) is rp, "returns its object")
    for i in range(n):
        cx.eq(W[i], w[i], "list of widths of the caller")
        cx.eq(O[i], o[i], "list of offsets of the caller")
    cx.check(len(rp) == 1, "number of sections")
    cx.eqpts([rp.x], [q], "end point")
    got = rp.get_polygons(True)
    cx.check(len(got) == n, "one specification per element")
    for i in range(n):
        k = [v for (l, dt), v in got.items() if dt == 3 + i]
        cx.check(len(k) == 1 and len(k[0]) == 1, "polygons of an element")
        cx.check(cx.or_(*[l == L[i] for (l, dt) in got if dt == 3 + i]), "layer of an element")
        a, b = add(p, left(d), o[i]), add(q, left(d), o[i])
        # positive offsets and the +1 arm are on the right of the path
        a, b = add(p, left(d), -o[i]), add(q, left(d), -o[i])
        same(cx, k[0], [outline(a, b, d, w[i], w[i], end)], "element %d" % i)
    same(cx, rp.get_polygons(), [v for k in got.values() for v in k], "repeated query")


def q_(cx, a, b):
    return F(a, b) if cx.symbolic else a / b


@harness("C18", [(d, k, r) for d in (0, 3) for k in ("taper", "list", "none", "callable", "mixed") for r in (False, True)],
         "two straight sections in a row with symbolic start, lengths, tapered widths (number, list, function) and offsets (increase by a number or a function, absolute values in a list); absolute and relative end points",
         thorough=[(d, k, r) for d in (1, 4, 6) for k in ("taper", "list", "none", "callable", "mixed") for r in (False, True)])
def sections(cx, cfg):
    cx.exact_literals()
    di, kind, rel = cfg
    d = unit(cx, di)
    s = cx.point("s", -50, 50)
    l = cx.real("len", 5, 50)
    w0, w1 = cx.real("w0", 0.1, 4), cx.real("w1", 0.1, 4)
    o0 = cx.real("o0", -9, 9)
    m = add(s, d, 2)
    e = add(m, d, l)
    rp = cx.gds.RobustPath(s, [w0, w0 + 1], [o0, 20], max_evals=1024, tolerance=1e-3)
    rp.segment((d[0] * 2, d[1] * 2), relative=True)
    arg = (d[0] * l, d[1] * l) if rel else e
    k = q_(cx, 3, 4) * l
    W, O = [w0, w0 + 1], [o0, 20]
    if kind == "taper":
        W = [w1, w1]
        rp.segment(arg, w1, None, rel)
    elif kind == "list":
        W, O = [w1, 3], [o0 - k, 20]
        rp.segment(arg, [w1, 3], [o0 - k, 20], relative=rel)
    elif kind == "callable":
        W, O = [w0 + w1, w0 + w1], [o0 - k, 20 - k]
        rp.segment(arg, lambda u: w0 + w1 * u, lambda u: -k * u, rel)
    elif kind == "mixed":
        W, O = [w1, 1 + w0 + w1], [o0, 20 + k]
        rp.segment(arg, [w1, lambda u: 1 + w0 + w1 * u], [o0, lambda u: 20 + k * u], rel)
    else:
        rp.segment(arg, relative=rel)
    cx.check(len(rp) == 2, "number of sections")
    cx.eqpts([rp.x], [e], "end point")
    for i in (0, 1):
        cx.eq(rp.widths[i], W[i], "width at the end")
        cx.eq(rp.offsets[i], O[i], "offset at the end")
    n = left(d)
    start = [(w0, o0), (w0 + 1, 20)]
    if kind == "callable":
        start = [(w0, o0), (w0, 20)]
    # positions along the path
    for t in (0, q_(cx, 1, 4), 1, q_(cx, 3, 2), 2):
        pos, wd = rp(t), rp.width(t)
        L, R = rp(t, -1), rp(t, 1)
        cx.check(len(pos) == 2 and len(wd) == 2, "one position and width per element")
        for i in (0, 1):
            f = t - 1 if t > 1 else 0
            pw = start[i][0] * (1 - f) + W[i] * f
            if t <= 1 and not (t == 1 and kind == "callable"):
                pw = [w0, w0 + 1][i]
            po = [o0, 20][i] if t <= 1 else start[i][1] * (1 - f) + O[i] * f
            base = add(s, d, 2 * t) if t <= 1 else add(m, d, l * f)
            want = add(base, n, -po)
            cx.eqpts([(pos[i][0], pos[i][1])], [want], "position of an element")
            cx.eq(wd[i], pw, "width of an element")
            mid = ((L[i][0] + R[i][0]) / 2, (L[i][1] + R[i][1]) / 2)
            cx.eqpts([mid], [want], "sides lie symmetrically about the element")
            cx.eq((L[i][0] - R[i][0]) * (L[i][0] - R[i][0]) + (L[i][1] - R[i][1]) * (L[i][1] - R[i][1]), pw * pw, "sides lie at half the width")
            # the arms are square to the element (which is oblique if its offset changes)
            bend = (O[i] - [o0, 20][i]) if t > 1 or (t == 1 and False) else 0
            if t != 1:
                g = (d[0] * l - n[0] * bend, d[1] * l - n[1] * bend) if t > 1 else d
                cx.eq((L[i][0] - R[i][0]) * g[0] + (L[i][1] - R[i][1]) * g[1], 0, "sides lie square to the element")
                cx.check((L[i][0] - R[i][0]) * -g[1] + (L[i][1] - R[i][1]) * g[0] > 0, "arm -1 on the left")
    # directions on both sides of the join and at the ends
    for t, side in ((0, "-"), (1, "-"), (1, "+"), (2, "+")):
        G = rp.grad(t, 0, side)
        for i in (0, 1):
            second = t == 2 or (t == 1 and side == "+")
            bend = O[i] - [o0, 20][i] if second else 0
            L_ = l if second else 2
            cx.eqpts([(G[i][0], G[i][1])], [(d[0] * L_ - n[0] * bend, d[1] * L_ - n[1] * bend)], "direction of an element")


TURNS = [(0, 2), (0, 4), (0, 1), (1, 3), (0, 3), (2, 6)]


def mitre(p0, p1, p2, d0, d1, w, o):
    n0, n1 = left(d0), left(d1)
    k = 1 / (1 + d0[0] * d1[0] + d0[1] * d1[1])
    m = (n0[0] + n1[0], n0[1] + n1[1])
    out = []
    for h in (o + w / 2, o - w / 2):
        out.append([add(p0, n0, h), add(p1, m, k * h), add(p2, n1, h)])
    return out[0] + out[1][::-1]


@harness("C18", [(t, o) for t in range(len(TURNS)) for o in (False, True)],
         "two straight sections with a bend (6 turns: left, right, shallow, sharp), symbolic start, lengths, width and offset: the sides meet at the crossings of the parallels of the sections")
def bends(cx, cfg):
    t, off = cfg
    cx.exact_literals()
    d0, d1 = [unit(cx, i) for i in TURNS[t]]
    s = cx.point("s", -50, 50)
    l0, l1 = cx.real("l0", 30, 90), cx.real("l1", 30, 90)
    w = cx.real("w", 0.5, 4)
    o = cx.real("o", -5, 5) if off else 0
    if off:
        # away from sides through the vertex of the spine (joints shorter than the tolerance are not extended)
        cx.assume(cx.or_(*[cx.and_(a * o - w / 2 > lo, a * o - w / 2 < hi) for a, lo, hi in ((1, 0.05, 9), (-1, 0.05, 9))], cx.and_(o - w / 2 < -0.05, -o - w / 2 < -0.05)))
    m = add(s, d0, l0)
    e = add(m, d1, l1)
    rp = cx.gds.RobustPath(s, [w], [o], max_points=0, max_evals=1024, tolerance=1e-8).segment(m).segment(e)
    got = rp.get_polygons()
    cx.check(len(got) == 1, "one polygon")
    same(cx, [drop(cx, got[0])], [mitre(s, m, e, d0, d1, w, -o)])


def operation(cx, op, path):
    """Applies an operation with symbolic parameters; returns its map and scale."""
    dx, dy = cx.real("dx", -50, 50), cx.real("dy", -50, 50)
    k = 1
    if op == "translate":
        r, A = path.translate(dx, dy), translation(dx, dy)
    elif op == "rotate":
        a = cx.angle_rad("a")
        r, A = path.rotate(a, (dx, dy)), translation(-dx, -dy).then(rotation(cx.cos(a), cx.sin(a))).then(translation(dx, dy))
    elif op == "scale":
        k = cx.real("k", 0.1, 8)
        f = k * cx.choice("sign", [1, -1])
        r, A = path.scale(f, (dx, dy)), translation(-dx, -dy).then(Aff(f, 0, 0, f)).then(translation(dx, dy))
    else:
        a, k = cx.angle_rad("a"), cx.real("k", 0.1, 8)
        ar = op == "array"
        sx, sy = (cx.real("tx", -50, 50), cx.real("ty", -50, 50)) if ar else (0, 0)
        f = k * cx.choice("sign", [1, -1])
        r = path.transform(cx.array((dx, dy)), a, f, op == "reflect", cx.array((sx, sy)) if ar else None)
        c, s = cx.cos(a), cx.sin(a)
        lat = Aff(1, 0, 0, -1) if op == "reflect" else Aff()
        A = Aff(f, 0, 0, f).then(translation(sx, sy)).then(lat).then(rotation(c, s)).then(translation(dx, dy))
    cx.check(r is path, "returns its object")
    return A, k


OPS = ["translate", "rotate", "scale", "transform", "array", "reflect"]


@harness("C18", [(n, e, op) for n in (1, 2) for e in ("flush", "extended", "custom") for op in OPS] + [(0, e, op) for e in ("flush", "extended") for op in OPS],
         "translate, rotate, scale, placement (also with a lattice shift) and reflected placement by symbolic amounts (also negative scales) of a straight path (1-2 elements) and of a bent path (n=0), with an earlier query of the polygons, on the path or a copy: polygons, end point and positions are mapped, and an appended section continues with the mapped width and offset")
def transformations(cx, cfg):
    n, e, op = cfg
    g = cx.gds
    cx.exact_literals()
    bent = n == 0
    n = n or 1
    end = (2.0, 0.5) if e == "custom" else e
    N = cx.number
    rp = g.RobustPath((N(1), N(2)), [N(1), N(2)][:n], [N(0.5), N(9)][:n], ends=end, layer=[1, 2][:n], max_evals=1024, max_points=0, tolerance=1e-8)
    rp.segment((N(31), N(42)))
    if bent:
        rp.segment((N(31), N(92)))
    before = {k: [[(v[0], v[1]) for v in p] for p in ps] for k, ps in rp.get_polygons(True).items()}
    x = (rp.x[0], rp.x[1])
    pos = [[(v[0], v[1]) for v in rp(t)] for t in (0, 0.5, 1)]
    wid = [v for v in rp.width(0.5)]
    end_wid, end_pos = [v for v in rp.width(len(rp))], [(v[0], v[1]) for v in rp(len(rp))]
    if cx.flag("copied"):
        src, rp = rp, g.copy(rp)
    else:
        src = None
    A, k = operation(cx, op, rp)
    got = rp.get_polygons(True)
    cx.check(set(got) == set(before), "specifications")
    for key in before:
        same(cx, got[key], [[A(v) for v in p] for p in before[key]], "transformed outline")
    cx.eqpts([rp.x], [A(x)], "end point")
    for t, ps in zip((0, 0.5, 1), pos):
        cx.eqpts([(v[0], v[1]) for v in rp(t)], [A(p) for p in ps], "positions")
    for a, b in zip(rp.width(0.5), wid):
        cx.eq(a, b * k, "width")
    if src is not None:
        again = src.get_polygons(True)
        for key in before:
            cx.eqsets(again[key], before[key], "source of the copy")
    # a further section in the direction of the mapped path
    d = (0, 1) if bent else (F(3, 5), F(4, 5)) if cx.symbolic else (0.6, 0.8)
    D = A.lin(d)
    rp.segment((D[0] * 7, D[1] * 7), relative=True)
    m = len(rp)
    for a, b in zip(rp(m - 1), end_pos):
        cx.eqpts([(a[0], a[1])], [A(b)], "joint of the further section")
    for a, b in zip(rp(m), end_pos):
        cx.eqpts([(a[0], a[1])], [A(add(b, d, 7))], "end of the further section")
    for a, b in zip(rp.width(m), end_wid):
        cx.eq(a, b * k, "width of the further section")
    before_arm = [(rp(m - 1.5, s), rp(m - 0.5, s)) for s in (-1, 1)]
    for a, b in before_arm:
        for u, v in zip(a, b):
            # both sections have the arm on the same side: the line joining them is along the path
            cx.eq((v[0] - u[0]) * D[1] - (v[1] - u[1]) * D[0], 0, "arms keep their side")
    new = rp.get_polygons(True)
    if e != "flush":
        return
    for i in range(n):
        # outline of the whole: extend the last two vertices at the end
        key = (i + 1, 0)
        h = end_wid[i] / 2
        nrm = left(d)
        far = add(end_pos[i], d, 7)
        want = []
        for p in before[key][0]:
            w0, w1 = add(end_pos[i], nrm, h), add(end_pos[i], nrm, -h)
            for o, f in ((w0, add(far, nrm, h)), (w1, add(far, nrm, -h))):
                if abs(p[0] - o[0]) + abs(p[1] - o[1]) < 1e-9:
                    p = f
            want.append(A(p))
        same(cx, [drop(cx, new[key][0])], [drop(cx, want)], "outline with the further section")


@harness("C18", [(t, g) for t in (True, False) for g in (True, False)], "scaling by a symbolic factor (also a negative one) with width_transform and gdsii_path on or off: the recorded width scales unless the path is a GDSII path without width_transform; offsets and custom ends always scale")
def scaled_width(cx, cfg):
    wt, gp = cfg
    w, o, k = cx.real("w", 0.1, 4), cx.real("o", -5, 5), cx.real("k", 0.1, 8)
    e0, e1 = cx.real("e0", 0, 5), cx.real("e1", 0, 5)
    how, sign = cx.choice("how", [("scale", 1), ("scale", -1), ("transform", 1), ("transform", -1)])
    rp = cx.gds.RobustPath((0, 0), [w, w], [o, 7], ends=[(e0, e1), "flush"], width_transform=wt, gdsii_path=gp, max_evals=1024)
    rp.segment((30, 0))
    if how == "scale":
        rp.scale(k * sign)
    else:
        rp.transform(None, None, k * sign, False)
    W = w if gp and not wt else w * k
    for i in (0, 1):
        cx.eq(rp.widths[i], W, "width")
    cx.eq(rp.offsets[0], o * k, "offset")
    cx.eq(rp.offsets[1], 7 * k, "offset")
    cx.eq(rp.ends[0][0], e0 * k, "extension")
    cx.eq(rp.ends[0][1], e1 * k, "extension")
    cx.check(rp.ends[1] == "flush", "end")
    cx.eqpts([rp.x], [(30 * k * sign, 0)], "end point")


@harness("C18", [None], "options given as shorter lists or single values apply to the parallel elements in turn; a single offset number spaces the elements evenly about the spine; elements on the same layer and datatype are listed together")
def options(cx):
    o = cx.real("o", 0.1, 5)
    w = [cx.real("w%d" % i, 0.1, 4) for i in range(3)]
    l = [cx.int("l%d" % i, 0, 255) for i in range(2)]
    new = lambda *a, **k: cx.gds.RobustPath((0, 0), *a, **k).segment((10, 0))
    rp = new(list(w), o, layer=list(l), datatype=[7], ends=["flush", "extended"])
    cx.check(rp.n == 3, "number of elements")
    for i in range(3):
        cx.eq(rp.offsets[i], o * (i - 1), "offset")
        cx.eq(rp.widths[i], w[i], "width")
        cx.eq(rp.layers[i], l[i % 2], "layer")
        cx.check(rp.datatypes[i] == 7 and rp.ends[i] == ["flush", "extended"][i % 2], "repeated options")
    # symmetric about the spine for even numbers as well
    rp = new([w[0], w[1]], o)
    cx.eq(rp.offsets[0], o / -2, "offset")
    cx.eq(rp.offsets[1], o / 2, "offset")
    rp = new(w[0], [o, 3, -o])
    cx.check(rp.n == 3, "number of elements")
    got = rp.get_polygons(True)
    cx.check(list(got) == [(0, 0)], "one specification")
    want = [caps((0, -k), (10, -k), (1, 0), w[0], w[0], "flush") for k in (o, 3, -o)]
    cx.eqsets(got[(0, 0)], want, "outlines", cyclic=True)
    cx.eqsets(rp.get_polygons(), want, "outlines", cyclic=True)
    ps = rp.to_polygonset()
    cx.eqsets(ps.polygons, want, "polygon set", cyclic=True)
    cx.check(list(ps.layers) == [0] * 3 and list(ps.datatypes) == [0] * 3, "specification of the polygon set")
    empty = cx.gds.RobustPath((0, 0), w[0], [o, 3])
    cx.check(empty.get_polygons() == [] and empty.get_polygons(True) == {} and empty.to_polygonset() is None and len(empty) == 0, "path without sections")


@harness("C18", [(k, y) for k in ("arc", "turn", "parametric", "derivative", "absolute", "bezier", "bezier_absolute") for y in (False, True)],
         "curved sections with symbolic start, or symbolic start and offsets (positions only): position, sides, direction and width at every eighth of the section against the stated circle, function or Bezier curve, for two elements with a tapered width and offset; end point and recorded end width and offset",
         )
def curves(cx, cfg):
    kind, sym = cfg
    cx.float_constants()
    cx.exact_literals()
    s = cx.point("s", -50, 50)
    pre = (6.0, 8.0)
    O = [lambda u: -1 - u, lambda u: 2 - u]
    if sym:
        o = [cx.real("o%d" % i, -9, 9) for i in range(4)]
        O = [lambda u: o[0] * (1 - u) + o[1] * u, lambda u: o[2] * (1 - u) + o[3] * u * u]
    rp = cx.gds.RobustPath(s, [1.0, 2.0], [O[0](0), O[1](0)], tolerance=1e-3, max_evals=1024)
    rp.segment(pre, relative=True)
    m = add(s, pre)
    kw = dict(width=[2.0, lambda u: 2 + u * u], offset=[O[0](1), O[1]])
    W = [lambda u: 1 + u, lambda u: 2 + u * u]
    R = 9.0
    if kind == "arc":
        i0, i1 = 0.5, -1.75
        rp.arc(R, i0, i1, **kw)
    elif kind == "turn":
        i0 = math.atan2(pre[1], pre[0]) + math.pi / 2
        i1 = i0 - math.pi / 2
        rp.turn(R, "r", **kw)
    if kind in ("arc", "turn"):
        f = lambda u: (R * (math.cos(i0 + (i1 - i0) * u) - math.cos(i0)), R * (math.sin(i0 + (i1 - i0) * u) - math.sin(i0)))
        D = lambda u: (-R * (i1 - i0) * math.sin(i0 + (i1 - i0) * u), R * (i1 - i0) * math.cos(i0 + (i1 - i0) * u))
    elif kind in ("parametric", "derivative", "absolute"):
        f = lambda u: (20 * u, 6 * u * u)
        D = lambda u: (20.0, 12 * u)
        if kind == "absolute":
            rp.parametric(lambda u: cx.array((m[0] + 20 * u, m[1] + 6 * u * u)), relative=False, **kw)
        elif kind == "derivative":
            rp.parametric(lambda u: cx.array(f(u)), lambda u: cx.array(D(u)), **kw)
        else:
            rp.parametric(lambda u: cx.array(f(u)), **kw)
    else:
        P = [(0, 0), (5, 8), (14, -4), (22, 3)]
        B = lambda c, u: c[0] if len(c) == 1 else B([(a[0] * (1 - u) + b[0] * u, a[1] * (1 - u) + b[1] * u) for a, b in zip(c, c[1:])], u)
        f = lambda u: B(P, u)
        D = lambda u: tuple(3 * x for x in B([(b[0] - a[0], b[1] - a[1]) for a, b in zip(P, P[1:])], u))
        if kind == "bezier":
            rp.bezier(P[1:], **kw)
        else:
            rp.bezier([add(m, p) for p in P[1:]], relative=False, **kw)
    cx.check(len(rp) == 2, "number of sections")
    # end of the path
    cx.eqpts([rp.x], [add(m, f(1))], "end point")
    for i in (0, 1):
        cx.eq(rp.widths[i], W[i](1), "width at the end")
        cx.eq(rp.offsets[i], O[i](1), "offset at the end")
    if sym:
        for j in range(9):
            u = j / 8
            d = D(u)
            k = math.hypot(*d)
            for i, v in enumerate(rp(1 + u)):
                want = add(add(m, f(u)), (d[1] / k, -d[0] / k), O[i](u))
                for a in (0, 1):
                    # derivatives may be numeric
                    cx.le(v[a] - want[a], 2e-2 if kind in ("parametric", "absolute") else 1e-5, "position of an element", 0)
                    cx.le(want[a] - v[a], 2e-2 if kind in ("parametric", "absolute") else 1e-5, "position of an element", 0)
        return
    for j in range(1, 9):
        u = j / 8
        pos, left_, right_, wd = rp(1 + u), rp(1 + u, -1), rp(1 + u, 1), rp.width(1 + u)
        g = rp.grad(1 + u)
        d = D(u)
        k = math.hypot(*d)
        n = (d[1] / k, -d[0] / k)
        for i in (0, 1):
            want = add(f(u), n, O[i](u))
            P_ = concrete(cx, [pos[i], left_[i], right_[i]], m)
            # derivatives may be numeric
            near(cx, P_[0], want, (1e-5 if kind not in ("parametric", "absolute") else 1e-3) * (1 + abs(O[i](u))), "position of an element")
            dn, dm = normal_of(lambda v: add(f(v), (D(v)[1] / math.hypot(*D(v)), -D(v)[0] / math.hypot(*D(v))), O[i](v)), u)
            near(cx, P_[1], add(want, dn, -W[i](u) / 2), 5e-3, "left side of an element")
            near(cx, P_[2], add(want, dn, W[i](u) / 2), 5e-3, "right side of an element")
            cx.eq(wd[i], W[i](u), "width of an element", 1e-6)
            G = concrete(cx, [(g[i][0] + m[0], g[i][1] + m[1])], m)[0]
            near(cx, G, dm, 2e-2 * k, "direction of an element")


def normal_of(p, u, h=1e-4):
    a, b = max(0, u - h), min(1, u + h)
    p0, p1 = p(a), p(b)
    v = ((p1[0] - p0[0]) / (b - a), (p1[1] - p0[1]) / (b - a))
    k = math.hypot(*v)
    return (v[1] / k, -v[0] / k), v


def near(cx, a, b, tol, msg):
    cx.check(abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol, "%s: %r instead of %r" % (msg, a, b))


@harness("C18", [(e, n) for e in ("round", "smooth") for n in (1, 2)],
         "round and smooth ends of a straight path with symbolic start, as placed and after a reflected placement: round ends lie on half circles about the ends of the element; smooth ends start and end at the sides in the direction of the path and reach beyond the end; the area is that of the element and its two caps")
def curved_ends(cx, cfg):
    e, n = cfg
    cx.float_constants()
    cx.exact_literals()
    d = (0.6, 0.8)
    s = cx.point("s", -50, 50)
    w, o = [1.0, 2.5][:n], [0.0, 6.0][:n]
    how = cx.choice("how", ["plain", "reflected", "rotated"])
    rp = cx.gds.RobustPath(s, w, o, ends=e, tolerance=0.01, max_points=0, max_evals=1024, layer=[1, 2][:n])
    rp.segment(add(s, d, 25))
    k = 1
    if how == "plain":
        A = Aff()
    elif how == "rotated":
        k = 2
        rp.transform(None, math.pi / 2, 2, False)
        A = Aff(0, -2, 2, 0)
    else:
        rp.transform(None, None, None, True)
        A = Aff(1, 0, 0, -1)
    got = rp.get_polygons(True)
    S = A(s)
    d = tuple(v / k for v in A.lin(d))
    nn = tuple(v / k for v in A.lin((0.8, -0.6)))
    for i in range(n):
        polys = got[(i + 1, 0)]
        cx.check(len(polys) == 1, "one polygon")
        poly = concrete(cx, polys[0], S)
        a = add((0, 0), nn, o[i] * k)
        b = add(a, d, 25 * k)
        h = w[i] / 2 * k
        along = [((v[0] - a[0]) * d[0] + (v[1] - a[1]) * d[1]) for v in poly]
        across = [((v[0] - a[0]) * nn[0] + (v[1] - a[1]) * nn[1]) for v in poly]
        if e == "round":
            for v in poly:
                cx.check(abs(seg_dist(v, a, b) - h) < 1e-6, "vertices at half the width from the element")
            cap = math.pi * h * h / 2
            cx.check(min(along) < -h + 0.02 and max(along) > 25 * k + h - 0.02, "ends reach half the width beyond the element")
        else:
            # the interpolating curve between two opposite directions (tension 1): control points at 4/3 of the half width
            cap = 4 / 3 * h * (2 * h) * 3 / 5
            cx.check(abs(min(along) + h) < 0.05 and abs(max(along) - 25 * k - h) < 0.05, "ends reach half the width beyond the element")
            cx.check(max(across) < h + 0.02 * k and min(across) > -h - 0.02 * k, "smooth ends do not bulge")
        area = abs(sum(poly[j - 1][0] * poly[j][1] - poly[j][0] * poly[j - 1][1] for j in range(len(poly)))) / 2
        cx.check(abs(area - (50 * h * k + 2 * cap)) < 0.04 * k * (2 * h + 1), "area %r instead of %r" % (area, 50 * h * k + 2 * cap))
        cx.check(min(abs(v[0] - q[0]) + abs(v[1] - q[1]) for q in (add(a, nn, h), add(a, nn, -h)) for v in poly) < 1e-6, "corners of an end")


@harness("C18", [0.6, 2.5, 40.0], "round ends of a straight path of width 1 with tolerances from half of the width up and symbolic start: vertices at half the width from the axis")
def coarse(cx, tol):
    cx.float_constants()
    cx.exact_literals()
    s = cx.point("s", -50, 50)
    rp = cx.gds.RobustPath(s, 1.0, ends="round", tolerance=tol, max_points=0, max_evals=1024)
    rp.segment(add(s, (0.6, 0.8), 25))
    polys = rp.get_polygons()
    cx.check(len(polys) == 1, "one polygon")
    for v in concrete(cx, polys[0], s):
        cx.check(abs(seg_dist(v, (0, 0), (15, 20)) - 0.5) < 1e-6, "vertices at half the width from the axis")


@harness("C18", [(how, a) for how in ("plain", "rotate", "reflect") for a in ("l", "r", 1.0, -2.0)] + [("diverging", "l"), ("diverging", "r")],
         "turns after a straight section in 8 directions, also after the path was rotated or reflected: tangent to the current direction, to the side of the sign of the angle; two elements also when these diverge")
def turns(cx, cfg):
    how, a = cfg
    cx.float_constants()
    s = cx.point("s", -50, 50)
    di = cx.choice("di", list(range(8)))
    d = tuple(float(v) for v in RAT[di])
    rp = cx.gds.RobustPath(s, [1.0, 1.0], [-3.0, 3.0], tolerance=0.01)
    e = add(s, d, 10)
    if how == "diverging":
        rp.segment(e, None, [-4.0, 4.0])
    else:
        rp.segment(e)
    if how == "rotate":
        rp.rotate(math.pi / 2)
        e, d = (-e[1], e[0]), (-d[1], d[0])
    elif how == "reflect":
        rp.transform(None, None, None, True)
        e, d = (e[0], -e[1]), (d[0], -d[1])
    rp.turn(5, a)
    ang = {"l": math.pi / 2, "r": -math.pi / 2}.get(a, a)
    sg = 1 if ang > 0 else -1
    n = (-d[1] * sg, d[0] * sg)
    C = add((0, 0), n, 5)
    c, t = math.cos(ang), math.sin(ang)
    want = add(C, (-n[0] * c + n[1] * t, -n[0] * t - n[1] * c), 5)
    near(cx, concrete(cx, [rp.x], e)[0], want, 1e-6, "end of the turn")
    # direction at the start and at the end of the turn
    for u, dd in ((1, d), (2, (d[0] * c - d[1] * t, d[0] * t + d[1] * c))):
        g = rp.grad(u, 0, "+")
        G = concrete(cx, [add(s, v) for v in g], s)
        for v in G:
            k = math.hypot(*v)
            near(cx, (v[0] / k, v[1] / k), dd, 1e-2, "direction of the turn")


@harness("C18", ["open", "angles", "cycle", "absolute"], "smooth interpolation with symbolic start: one section per point, passing through the points with continuous direction; stated directions are honoured; closed curves return to the start")
def smooth(cx, kind):
    cx.float_constants()
    s = cx.point("s", -50, 50)
    P = [(10, 3), (18, 14), (5, 22)]
    rp = cx.gds.RobustPath(s, [1.0, 2.0], [-1.0, 2.0], tolerance=0.01, max_evals=1024)
    kw = {}
    if kind == "angles":
        kw["angles"] = [0.3, None, 2.0, None]
    if kind == "cycle":
        kw["cycle"] = True
    pts = [add(s, p) for p in P] if kind == "absolute" else P
    rp.smooth(pts, relative=kind != "absolute", **kw)
    n = 4 if kind == "cycle" else 3
    cx.check(len(rp) == n, "number of sections")
    want = [(0.0, 0.0)] + P + ([(0.0, 0.0)] if kind == "cycle" else [])
    for i in range(n + 1):
        # the elements are at their offsets to the spine
        a, b = concrete(cx, rp(i), s)
        near(cx, (a[0] + (b[0] - a[0]) / 3, a[1] + (b[1] - a[1]) / 3), want[i], 1e-6, "point of the curve")
        cx.check(abs(math.hypot(b[0] - a[0], b[1] - a[1]) - 3) < 1e-6, "distance of the elements")
        if 0 < i < n or kind == "cycle":
            j = i % n
            v = [concrete(cx, [add(s, q) for q in rp.grad(n if side == "-" and j == 0 else j, 0, side)], s)[0] for side in "-+"]
            v = [(x[0] / math.hypot(*x), x[1] / math.hypot(*x)) for x in v]
            near(cx, v[0], v[1], 2e-2, "direction at a point")
        if kind == "angles" and kw["angles"][i] is not None:
            t = kw["angles"][i]
            v = concrete(cx, [add(s, q) for q in rp.grad(i, 0, "+")], s)[0]
            near(cx, (v[0] / math.hypot(*v), v[1] / math.hypot(*v)), (math.cos(t), math.sin(t)), 2e-2, "stated direction")
    near(cx, concrete(cx, [rp.x], s)[0], want[-1], 1e-6, "end point")


@harness("C18", [(a, t) for a in ((0.0, 1.5), (0.5, -1.0)) for t in (0.01, 0.002)],
         "outline of an arc of radius 9 with a straight section before it, symbolic start, two elements: all vertices on the straight sides or on the circles at the offset plus and minus half the width; chords within the tolerance of the circles; ends exact",
         )
def arc_outline(cx, cfg):
    (i0, i1), tol = cfg
    cx.float_constants()
    cx.exact_literals()
    s = cx.point("s", -50, 50)
    sg = 1 if i1 > i0 else -1
    d = (-math.sin(i0) * sg, math.cos(i0) * sg)
    n = (d[1], -d[0])
    w, o = [1.0, 2.0], [-1.5, 2.5]
    rp = cx.gds.RobustPath(s, w, o, tolerance=tol, max_points=0, max_evals=1024, layer=[1, 2])
    rp.segment((d[0] * 8, d[1] * 8), relative=True)
    rp.arc(9, i0, i1)
    got = rp.get_polygons(True)
    m = (8 * d[0], 8 * d[1])
    C = (m[0] - 9 * math.cos(i0), m[1] - 9 * math.sin(i0))
    for i in (0, 1):
        polys = got[(i + 1, 0)]
        cx.check(len(polys) == 1, "one polygon")
        poly = concrete(cx, polys[0], s)
        # on the right of a path turning to the left is the outside
        r = {h: 9 + (o[i] + h * w[i] / 2) * sg for h in (-1, 1)}
        on = []
        for v in poly:
            a = (v[0] - m[0]) * d[0] + (v[1] - m[1]) * d[1]
            b = (v[0] * n[0] + v[1] * n[1])
            q = math.hypot(v[0] - C[0], v[1] - C[1])
            h = min((-1, 1), key=lambda h: abs(q - r[h]) if a > -1e-6 or abs(a) > 8.5 else abs(b - o[i] - h * w[i] / 2))
            if a < -1e-4 and abs(b - o[i] - h * w[i] / 2) < 1e-6:
                cx.check(abs(a + 8) < 1e-6 or a > -0.01, "vertices of the straight section")
                on.append((h, None))
                continue
            cx.check(abs(q - r[h]) < 2e-3, "a vertex is off the circle of its side")
            on.append((h, v))
        for j in range(len(poly)):
            (h0, a), (h1, b) = on[j - 1], on[j]
            if a and b and h0 == h1:
                mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
                cx.check(abs(math.hypot(mid[0] - C[0], mid[1] - C[1]) - r[h0]) < tol * 1.3 + 2e-5, "a chord is away from its circle")
        for h in (-1, 1):
            for p in (add((0, 0), n, o[i] + h * w[i] / 2), (C[0] + r[h] * math.cos(i1), C[1] + r[h] * math.sin(i1))):
                cx.check(min(abs(v[0] - p[0]) + abs(v[1] - p[1]) for v in poly) < 2e-2, "corner of an end")
        full = w[i] * (8 + abs(i1 - i0) * (9 + o[i] * sg))
        area = abs(sum(poly[j - 1][0] * poly[j][1] - poly[j][0] * poly[j - 1][1] for j in range(len(poly)))) / 2
        cx.check(abs(area - full) < full * tol * 2 + 0.02, "area %r instead of %r" % (area, full))
