"""C05: GDSII path elements."""
from fractions import Fraction as F
from symex.ctx import harness
from .io import UNITS, library, cell, reread, ongrid, ongrid_pts, eqprops
from .geom import Aff, XREFL, rotation, scaling, translation

ASSUMPTIONS = ["8-byte reals are carried through the file unchanged (that the codec does so is C01)",
               "segment directions come from a list of rational unit vectors; lengths are symbolic"]
DIRS = {"E": (1, 0), "N": (0, 1), "W": (-1, 0), "S": (0, -1), "a": (F(3, 5), F(4, 5)), "b": (F(5, 13), F(-12, 13)), "c": (F(-15, 17), F(8, 17))}


def num(cx, f):
    return f if cx.symbolic else float(f)


def spine(cx, dirs, lo=1, hi=100, const=False):
    """-> points, unit normals (left), lengths"""
    p = [cx.point("p", -100, 100)] if not const else [(2.0, 3.0)]
    ns = []
    for i, d in enumerate(dirs):
        ux, uy = (num(cx, t) for t in DIRS[d])
        L = cx.real("L%d" % i, lo, hi) if not const else 10.0 + 3 * i
        p.append((p[-1][0] + ux * L, p[-1][1] + uy * L))
        ns.append((-uy, ux))
    return p, ns


def offset_points(p, ns, off):
    """Points of the curve at signed distance off to the left."""
    out = [(p[0][0] + ns[0][0] * off, p[0][1] + ns[0][1] * off)]
    for i in range(1, len(ns)):
        a, b = ns[i - 1], ns[i]
        # q with (q-p).a == off and (q-p).b == off
        det = a[0] * b[1] - a[1] * b[0]
        if det == 0:
            out.append((p[i][0] + a[0] * off, p[i][1] + a[1] * off))
        else:
            out.append((p[i][0] + (b[1] - a[1]) * off / det, p[i][1] + (a[0] - b[0]) * off / det))
    out.append((p[-1][0] + ns[-1][0] * off, p[-1][1] + ns[-1][1] * off))
    return out


# A FlexPath offset is measured to the left of the spine, a RobustPath offset to the right (the sign is not documented).
ENDS = ["flush", "round", "extended", "tuple"]


def check_path(cx, q, pts, width, end, layer, datatype, wt, props=(), grid=1e-3, joint=0):
    """joint: allowance for the inner vertices (a RobustPath joins its sections within its tolerance)"""
    g = cx.gds
    cx.check(isinstance(q, g.FlexPath) and q.gdsii_path and q.n == 1, "kind")
    cx.check(len(q.points) == len(pts), "%d spine vertices instead of %d" % (len(q.points), len(pts)))
    ongrid_pts(cx, q.points, pts, grid, "spine", joint)
    for w in q.widths:
        ongrid(cx, w[0], width, grid, "width")
    for o in q.offsets:
        cx.eq(o[0], 0, "offset")
    if isinstance(end, str):
        cx.check(q.ends == [end], "end type")
    else:
        cx.check(isinstance(q.ends[0], tuple) and len(q.ends[0]) == 2, "end extensions")
        ongrid(cx, q.ends[0][0], end[0], grid, "begin extension")
        ongrid(cx, q.ends[0][1], end[1], grid, "end extension")
    cx.eq(q.layers[0], layer, "layer")
    cx.eq(q.datatypes[0], datatype, "datatype")
    cx.check(bool(q.width_transform) == wt, "width scaling with magnification")
    eqprops(cx, q.properties, props, "properties")


def outline(cx, fp, p, ns, off, A, k, mirrored):
    """Expected spine of the element after the map A (scale k).

    Mirroring a FlexPath leaves its offsets on their side (known finding, see reflected_offset);
    everything else is still decided here for either choice of side."""
    if mirrored:
        flipped = cx.cond(fp.offsets[0][0] == -off * k)
        if not flipped:
            off = -off
    return [A(q) for q in offset_points(p, ns, off)]


@harness("C05", ["E", "Ea"], "FlexPath element with offset in [0.5,3] after a reflection about the x axis")
def reflected_offset(cx, dirs):
    g = cx.gds
    p, ns = spine(cx, dirs)
    off = cx.real("o", 0.5, 3)
    fp = g.FlexPath(p, 1, [off], gdsii_path=True)
    fp.transform(None, None, None, True)
    lib, c = library(cx), cell(cx, "C")
    c.add(fp)
    lib.add(c)
    q = reread(cx, lib).cells["C"].paths[0]
    want = [XREFL(t) for t in offset_points(p, ns, off)]
    ongrid(cx, q.points[0][1], want[0][1], 1e-3, "mirrored offset")


def end_of(cx, end):
    if end == "tuple":
        return (cx.real("be", -5, 5), cx.real("ee", -5, 5))
    return end


@harness("C05", [(d, e, 2) for d, e in (("E", "flush"), ("a", "round"), ("E", "extended"), ("EN", "flush"), ("Ea", "flush"), ("aa", "flush"), ("bc", "flush"))] + [(d, "tuple", 1) for d in ("E", "a", "bc")],
         "FlexPath with the configured directions and end type; the configured number of parallel elements with symbolic widths and offsets, lengths in [1,100], layers and datatypes symbolic",
         thorough=[(d, e, 2) for d in ("EaN", "SWb", "ENWS", "bcb", "c") for e in ("flush", "tuple", "round", "extended")])
def flexpath(cx, cfg):
    dirs, e, n = cfg
    g = cx.gds
    p, ns = spine(cx, dirs)
    w = [cx.real("w%d" % i, 0.01, 5) for i in range(n)]
    off = [cx.real("o%d" % i, -3, 3) for i in range(n)]
    la = [cx.int("la%d" % i, 0, 32767) for i in range(n)]
    da = [cx.int("da%d" % i, 0, 32767) for i in range(n)]
    end = end_of(cx, e)
    wt = cx.flag("wt")
    fp = g.FlexPath(p, w, off, ends=end, layer=la, datatype=da, gdsii_path=True, width_transform=wt)
    props = [(cx.int("pa", 1, 127), cx.text("pv", 3, 1, 127))]
    fp.properties = dict(props)
    lib, c = library(cx), cell(cx, "C")
    c.add([fp, g.FlexPath([(0, 0), (1, 0)], 1, gdsii_path=True)])
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.paths) == n + 1 and not out.polygons, "element count")
    for i in range(n):
        check_path(cx, out.paths[i], offset_points(p, ns, off[i]), w[i], end, la[i], da[i], wt, props)
    check_path(cx, out.paths[n], [(0, 0), (1, 0)], 1, "flush", 0, 0, True)


def mapping(cx, op):
    """-> function applying the operation to a path, affine map, width factor"""
    if op == "translate":
        dx, dy = cx.real("dx", -100, 100), cx.real("dy", -100, 100)
        return (lambda P: P.translate(dx, dy)), translation(dx, dy), 1, False
    if op == "rotate":
        a = cx.angle_rad("ang")
        c = cx.point("c", -10, 10)
        A = translation(-c[0], -c[1]).then(rotation(cx.cos(a), cx.sin(a))).then(translation(*c))
        return (lambda P: P.rotate(a, c)), A, 1, False
    if op == "scale":
        k = cx.real("k", 0.1, 10)
        c = cx.point("c", -10, 10)
        f = k * cx.choice("sign", [1, -1])
        return (lambda P: P.scale(f, c)), translation(-c[0], -c[1]).then(scaling(f)).then(translation(*c)), k, False
    if op == "reflect":
        return (lambda P: P.transform(None, None, None, True)), XREFL, 1, True
    if op == "place":
        a = cx.angle_rad("ang")
        k = cx.real("k", 0.1, 10)
        t = cx.point("t", -100, 100)
        xr = cx.flag("xr")
        A = Aff()
        if xr:
            A = A.then(XREFL)
        f = k * cx.choice("sign", [1, -1])
        A = A.then(scaling(f)).then(rotation(cx.cos(a), cx.sin(a))).then(translation(*t))
        return (lambda P: P.transform(cx.array(t), a, f, xr)), A, k, xr
    raise KeyError(op)


OPS = ["translate", "rotate", "scale", "reflect", "place"]


@harness("C05", [(o, d, e) for o in OPS for d in ("E", "Ea") for e in ("flush", "tuple")],
         "FlexPath as above after the configured transformation (translation, rotation about a centre, scaling about a centre, reflection, general placement), one element with symbolic offset",
         thorough=[(o, d, e) for o in OPS for d in ("bcE",) for e in ("flush", "tuple")])
def flexpath_transformed(cx, cfg):
    op, dirs, e = cfg
    g = cx.gds
    p, ns = spine(cx, dirs)
    w, off = cx.real("w", 0.01, 5), cx.real("o", -3, 3)
    end = end_of(cx, e)
    wt = cx.flag("wt")
    fp = g.FlexPath(p, w, [off], ends=end, layer=4, datatype=5, gdsii_path=True, width_transform=wt)
    f, A, k, mirrored = mapping(cx, op)
    f(fp)
    lib, c = library(cx), cell(cx, "C")
    c.add(fp)
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.paths) == 1, "element count")
    if not isinstance(end, str):
        end = (end[0] * k, end[1] * k)
    check_path(cx, out.paths[0], outline(cx, fp, p, ns, off, A, k, mirrored), w * k if wt else w, end, 4, 5, wt)


@harness("C05", [(d, e) for d in ("E", "a") for e in ENDS] + [(d, "flush") for d in ("EN", "Ea")],
         "RobustPath with straight segments along the configured directions, two elements with symbolic widths and offsets")
def robustpath(cx, cfg):
    dirs, e = cfg
    g = cx.gds
    p, ns = spine(cx, dirs)
    w = [cx.real("w%d" % i, 0.01, 0.4) for i in range(2)]
    off = [cx.real("o%d" % i, -0.3, 0.3) for i in range(2)]
    la = [cx.int("la%d" % i, 0, 32767) for i in range(2)]
    da = [cx.int("da%d" % i, 0, 32767) for i in range(2)]
    end = end_of(cx, e)
    wt = cx.flag("wt")
    rp = g.RobustPath(p[0], w, off, ends=end, layer=la, datatype=da, gdsii_path=True, width_transform=wt, tolerance=1e-4)
    for q in p[1:]:
        rp.segment(q)
    props = [(3, "xyz")]
    rp.properties = dict(props)
    lib, c = library(cx), cell(cx, "C")
    c.add(rp)
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.paths) == 2 and not out.polygons, "element count")
    for i in range(2):
        want = offset_points(p, ns, -off[i])
        if len(p) == 3 and len(out.paths[i].points) == 5:
            # on the outer side of a bend the ends of both sections may be kept (collinear with them)
            o = -off[i]
            want[1:2] = [(p[1][0] + n[0] * o, p[1][1] + n[1] * o) for n in ns]
            want.insert(2, offset_points(p, ns, o)[1])
        check_path(cx, out.paths[i], want, w[i], end, la[i], da[i], wt, props, joint=1e-4)


@harness("C05", [(o, "E", e) for o in OPS for e in ("flush", "tuple")] + [("place", "a", "flush")],
         "RobustPath of one straight segment after the configured transformation, one element with symbolic offset")
def robustpath_transformed(cx, cfg):
    op, dirs, e = cfg
    g = cx.gds
    p, ns = spine(cx, dirs)
    w, off = cx.real("w", 0.01, 0.4), cx.real("o", -0.3, 0.3)
    end = end_of(cx, e)
    wt = cx.flag("wt")
    rp = g.RobustPath(p[0], w, [off], ends=end, layer=4, datatype=5, gdsii_path=True, width_transform=wt, tolerance=1e-4)
    for q in p[1:]:
        rp.segment(q)
    f, A, k, _ = mapping(cx, op)
    f(rp)
    lib, c = library(cx), cell(cx, "C")
    c.add(rp)
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.paths) == 1, "element count")
    if not isinstance(end, str):
        end = (end[0] * k, end[1] * k)
    check_path(cx, out.paths[0], [A(q) for q in offset_points(p, ns, -off)], w * k if wt else w, end, 4, 5, wt)


@harness("C05", [(d, r, k) for d, r in (("EE", 1), ("Ea", 0), ("Ea", 1), ("EN", 1)) for k in (0, 1, 2)] + [("EN", 2, 1), ("aE", 3, 0)],
         "FlexPath whose offset changes along the spine (spine of fixed shape at any position, the offset at one vertex symbolic, fixed and different at the others), with the configured repeated vertex: the written spine is the one of the path without the repetition, its vertices on the displaced segments")
def varying_offset(cx, cfg):
    dirs, rep, which = cfg
    g = cx.gds
    p0 = cx.point("p", -100, 100)
    p, ns = [p0], []
    for i, d in enumerate(dirs):
        ux, uy = (num(cx, t) for t in DIRS[d])
        p.append((p[-1][0] + ux * (10 + 3 * i), p[-1][1] + uy * (10 + 3 * i)))
        ns.append((-uy, ux))
    o = [num(cx, F(k)) for k in (F(1, 2), F(-3, 4), F(5, 4))]
    o[which] = cx.real("o", -2, 2)
    pts, offs = list(p), list(o)
    if rep:
        # the vertex is listed twice; its offset is the same both times
        pts.insert(rep, pts[rep - 1])
        offs.insert(rep, offs[rep - 1])
    fp = g.FlexPath([pts[0]], 1, [offs[0]], gdsii_path=True, layer=1)
    for q, v in zip(pts[1:], offs[1:]):
        fp.segment(q, offset=[v])
    lib, c = library(cx), cell(cx, "C")
    c.add(fp)
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    cx.check(len(out.paths) == 1, "element count")
    at = lambda i, n, v: (p[i][0] + n[0] * v, p[i][1] + n[1] * v)
    A, B = (at(0, ns[0], o[0]), at(1, ns[0], o[1])), (at(1, ns[1], o[1]), at(2, ns[1], o[2]))
    if dirs == "EE":
        mid = A[1]
    else:
        va, vb = (A[1][0] - A[0][0], A[1][1] - A[0][1]), (B[1][0] - B[0][0], B[1][1] - B[0][1])
        t = ((B[0][0] - A[0][0]) * vb[1] - (B[0][1] - A[0][1]) * vb[0]) / (va[0] * vb[1] - va[1] * vb[0])
        mid = (A[0][0] + va[0] * t, A[0][1] + va[1] * t)
    check_path(cx, out.paths[0], [A[0], mid, B[1]], 1, "flush", 1, 0, True)


@harness("C05", ["EN", "Eac"], "FlexPath with circular bends of radius 2 along a spine of fixed shape at any position: the written vertices are those of the same path at the origin, shifted",
         )
def circular_bends(cx, dirs):
    g = cx.gds
    cx.float_constants()
    base, _ = spine(cx, dirs, const=True)
    dx, dy = cx.real("dx", -100, 100), cx.real("dy", -100, 100)
    mk = lambda pts: g.FlexPath(pts, 1, corners="circular bend", bend_radius=2, gdsii_path=True, layer=1, tolerance=0.1)
    lib, c = library(cx), cell(cx, "C")
    c.add([mk(base), mk([(x + dx, y + dy) for x, y in base])])
    lib.add(c)
    out = reread(cx, lib).cells["C"]
    a, b = out.paths
    cx.check(len(a.points) == len(b.points) and len(a.points) >= len(base) + 2, "vertex count")
    for q, r in zip(a.points, b.points):
        for k, d in ((0, dx), (1, dy)):
            e = (r[k] - q[k] - d) / 1e-3
            cx.le(e, 1, "shifted by the translation")
            cx.le(-e, 1, "shifted by the translation")
    # every vertex is on a segment or on a circle of the radius tangent to both segments
    for k in (0, 1):
        cx.eq(a.points[0][k], base[0][k], "start", 2e-3)
        cx.eq(a.points[-1][k], base[-1][k], "end", 2e-3)
