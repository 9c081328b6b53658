"""C10: the views of a cell agree."""
from symex.ctx import harness
from .geom import area, rotation, placement
from .hier import Ref, Node, SETS, eqgroups, grouped, specs
from .c05 import spine, DIRS

ASSUMPTIONS = ["cos and sin of a symbolic angle are any point of the unit circle consistent with its quadrant"]


def flexpath(cx, kind, name, off=True):
    g = cx.gds
    p = cx.point(name, -50, 50)
    kw = dict(layer=[1, 9] if kind == "par" else 9, datatype=2)
    if kind == "line":
        return g.FlexPath([p, (p[0] + 3, p[1] + 4)], cx.real(name + "w", 0.5, 2), cx.real(name + "off", -2, 2) if off else 0, **kw)
    if kind == "ext":
        return g.FlexPath([p, (p[0] + 3, p[1] + 4)], cx.real(name + "w", 0.5, 2), ends=(cx.real(name + "e0", -1, 3), cx.real(name + "e1", -1, 3)), **kw)
    if kind == "bend":
        return g.FlexPath([p, (p[0] + 30, p[1] + 40), (p[0] + 80, p[1] + 40)], cx.real(name + "w", 0.5, 2), **kw)
    if kind == "par":
        return g.FlexPath([p, (p[0] + 3, p[1] + 4)], [1, cx.real(name + "w", 0.5, 2)], [-2, 2] if off else 0, **kw)
    raise KeyError(kind)


def paths_of(paths):
    out = []
    for p in paths:
        for k, ps in p.get_polygons(True).items():
            out += [(k, q) for q in ps]
    return out


def views(cx, c, want, cyclic=False):
    """Every view of the cell lists the polygons `want` [(key, points)]."""
    cx.eqsets(c.get_polygons(), [p for _, p in want], "get_polygons", cyclic=cyclic)
    eqgroups(cx, c.get_polygons(True), want, "get_polygons by specification", cyclic)
    for k in grouped(want):
        cx.eqsets(c.get_polygons(k), [p for kk, p in want if kk == k], "get_polygons of %s" % (k,), cyclic=cyclic)
    got = specs(c.get_polygonsets()) + paths_of(c.get_paths())
    eqgroups(cx, grouped(got), want, "polygon sets and paths", cyclic)


def flat(cx, c, want, cyclic=False):
    f = c.copy("F_" + c.name, deep_copy=True)
    cx.check(f.flatten() is f, "flatten returns the cell")
    cx.check(not f.references, "no references left")
    views(cx, f, want, cyclic)
    return f


def world(cx, chain, o1, o2, path, off):
    """top -> mid -> leaf, polygons and a path on every level"""
    lf = Node(cx, "L", [[((1, 2), cx.points("p", 3, -100, 100)), ((3, 4), cx.points("q", 3, -100, 100))]])
    mid = Node(cx, "M", [[((1, 2), cx.points("r", 3, -100, 100))], [((9, 2), cx.points("s", 4, -100, 100))]])
    top = Node(cx, "T", [[((3, 4), cx.points("t", 3, -100, 100))]])
    mid.add(Ref(cx, "B", chain[1], o2, (2, 1)), lf)
    top.add(Ref(cx, "A", chain[0], o1, (1, 2)), mid)
    out = [lf, mid, top]
    if path:
        for i, n in enumerate(out):
            # an offset path is placed without reflection only (known finding of reflected offsets)
            P = flexpath(cx, path, "P%d" % i, off)
            n.cell.add(P)
            n.polys.append([(k, [(v[0], v[1]) for v in q]) for k, qs in P.get_polygons(True).items() for q in qs])
    return top, mid, lf


CH = [("rr", "rm", "r"), ("rr", "x", "rx"), ("ra", "rmx", "m"), ("ar", "rm", "mx"), ("ar", "x", "r"), ("aa", "r", "x")]


@harness("C10", [c + (None,) for c in CH] + [(c, a, b, k) for c, a, b in (("rr", "rm", ""), ("rr", "x", "rm"), ("ra", "m", "r"), ("ar", "r", "x")) for k in ("line", "par", "ext")] + [("rr", "m", "", "bend"), ("rr", "x", "", "bend"), ("rr", "", "", "bend")],
         "three cells, two polygon sets or more each, the configured placements (r reference, a array; rotation, magnification, reflection) and, where configured, a flexible path in every cell (fixed direction, symbolic position, width, offset, extensions; offsets 0 when a placement reflects); everything else symbolic: get_polygons, by specification, polygon sets and paths, and the flattened copy",
         thorough=[(c, a, b, k) for c in ("rr", "ra", "ar", "aa") for a, b in (("r", "m"), ("mx", "r"), ("m", "x")) for k in (None, "line", "par", "ext")], timeout=300)
def agree(cx, cfg):
    chain, o1, o2, path = cfg
    refl = "x" in o1 + o2
    top, mid, lf = world(cx, chain, o1, o2, path, not refl)
    want = top.expand()
    views(cx, top.cell, want, bool(path))
    n = len(top.cell.references)
    flat(cx, top.cell, want, bool(path))
    cx.check(len(top.cell.references) == n, "the original still has its references")
    views(cx, top.cell, want, bool(path))


@harness("C10", ["FlexPath"], "a flexible path with an offset in [0.5,2] in a reflected reference: get_polygons and get_paths agree")
def reflected_offset(cx, kind):
    g = cx.gds
    p = cx.point("p", -50, 50)
    off = cx.real("off", 0.5, 2)
    lf, top = Node(cx, "L"), Node(cx, "T")
    lf.cell.add(g.FlexPath([p, (p[0] + 3, p[1] + 4)], 1, [off]))
    top.add(Ref(cx, "A", "r", "x"), lf)
    cx.eqsets(paths_of_points(top.cell.get_paths()), top.cell.get_polygons(), "mirrored offset", cyclic=True)


def paths_of_points(paths):
    return [q for _, q in paths_of(paths)]


# ---------------------------------------------------------------- labels

def label(cx, name, full):
    kw = {}
    if full:
        kw = dict(rotation=cx.real(name + "rot", -180, 180) if cx.flag(name + "hr") else None,
                  magnification=cx.real(name + "mag", 0.1, 10) if cx.flag(name + "hm") else None, x_reflection=cx.flag(name + "xr"))
    return cx.gds.Label(name, cx.point(name, -100, 100), "nw", layer=cx.int(name + "l", 0, 255), texttype=cx.int(name + "t", 0, 255), **kw)


def angle_sum(cx, *xs):
    """Sum of optional angles, None when all are absent."""
    if all(x is None for x in xs):
        return None
    return sum(x for x in xs if x is not None)


def expand_labels(cx, node, labels, depth=None):
    """-> [(label, position, reflection, magnification or None, rotation or None)]; labels: {cell name: [label]}"""
    out = [(l, (l.position[0], l.position[1]), bool(l.x_reflection), l.magnification, l.rotation) for l in labels.get(node.name, [])]
    if depth is None or depth > 0:
        for r, n in node.refs:
            for l, p, x, m, t in expand_labels(cx, n, labels, None if depth is None else depth - 1):
                for A in r.maps(cx):
                    t2 = None if t is None else (-t if r.x_reflection else t)
                    m2 = m if r.magnification is None else (r.magnification if m is None else m * r.magnification)
                    out.append((l, A(p), x != r.x_reflection, m2, angle_sum(cx, t2, r.rotation)))
    return out


def eqopt(cx, a, b, default, msg):
    """Equality of optional values (an absent one stands for the default)."""
    cx.eq(default if a is None else a, default if b is None else b, msg)


def eqlabels(cx, got, want, transform, msg):
    cx.check(len(got) == len(want), "%s: %d labels instead of %d" % (msg, len(got), len(want)))
    names = {}
    for w in want:
        names.setdefault(w[0].text, []).append(w)
    for nme, ws in names.items():
        gs = [g for g in got if g.text == nme]
        cx.check(len(gs) == len(ws), "%s: labels %s" % (msg, nme))
        # pair the copies by position
        P = [[(g.position[0], g.position[1])] for g in gs]
        Q = [[w[1]] for w in ws]
        cx.eqsets(P, Q, "%s: positions of %s" % (msg, nme))
        for g in gs:
            l = ws[0][0]
            cx.check(g is not l, "a copy")
            cx.eq(g.layer, l.layer, msg + ": layer")
            cx.eq(g.texttype, l.texttype, msg + ": texttype")
            cx.check(g.anchor == l.anchor, msg + ": anchor")
            if transform:
                cx.check(bool(g.x_reflection) == ws[0][2], msg + ": reflection of " + nme)
                eqopt(cx, g.magnification, ws[0][3], 1, msg + ": magnification of " + nme)
                eqopt(cx, g.rotation, ws[0][4], 0, msg + ": rotation of " + nme)
            else:
                cx.check(bool(g.x_reflection) == bool(l.x_reflection), msg + ": reflection of " + nme)
                eqopt(cx, g.magnification, l.magnification, 1, msg + ": magnification of " + nme)
                eqopt(cx, g.rotation, l.rotation, 0, msg + ": rotation of " + nme)


@harness("C10", [("rr", o1, o2) for o1 in ("", "rmx", "x") for o2 in ("", "rm", "rmx")] + [("ar", "rmx", "m"), ("ra", "x", "rmx"), ("ra", "rm", "x"), ("aa", "rx", "m")],
         "labels in three cells under the configured placements (all parameters symbolic; the leaf's label with any combination of its own rotation, magnification, reflection): listing, listing with transformations, flattened copy",
         thorough=[(c, o1, o2) for c in ("rr", "ra", "ar", "aa") for o1 in ("r", "m", "x", "rmx") for o2 in ("r", "m", "x", "rmx")])
def labels(cx, cfg):
    chain, o1, o2 = cfg
    lf, mid, top = Node(cx, "L"), Node(cx, "M"), Node(cx, "T")
    mid.add(Ref(cx, "B", chain[1], o2, (2, 1)), lf)
    top.add(Ref(cx, "A", chain[0], o1, (1, 2)), mid)
    ls = {"L": [label(cx, "ll", True)], "M": [label(cx, "lm", False)], "T": [label(cx, "lt", False)]}
    for n in (lf, mid, top):
        n.cell.add(ls[n.name])
    want = expand_labels(cx, top, ls)
    eqlabels(cx, top.cell.get_labels(), want, False, "get_labels")
    eqlabels(cx, top.cell.get_labels(set_transform=True), want, True, "get_labels with transformation")
    for d in (0, 1, 2):
        eqlabels(cx, top.cell.get_labels(depth=d), expand_labels(cx, top, ls, d), False, "get_labels depth %d" % d)
    f = top.cell.copy("F", deep_copy=True).flatten()
    eqlabels(cx, f.labels, want, False, "flattened")
    cx.check(f.labels and not f.references, "flattened")
    eqlabels(cx, top.cell.get_labels(), want, False, "get_labels again")


# ---------------------------------------------------------------- depth

@harness("C10", [(c, d) for c in ("rr", "ra", "ar") for d in (None, 0, 1, 2)], "three cells holding a polygon set and a flexible path each; polygon sets and paths queried with the configured depth list the same cells' content as get_polygons",
         thorough=[("aa", d) for d in (None, 0, 1, 2)])
def depth(cx, cfg):
    chain, d = cfg
    top, mid, lf = world(cx, chain, "rm", "r", "line", True)
    got = specs(top.cell.get_polygonsets(d)) + paths_of(top.cell.get_paths(d))
    eqgroups(cx, grouped(got), top.expand(d), "polygon sets and paths", True)
    r = top.cell.references[0]
    got = specs(r.get_polygonsets(d)) + paths_of(r.get_paths(d))
    want = [(k, [A(v) for v in p]) for A in top.refs[0][0].maps(cx) for k, p in mid.expand(d)]
    eqgroups(cx, grouped(got), want, "polygon sets and paths of the reference", True)


# ---------------------------------------------------------------- flatten to one layer

@harness("C10", [(l, d, t, q) for l in (0, 1) for d in (0, 1) for t in (0, 1) for q in (0, 1)],
         "flatten with a single layer, datatype and texttype each given or not (symbolic values), after querying the polygons or not: every polygon, path and label gets the requested numbers and keeps the others",
         )
def flatten_single(cx, cfg):
    sl, sd, st, queried = cfg
    top, mid, lf = world(cx, "ra", "rm", "m", "line", True)
    lb = label(cx, "ll", False)
    lf.cell.add(lb)
    own = label(cx, "lt", False)
    top.cell.add(own)
    want = top.expand()
    L = cx.int("sl", 0, 255) if sl else None
    D = cx.int("sd", 0, 255) if sd else None
    T = cx.int("st", 0, 255) if st else None
    c = top.cell.copy("F", deep_copy=True)
    if queried:
        c.get_polygons()
        c.get_polygons(True)
    c.flatten(L, D, T)
    cx.hashkeys(1, 2, 3, 4, 9)
    new = [((k[0] if L is None else L, k[1] if D is None else D), p) for k, p in want]
    # listings of sets and paths
    got = specs(c.get_polygonsets()) + paths_of(c.get_paths())
    cx.check(len(got) == len(new), "number of polygons")
    for dim in (0, 1):
        if (L, D)[dim] is not None:
            for k, _ in got:
                cx.eq(k[dim], (L, D)[dim], "requested " + ("layer", "datatype")[dim])
    if L is None or D is None:
        # group by the other number
        dim = 0 if L is None else 1
        if (L, D)[dim] is None:
            eqgroups(cx, grouped([(k[dim], p) for k, p in got]), [(k[dim], p) for k, p in new], "kept numbers", True)
    cx.eqsets([p for _, p in got], [p for _, p in new], "polygons", cyclic=True)
    spec = c.get_polygons(True)
    if L is not None and D is not None:
        cx.check(len(spec) == 1, "one specification")
        k = list(spec)[0]
        cx.eq(k[0], L, "layer listed")
        cx.eq(k[1], D, "datatype listed")
        cx.eqsets(spec[k], [p for _, p in new], "polygons by specification", cyclic=True)
    else:
        cx.check(sum(len(v) for v in spec.values()) == len(new), "polygons by specification")
        for k in spec:
            if L is not None:
                cx.eq(k[0], L, "layer listed")
            if D is not None:
                cx.eq(k[1], D, "datatype listed")
    cx.check(len(c.labels) == 3, "labels")
    for l in c.labels:
        o = lb if l.text == "ll" else own
        cx.eq(l.layer, o.layer if L is None else L, "label layer")
        cx.eq(l.texttype, o.texttype if T is None else T, "label texttype")


# ---------------------------------------------------------------- area

@harness("C10", [(c, o1, o2) for c, o1, o2 in (("rr", "rmx", "m"), ("ra", "m", "mx"), ("ar", "rm", "x"), ("aa", "m", "m"), ("rr", "", ""))],
         "area and area by specification of three cells (symbolic triangles, flexible paths of fixed shape) equal the shoelace areas times magnification squared times the number of copies",
         thorough=[(c, o1, o2) for c in ("rr", "ra", "ar", "aa") for o1 in ("", "mx", "r") for o2 in ("", "m")])
def areas(cx, cfg):
    chain, o1, o2 = cfg
    lf = Node(cx, "L", [[((1, 2), cx.points("p", 3, -100, 100)), ((3, 4), [(0, 0), (3, 0), (3, 5), (1, 1)])]])
    mid = Node(cx, "M", [[((1, 2), [(0, 0), (0, 7), (2, 0)])]])
    top = Node(cx, "T", [[((3, 4), cx.points("t", 3, -100, 100))]])
    fp = cx.gds.FlexPath([(0, 0), (6, 8)], 2, layer=1, datatype=2)
    lf.cell.add(fp)
    lf.polys.append([((1, 2), [(v[0], v[1]) for v in q]) for q in fp.get_polygons()])
    A = Ref(cx, "A", chain[0], o1, (2, 2))
    B = Ref(cx, "B", chain[1], o2, (3, 1))
    mid.add(B, lf)
    top.add(A, mid)
    fa, fb = A.factor() * A.factor() * A.shape[0] * A.shape[1], B.factor() * B.factor() * B.shape[0] * B.shape[1]
    tot = {}
    for n, f in ((lf, fa * fb), (mid, fa), (top, 1)):
        for k, p in n.own():
            tot[k] = tot.get(k, 0) + f * area(p)
    by = top.cell.area(True)
    cx.check(set(by) == set(tot), "specifications")
    for k in tot:
        cx.eq(by[k], tot[k], "area of %s" % (k,))
    cx.eq(top.cell.area(), sum(tot.values()), "area")
    for r, f, n in ((top.cell.references[0], fa, mid),):
        cx.eq(r.area(), f * n.cell.area(), "area of the reference")
    by2 = top.cell.area(True)
    for k in tot:
        cx.eq(by2[k], tot[k], "area of %s, asked again" % (k,))
    lone = lf.cell.area(True)
    for k in lone:
        cx.eq(lone[k], sum(area(p) for kk, p in lf.own() if kk == k), "area of the referenced cell is unchanged")


# ---------------------------------------------------------------- the same element more than once

@harness("C10", [("r", "rm"), ("r", "x"), ("a", "rmx"), ("r", "")],
         "a polygon set, a flexible path and a label each added twice to a cell that is placed once (symbolic placement): the views and the flattened copy list every element twice, transformed once")
def repeated(cx, cfg):
    kind, opts = cfg
    g = cx.gds
    lf, top = Node(cx, "L", [[((1, 2), cx.points("p", 3, -100, 100))]]), Node(cx, "T")
    lf.cell.add(lf.cell.polygons[0])
    lf.polys.append(list(lf.polys[0]))
    P = flexpath(cx, "line", "P", False)
    l = label(cx, "ll", False)
    lf.cell.add([P, P, l, l])
    for _ in range(2):
        lf.polys.append([(k, [(v[0], v[1]) for v in q]) for k, qs in P.get_polygons(True).items() for q in qs])
    top.add(Ref(cx, "A", kind, opts, (1, 2)), lf)
    want = top.expand()
    views(cx, top.cell, want, True)
    ls = expand_labels(cx, top, {"L": [l, l]})
    eqlabels(cx, top.cell.get_labels(), ls, False, "get_labels")
    f = flat(cx, top.cell, want, True)
    eqlabels(cx, f.labels, ls, False, "labels of the flattened copy")
    views(cx, lf.cell, lf.expand(), True)
