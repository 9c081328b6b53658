"""Hierarchies of cells with an independent expansion (used by C09-C12, C23, C24)."""
from .geom import Aff, placement, translation
from .io import cell

SETS = [((1, 2), 3), ((3, 4), 4)]


class Ref:
    """One placement: what gdspy is given, and its affine maps."""

    def __init__(self, cx, name, kind, opts, shape=(2, 2), sym=True, lim=100):
        """opts: subset of 'rmx' (rotation, magnification, reflection)"""
        self.kind, self.opts, self.shape = kind, opts, shape if kind == "a" else (1, 1)
        if sym:
            self.origin = cx.point(name + "o", -lim, lim)
            self.rotation = cx.angle_deg(name + "r") if "r" in opts else None
            self.magnification = cx.real(name + "m", 0.1, 10) if "m" in opts else None
            self.spacing = cx.point(name + "s", -lim, lim) if kind == "a" else (0, 0)
        else:
            self.origin = (3, -2)
            self.rotation = 90 if "r" in opts else None
            self.magnification = 2 if "m" in opts else None
            self.spacing = (7, 5) if kind == "a" else (0, 0)
        self.x_reflection = "x" in opts

    def make(self, g, target):
        kw = dict(rotation=self.rotation, magnification=self.magnification, x_reflection=self.x_reflection)
        if not isinstance(target, g.Cell):
            kw["ignore_missing"] = True
        if self.kind == "a":
            return g.CellArray(target, self.shape[0], self.shape[1], self.spacing, self.origin, **kw)
        return g.CellReference(target, self.origin, **kw)

    def maps(self, cx):
        """Affine maps of all copies."""
        out = []
        base = placement(cx, None, self.rotation, self.magnification, self.x_reflection)
        lat = placement(cx, None, self.rotation, None, self.x_reflection)
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                d = lat((i * self.spacing[0], j * self.spacing[1])) if self.kind == "a" else (0, 0)
                out.append(base.then(translation(self.origin[0] + d[0], self.origin[1] + d[1])))
        return out

    def factor(self):
        return 1 if self.magnification is None else self.magnification


class Node:
    """A cell with its own content and references to other nodes."""

    def __init__(self, cx, name, polys=(), labels=(), paths=()):
        """polys: list of sets, a set being a list of ((layer, datatype), points)"""
        g = cx.gds
        self.cx, self.name = cx, name
        self.cell = cell(cx, name)
        self.polys, self.refs = [list(s) for s in polys], []
        for s in self.polys:
            ps = g.PolygonSet([p for _, p in s])
            ps.layers = [k[0] for k, _ in s]
            ps.datatypes = [k[1] for k, _ in s]
            self.cell.add(ps)

    def add(self, ref, node):
        self.refs.append((ref, node))
        self.cell.add(ref.make(self.cx.gds, node.cell))
        return self

    def own(self):
        return [kp for s in self.polys for kp in s]

    def expand(self, depth=None, boxes=False):
        """-> list of (key, points); below depth nothing, or with boxes=True the bounding box under the name of the cell"""
        cx = self.cx
        if depth is not None and depth < 0:
            if not boxes:
                return []
            pts = [v for _, p in self.expand() for v in p]
            if not pts:
                return []
            x0, x1 = cx.min(*[v[0] for v in pts]), cx.max(*[v[0] for v in pts])
            y0, y1 = cx.min(*[v[1] for v in pts]), cx.max(*[v[1] for v in pts])
            return [(self.name, [(x0, y0), (x0, y1), (x1, y1), (x1, y0)])]
        out = list(self.own())
        for r, n in self.refs:
            sub = n.expand(None if depth is None else depth - 1, boxes)
            for A in r.maps(cx):
                out += [(k, [A(v) for v in p]) for k, p in sub]
        return out


def grouped(kps):
    d = {}
    for k, p in kps:
        d.setdefault(k, []).append(p)
    return d


def eqgroups(cx, got, want, msg, cyclic=False):
    """got: {key: polygons}, want: list of (key, points)"""
    w = grouped(want)
    cx.check(set(got.keys()) == set(w.keys()), "%s: keys %r instead of %r" % (msg, sorted(map(str, got)), sorted(map(str, w))))
    for k in w:
        cx.eqsets(got[k], w[k], "%s: %s" % (msg, k), cyclic=cyclic)


def specs(sets):
    """[(key, polygon)] of a list of PolygonSets"""
    out = []
    for s in sets:
        out += list(zip(zip(s.layers, s.datatypes), s.polygons))
    return out
