"""C11: bounding boxes are tight and follow every change."""
from symex.ctx import harness
from .hier import Ref, Node
from .io import cell

ASSUMPTIONS = ["rotations by multiples of 45 degrees are taken as doubles; other rotations are covered by the vertex maps of C09"]


def box(cx, pts):
    pts = list(pts)
    if not pts:
        return None
    return [[cx.min(*[p[0] for p in pts]), cx.min(*[p[1] for p in pts])], [cx.max(*[p[0] for p in pts]), cx.max(*[p[1] for p in pts])]]


def eqbox(cx, got, pts, msg, exact=True):
    want = box(cx, pts)
    if want is None:
        return cx.check(got is None, msg + ": a box of no geometry")
    cx.check(got is not None, msg + ": no box")
    for i in (0, 1):
        for k in (0, 1):
            cx.eq(got[i][k], want[i][k], "%s: %s %s" % (msg, ("least", "greatest")[i], "xy"[k]), 1e-9 if exact else 1e-6)


@harness("C11", [(3,), (4,), (3, 4), (3, 3, 3)], "polygon sets of the configured numbers of vertices, all coordinates symbolic; also in a cell, twice, and after editing the returned box", thorough=[(5, 4), (6,)])
def polygonset(cx, sizes):
    g = cx.gds
    P = [cx.points("p%d" % i, n) for i, n in enumerate(sizes)]
    ps = g.PolygonSet(P)
    flat = [v for p in P for v in p]
    b = ps.get_bounding_box()
    eqbox(cx, b, flat, "polygon set")
    b[0][0] = -5000
    eqbox(cx, ps.get_bounding_box(), flat, "polygon set, again")
    c = cell(cx, "A").add(ps)
    b = c.get_bounding_box()
    eqbox(cx, b, flat, "cell")
    b[1][1] = 5000
    eqbox(cx, c.get_bounding_box(), flat, "cell, again")


@harness("C11", ["none", "empty set", "label", "empty ref", "empty array", "missing ref", "flexpath", "robustpath", "zero flexpath"], "cells without geometry")
def empty(cx, kind):
    g = cx.gds
    c, e = cell(cx, "A"), cell(cx, "E")
    p = cx.point("p")
    if kind == "empty set":
        s = g.PolygonSet([])
        cx.check(s.get_bounding_box() is None, "empty set")
        c.add(s)
    elif kind == "label":
        c.add(g.Label("x", p))
    elif kind == "empty ref":
        c.add(g.CellReference(e, p, rotation=cx.choice("r", [None, 90, 45])))
    elif kind == "empty array":
        c.add(g.CellArray(e, 2, 2, (1, 1), p, rotation=cx.choice("r", [None, 90, 45])))
    elif kind == "missing ref":
        c.add(g.CellReference("nowhere", p, ignore_missing=True))
    elif kind == "flexpath":
        c.add(g.FlexPath([p], 1))
    elif kind == "zero flexpath":
        c.add(g.FlexPath([p, p], 1))
    elif kind == "robustpath":
        c.add(g.RobustPath(p, 1))
    cx.check(c.get_bounding_box() is None, "no geometry")
    top = cell(cx, "T").add(g.CellReference(c, p))
    cx.check(top.get_bounding_box() is None, "no geometry below")
    cx.check(top.references[0].get_bounding_box() is None, "no geometry in the reference")
    q = cx.points("q", 3)
    top.add(g.Polygon(q))
    eqbox(cx, top.get_bounding_box(), q, "with one polygon")


class Fixed(Ref):
    """a placement with a configured rotation"""

    def __init__(self, cx, name, kind, rotation, opts, shape=(2, 2)):
        Ref.__init__(self, cx, name, kind, opts, shape)
        self.rotation = rotation


ROT = [None, 0, 90, 180, 270, -90, 450]


@harness("C11", [(k, r, o) for k in "ra" for r in ROT for o in ("", "mx")] + [(k, r, o) for k in "ra" for r in (45, -45, 135) for o in ("", "x")] + [("r", 0.25, ""), ("a", 90.25, "x"), ("r", 179.8, "")],
         "a reference or 2x2 array with the configured rotation; symbolic magnification, origin, spacing and a symbolic triangle (for odd multiples of 45 degrees and angles near right angles: corner position symbolic only): box of the placement and of the cell",
         thorough=[(k, r, o) for k in "ra" for r in ROT for o in ("x", "m")] + [(k, r, "m") for k in "ra" for r in (45, 135, 225)], timeout=120)
def placed(cx, cfg):
    kind, rot, opts = cfg
    if rot is not None and rot % 90:
        cx.float_constants()
        x, y = cx.point("p", -100, 100)
        P = [(x, y), (x + 3, y + 1), (x + 2, y + 4)]
    else:
        P = cx.points("p", 3, -100, 100)
    lf = Node(cx, "L", [[((1, 2), P)]])
    top = Node(cx, "T", [])
    top.add(Fixed(cx, "A", kind, rot, opts, (2, 2)), lf)
    want = [v for _, p in top.expand() for v in p]
    eqbox(cx, top.cell.references[0].get_bounding_box(), want, "placement", False)
    eqbox(cx, top.cell.get_bounding_box(), want, "cell", False)
    eqbox(cx, lf.cell.get_bounding_box(), P, "placed cell")
    eqbox(cx, top.cell.get_bounding_box(), want, "cell, again", False)


@harness("C11", [(90, 45), (45, 90), (45, 45), (None, 180), (45, None), (-90, 90)], "two levels of references with the configured rotations over a triangle at a symbolic position: the box is that of the vertices, not of a rotated box", timeout=120)
def nested(cx, cfg):
    cx.float_constants()
    x, y = cx.point("p", -100, 100)
    lf, mid, top = Node(cx, "L", [[((1, 2), [(x, y), (x + 3, y + 1), (x + 2, y + 4)])]]), Node(cx, "M"), Node(cx, "T")
    mid.add(Fixed(cx, "B", "r", cfg[1], ""), lf)
    top.add(Fixed(cx, "A", "r", cfg[0], "x"), mid)
    eqbox(cx, top.cell.get_bounding_box(), [v for _, p in top.expand() for v in p], "two levels", False)
    eqbox(cx, top.cell.references[0].get_bounding_box(), [v for _, p in top.expand() for v in p], "reference", False)


# ---------------------------------------------------------------- paths

@harness("C11", ["flex", "robust", "flex2"], "cells with a straight path of symbolic position and width (axis-parallel) and a symbolic point polygon")
def paths(cx, kind):
    g = cx.gds
    x, y = cx.point("p", -100, 100)
    w = cx.real("w", 0.5, 4)
    if kind == "flex":
        p = g.FlexPath([(x, y), (x + 10, y)], w)
        want = [(x, y - w / 2), (x + 10, y + w / 2)]
    elif kind == "flex2":
        p = g.FlexPath([(x, y), (x, y + 10)], [w, 1], 4)
        want = [(x + 2 - w / 2, y), (x + 2 + w / 2, y + 10), (x - 1.5, y), (x - 2.5, y)]
    else:
        x, y = 20, -30
        p = g.RobustPath((x, y), 1).segment((x + 10, y))
        want = [(x, y - 0.5), (x + 10, y + 0.5)]
    q = cx.points("q", 3, -100, 100)
    c = cell(cx, "A").add(p)
    eqbox(cx, c.get_bounding_box(), want, "path")
    eqbox(cx, p.to_polygonset().get_bounding_box(), want, "polygon set of the path")
    c.add(g.Polygon(q))
    eqbox(cx, c.get_bounding_box(), want + q, "path and polygon")
    c.remove_paths(lambda p: True)
    eqbox(cx, c.get_bounding_box(), q, "without the path")
    c.add([p, g.Label("x", (500, 500))])
    eqbox(cx, c.get_bounding_box(), want + q, "path again")
    c.remove_polygons(lambda *a: True)
    eqbox(cx, c.get_bounding_box(), want, "without the polygon")


# ---------------------------------------------------------------- histories

class World:
    """top -> mid -> leaf, spare; mirrors every operation in plain lists"""

    def __init__(self, cx, rot):
        g = cx.gds
        self.cx, self.rot, self.n = cx, rot, 0
        self.lib = g.GdsLibrary("X")
        self.inlib = set("TMLS")
        self.c, self.own, self.refs, self.path = {}, {}, {}, {}
        for k in "TMLS":
            self.c[k] = cell(cx, k)
            self.own[k], self.refs[k], self.path[k] = [], [], []
            self.lib.add(self.c[k])
        self.ref("M", "L")
        self.ref("T", "M")
        for k in "TMLS":
            self.poly(k)

    def tri(self):
        self.n += 1
        x, y = self.cx.real("p%d" % self.n, -100, 100), (self.n * 37) % 23
        return [(x, y), (x + 1, y), (x, y + 1)]

    def poly(self, k):
        p = self.tri()
        self.own[k].append((self.n, p))
        self.c[k].add(self.cx.gds.Polygon(p, layer=self.n))

    def pathto(self, k):
        x, y = self.tri()[0]
        self.path[k].append([(x, y - 1), (x + 5, y + 1)])
        self.c[k].add(self.cx.gds.FlexPath([(x, y), (x + 5, y)], 2))

    def ref(self, k, target):
        self.n += 1
        d = (7 * self.n, -5 * self.n)
        self.refs[k].append((d, target))
        self.c[k].add(self.cx.gds.CellReference(self.c[target], d, rotation=self.rot))

    def pts(self, k):
        out = [v for _, p in self.own[k] for v in p] + [v for p in self.path[k] for v in p]
        for d, t in self.refs[k]:
            sub = self.pts(t)
            if self.rot == 90:
                out += [(d[0] - v[1], d[1] + v[0]) for v in sub]
            elif self.rot == 45:
                s = self.cx.sqrt(0.5) if not self.cx.symbolic else 0.5 ** 0.5
                out += [(d[0] + s * (v[0] - v[1]), d[1] + s * (v[0] + v[1])) for v in sub]
            else:
                out += [(d[0] + v[0], d[1] + v[1]) for v in sub]
        return out

    def do(self, op):
        c = self.c
        if op[:5] == "poly ":
            self.poly(op[5])
        elif op[:5] == "path ":
            self.pathto(op[5])
        elif op[:4] == "ref ":
            self.ref(op[4], op[5])
        elif op[:7] == "remove ":
            k = op[7]
            first = self.own[k][:1]
            self.own[k] = self.own[k][1:]
            self.c[k].remove_polygons(lambda p, l, d: l == first[0][0] if first else False)
        elif op[:6] == "unpath":
            k = op[7]
            self.path[k] = []
            c[k].remove_paths(lambda p: True)
        elif op[:8] == "flatten ":
            k = op[8]
            pts = self.pts(k)
            self.own[k], self.refs[k], self.path[k] = [(0, pts)], [], []
            c[k].flatten()
        elif op[:5] == "drop ":
            k = op[5]
            self.lib.remove(c[k])
            self.inlib.discard(k)
            for r in self.inlib:
                self.refs[r] = [x for x in self.refs[r] if x[1] != k]
        elif op[:8] == "replace ":
            self.lib.replace_references(c[op[8]], c[op[9]])
            for r in self.inlib:
                self.refs[r] = [(d, op[9] if t == op[8] else t) for d, t in self.refs[r]]
        elif op[:4] == "over":
            # overwrite the cell of the library by a new one
            k = op[5]
            n = self.cx.gds.Cell(k, exclude_from_current=True)
            self.c[k] = n
            self.own[k], self.refs[k], self.path[k] = [], [], []
            self.poly(k)
            self.lib.add(n, overwrite_duplicate=True)
        else:
            raise KeyError(op)

    def query(self, which):
        for k in which:
            eqbox(self.cx, self.c[k].get_bounding_box(), self.pts(k), "box of %s" % k, False)


OPS = ["poly T", "poly M", "poly L", "path L", "path T", "ref MS", "ref TS", "ref LS", "remove T", "remove M", "remove L", "unpath L", "flatten T", "flatten M", "drop L", "drop M", "replace LS", "replace MS", "over L"]


@harness("C11", [(r, a) for r in (None, 90, 45) for a in OPS if r is None or a in ("poly L", "remove L", "flatten M", "drop L", "replace LS", "ref LS", "over L")],
         "hierarchy of three cells and a spare with triangles at symbolic positions, placements rotated as configured: queries, the configured change, queries, a second change, and queries of all cells; the second change and the query sets are decision variables",
         thorough=[(r, a) for r in (90, 45) for a in OPS if a not in ("poly L", "remove L", "flatten M", "drop L", "replace LS", "ref LS", "over L")], timeout=300, max_paths=1000)
def history(cx, cfg):
    rot, first = cfg
    if rot == 45:
        cx.float_constants()
    w = World(cx, rot)
    w.query(cx.choice("q0", ["", "LMT"] if rot is None else ["T"]))
    w.do(first)
    q = cx.choice("q1", ["", "L", "TML"] if rot is None else ["L"])
    w.query(q)
    second = cx.choice("op", ["poly L", "remove L", "flatten M", "replace LS", "poly S"])
    w.do(second)
    w.query("STML" if cx.flag("order") else "LMTS")


@harness("C11", ["polygon", "reference", "path"], "a polygon, reference or path of the cell is moved in place after a query")
def inplace(cx, kind):
    g = cx.gds
    c = cell(cx, "A")
    p = cx.points("p", 3, -100, 100)
    d = cx.point("d", 1, 10)
    if kind == "polygon":
        e = g.Polygon(p)
        want = p
    elif kind == "reference":
        e = g.CellReference(cell(cx, "B").add(g.Polygon(p)))
        want = p
    else:
        e = g.FlexPath([(0, 0), (10, 0)], 2)
        want = [(0, -1), (10, 1)]
    c.add(e)
    eqbox(cx, c.get_bounding_box(), want, "before")
    e.translate(*d)
    eqbox(cx, c.get_bounding_box(), [(v[0] + d[0], v[1] + d[1]) for v in want], "after moving")
