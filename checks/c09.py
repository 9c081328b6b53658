"""C09: placement of referenced geometry."""
from symex.ctx import harness
from .hier import Ref, Node, SETS, eqgroups, grouped, specs
from .io import cell

ASSUMPTIONS = ["cos and sin of a symbolic angle are any point of the unit circle consistent with its quadrant"]


def leaf(cx, name="L", sym=True, upto=2):
    sets = []
    for i, (k, n) in enumerate(SETS[:upto]):
        pts = cx.points("%s%d_" % (name, i), n, -100, 100) if sym else [(1, 2), (5, 3), (2, 7), (0, 4)][:n]
        sets.append((k, pts))
    return Node(cx, name, [sets])


OPTS = ["", "r", "m", "x", "rm", "rx", "mx", "rmx"]
SHAPES = {"r": (1, 1), "a": (2, 3)}


def agree(cx, top, msg=""):
    """All polygon listings of the top cell equal the expansion."""
    want = top.expand()
    cx.eqsets(top.cell.get_polygons(), [p for _, p in want], msg + "get_polygons")
    eqgroups(cx, top.cell.get_polygons(True), want, msg + "get_polygons by specification")
    for k in list(grouped(want)) + [(1, 4)]:
        cx.eqsets(top.cell.get_polygons(k), [p for kk, p in want if kk == k], msg + "get_polygons of %s" % (k,))
    sets = top.cell.get_polygonsets()
    got = specs(sets)
    for s in sets:
        cx.check(len(s.layers) == len(s.polygons) == len(s.datatypes), "one layer and datatype per polygon")
    eqgroups(cx, grouped(got), want, msg + "get_polygonsets")


@harness("C09", [(k, o, s) for k, s in (("r", (1, 1)), ("a", (2, 3)), ("a", (1, 1)), ("a", (3, 1))) for o in OPTS],
         "one reference (r) or array (a) with the configured options (rotation, magnification, reflection), columns and rows, of a cell with a triangle and a quadrilateral; all coordinates, angles, factors and spacings symbolic",
         thorough=[("a", o, s) for o in OPTS for s in ((4, 5), (1, 7))])
def single(cx, cfg):
    kind, opts, shape = cfg
    top = Node(cx, "T")
    lf = leaf(cx)
    ref = Ref(cx, "A", kind, opts, tuple(shape))
    top.add(ref, lf)
    agree(cx, top)
    r = top.cell.references[0]
    want = top.expand()
    cx.eqsets(r.get_polygons(), [p for _, p in want], "reference get_polygons")
    eqgroups(cx, r.get_polygons(True), want, "reference by specification")
    eqgroups(cx, grouped(specs(r.get_polygonsets())), want, "reference get_polygonsets")
    # the referenced cell is as it was
    cx.eqpolys(lf.cell.polygons[0].polygons, [p for _, p in lf.own()], "referenced cell")


@harness("C09", [(c, o, p) for c in ("rr", "ra", "ar") for o, p in (("rmx", "rmx"), ("x", "r"), ("rx", "m"), ("m", "rx"), ("", "rmx"), ("rm", "x"))] + [("aa", "rx", "rm"), ("aa", "mx", "rx")],
         "two levels: an outer and an inner placement with the configured options (arrays 2x2); every parameter symbolic; a triangle on each level, and a second reference to the leaf",
         thorough=[(c, o, p) for c in ("rr", "ra", "ar", "aa") for o in OPTS for p in OPTS])
def nested(cx, cfg):
    chain, o1, o2 = cfg
    top, mid, lf = Node(cx, "T"), Node(cx, "M", [[((1, 2), cx.points("M", 3, -100, 100))]]), leaf(cx, upto=1)
    mid.add(Ref(cx, "B", chain[1], o2, (2, 2)), lf)
    top.add(Ref(cx, "A", chain[0], o1, (2, 2)), mid)
    top.add(Ref(cx, "C", "r", "", (1, 1)), lf)
    agree(cx, top)


@harness("C09", ["rrr"], "three levels, all options, symbolic parameters on a symbolic triangle", thorough=["rar", "arr", "aaa"], timeout=400)
def deep(cx, chain):
    nodes = [leaf(cx, upto=1)]
    for i, (k, o) in enumerate(zip(chain, ("rmx", "rx", "mx"))):
        n = Node(cx, "N%d" % i)
        n.add(Ref(cx, "R%d" % i, k, o, (2, 1)), nodes[-1])
        nodes.append(n)
    top = nodes[-1]
    want = top.expand()
    cx.eqsets(top.cell.get_polygons(), [p for _, p in want], "get_polygons")
    eqgroups(cx, grouped(specs(top.cell.get_polygonsets())), want, "get_polygonsets")


@harness("C09", [(c, d) for c in ("rr", "ar", "ra") for d in (None, 0, 1, 2)],
         "three levels of cells (configured chain of placements with rotation, magnification and reflection by symbolic amounts on fixed shapes), queried with the configured depth: content below the depth is left out, or replaced by the bounding box of its cell",
         thorough=[("aa", d) for d in (None, 0, 1, 2)])
def depth(cx, cfg):
    chain, d = cfg
    top, mid, lf = Node(cx, "T", [[((5, 6), [(0, 0), (1, 0), (0, 1)])]]), Node(cx, "M", [[((1, 2), [(0, 0), (2, 0), (0, 3)])]]), leaf(cx, sym=False)
    # a placement below the cut with a right angle, so that its box is that of the polygons
    mid.add(Ref(cx, "B", chain[1], "rmx", (2, 2), sym=False), lf)
    top.add(Ref(cx, "A", chain[0], "rmx", (2, 2)), mid)
    top.add(Ref(cx, "C", "r", "m"), lf)
    want = top.expand(d, True)
    cx.eqsets(top.cell.get_polygons(depth=d), [p for _, p in want], "get_polygons")
    eqgroups(cx, top.cell.get_polygons(True, d), want, "get_polygons by specification")
    for k in ((1, 2), (3, 4), (5, 6)):
        cx.eqsets(top.cell.get_polygons(k, d), [p for kk, p in want if kk == k], "get_polygons of %s" % (k,))
    if d is None or d >= 0:
        plain = top.expand(d)
        eqgroups(cx, grouped(specs(top.cell.get_polygonsets(d))), plain, "get_polygonsets")
    r = top.cell.references[0]
    e = []
    for A in top.refs[0][0].maps(cx):
        e += [(k, [A(v) for v in p]) for k, p in mid.expand(d, True)]
    cx.eqsets(r.get_polygons(depth=d), [p for _, p in e], "reference get_polygons")
    eqgroups(cx, r.get_polygons(True, d), e, "reference by specification")


@harness("C09", ["r", "a"], "placement whose layers and datatypes are any integers (kept), by list, by specification and for the specification itself")
def any_layer(cx, kind):
    la, da = cx.int("la", 0, 300), cx.int("da", 0, 300)
    lf = Node(cx, "L", [[((la, da), cx.points("p", 3, -10, 10)), ((7, 8), cx.points("q", 3, -10, 10))]])
    cx.hashkeys(7, 8)
    top = Node(cx, "T")
    top.add(Ref(cx, "A", kind, "rx", (2, 1)), lf)
    want = top.expand()
    sets = top.cell.get_polygonsets()
    got = specs(sets)
    cx.check(len(got) == len(want), "number of polygons")
    for s in sets:
        cx.eq(s.layers[0], la, "layer")
        cx.eq(s.datatypes[0], da, "datatype")
        cx.check(s.layers[1] == 7 and s.datatypes[1] == 8, "second polygon's layer")
    d = top.cell.get_polygons(True)
    same = cx.cond(cx.and_(la == 7, da == 8))
    cx.check(len(d) == (1 if same else 2), "number of specifications")
    cx.eqsets(top.cell.get_polygons((la, da)), [p for k, p in want if same or k is not want[1][0] and k != (7, 8)] if same else [p for i, (k, p) in enumerate(want) if i % 2 == 0], "by the symbolic specification")
    cx.eqsets(top.cell.get_polygons((7, 8)), [p for i, (k, p) in enumerate(want) if same or i % 2], "by the constant specification")


@harness("C09", ["r", "a"], "placement of a cell that is missing (given by name): no geometry in any view")
def missing(cx, kind):
    top = Node(cx, "T", [[((1, 2), cx.points("p", 3, -10, 10))]])
    top.cell.add(Ref(cx, "A", kind, "rmx", (2, 1)).make(cx.gds, "NOWHERE"))
    agree(cx, top)
    r = top.cell.references[0]
    cx.check(list(r.get_polygons()) == [] and r.get_polygons(True) == {} and list(r.get_polygonsets()) == [] and list(r.get_paths()) == [] and list(r.get_labels()) == [], "no geometry")
    cx.check(len(r.get_polygons((1, 2))) == 0, "no geometry for a specification")


@harness("C09", ["r", "a"], "a reference translated by any amounts places its content moved by them")
def translated(cx, kind):
    top, lf = Node(cx, "T"), leaf(cx, upto=1)
    ref = Ref(cx, "A", kind, "rmx", (2, 2))
    top.add(ref, lf)
    dx, dy = cx.real("dx", -100, 100), cx.real("dy", -100, 100)
    r = top.cell.references[0]
    cx.check(r.translate(dx, dy) is r, "returns itself")
    ref.origin = (ref.origin[0] + dx, ref.origin[1] + dy)
    agree(cx, top)
