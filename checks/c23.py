"""C23: SVG output."""
import re
from xml.etree import ElementTree
from symex.ctx import harness
from .geom import Aff, translation, rotation, placement
from .hier import Ref, Node
from .io import cell

NS = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"
FLIP = Aff(1, 0, 0, -1)


def parse(cx, s):
    try:
        return ElementTree.fromstring(s.encode("utf8"))
    except ElementTree.ParseError as e:
        cx.check(False, "well-formed document: %s" % e)


def fragment(cx, f):
    """Elements of a piece of a document."""
    r = parse(cx, '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">' + f.getvalue() + "</svg>")
    return list(r)


def functions(cx, s):
    """[(function, numbers)] of a transform attribute."""
    out = []
    s = (s or "").strip()
    while s:
        m = re.match(r"(translate|rotate|scale)\(([^)]*)\)[\s,]*", s)
        cx.check(bool(m), "transform %r" % s)
        out.append((m.group(1), [cx.docnum(x) for x in m.group(2).replace(",", " ").split()]))
        s = s[m.end():]
    return out


def matrix(cx, s):
    """Affine map of a transform attribute (the last function applies first)."""
    t = Aff()
    for f, a in reversed(functions(cx, s)):
        if f == "translate":
            t = t.then(translation(a[0], a[1] if len(a) > 1 else 0))
        elif f == "scale":
            t = t.then(Aff(a[0], 0, 0, a[1] if len(a) > 1 else a[0]))
        else:
            w = a[0] * cx.pi / 180
            t = t.then(rotation(cx.cos(w), cx.sin(w)))
    return t


def polygon(cx, e):
    cx.check(e.tag == NS + "polygon", "polygon element")
    return [tuple(cx.docnum(x) for x in p.split(",")) for p in e.get("points").split()]


def eqmap(cx, A, B, msg):
    for a, b in zip(A.m, B.m):
        cx.eq(a, b, msg)


def scaled(p, k):
    return [(v[0] * k, v[1] * k) for v in p]


def shape(cx, kind, l, d):
    """Element and its [(layer, datatype, points)]."""
    g = cx.gds
    s = cx.point("s", -50, 50)
    if kind == "polygonset":
        ps = g.PolygonSet([cx.points("p0_", 3, -50, 50), cx.points("p1_", 4, -50, 50)])
        ps.layers, ps.datatypes = [l, 7], [8, d]
        return ps
    if kind == "integers":
        return g.PolygonSet([[(cx.int("ix%d" % i, -50, 50), cx.int("iy%d" % i, -50, 50)) for i in range(3)]], l, d)
    if kind == "path":
        return g.Path(1, s, 2, 5).segment(cx.real("len", 5, 50), "+y", layer=[l, 7], datatype=[8, d])
    if kind == "flexpath":
        return g.FlexPath([s, (s[0] + cx.real("len", 5, 50), s[1])], [1, 2], 5, layer=[l, 7], datatype=[8, d])
    return g.RobustPath(s, [1, 2], 5, layer=[l, 7], datatype=[8, d], max_evals=1024).segment((s[0] + 10, s[1]))


@harness("C23", ["polygonset", "integers", "path", "flexpath", "robustpath"], "SVG elements of polygon sets and paths: every polygon with each vertex at its coordinates times the scaling, class by layer and datatype; symbolic coordinates, scaling, layers and datatypes")
def polygons(cx, kind):
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    k = cx.real("k", 0.1, 20)
    e = shape(cx, kind, l, d)
    f = cx.tfile()
    e.to_svg(f, k, None)
    got = fragment(cx, f)
    if kind == "flexpath" or kind == "robustpath":
        want = [(a, b, p) for (a, b), ps in e.get_polygons(True).items() for p in ps]
    else:
        want = list(zip(e.layers, e.datatypes, e.polygons))
    cx.check(len(got) == len(want), "number of polygons")
    for x, (a, b, p) in zip(got, want):
        cx.eqpts(polygon(cx, x), scaled(p, k), "vertices")
        m = re.fullmatch("l([^d]+)d(.+)", x.get("class"))
        cx.check(bool(m), "class")
        cx.eq(cx.docnum(m.group(1)), a, "layer")
        cx.eq(cx.docnum(m.group(2)), b, "datatype")


ANCHORS = ["nw", "n", "ne", "w", "o", "e", "sw", "s", "se"]


@harness("C23", [(n, o) for n in (0, 1, 2) for o in ("", "r", "m", "x", "rmx")] + [("anchors", "r")],
         "SVG elements of labels: texts of up to 2 symbolic characters escaped and complete, position times the scaling, rotation, reflection and magnification (upright text), class, the 9 anchors")
def label(cx, cfg):
    n, opts = cfg
    g = cx.gds
    k = cx.real("k", 0.1, 20)
    pos = cx.point("p", -50, 50)
    l, d = cx.int("l", 0, 255), cx.int("d", 0, 255)
    anchor = cx.choice("anchor", ANCHORS) if n == "anchors" else "o"
    text = "abc" if n == "anchors" else cx.text("t", n)
    rot = cx.angle_deg("rot") if "r" in opts else None
    mag = cx.real("mag", 0.1, 8) if "m" in opts else None
    lab = g.Label(text, pos, anchor, rot, mag, "x" in opts, l, d)
    f = cx.tfile()
    lab.to_svg(f, k, None)
    got = fragment(cx, f)
    cx.check(len(got) == 1 and got[0].tag == NS + "text" and not len(got[0]), "one text element")
    e = got[0]
    want = list(text.codes) if hasattr(text, "codes") else [ord(c) for c in text]
    have = cx.doctext(e.text)
    cx.check(len(have) == len(want), "length of the text")
    for a, b in zip(have, want):
        cx.eq(a, b, "character of the text")
    i = ANCHORS.index(anchor)
    cx.check(e.get("text-anchor") == ("start", "middle", "end")[i % 3], "horizontal anchor")
    cx.check(e.get("dominant-baseline") == ("text-before-edge", "central", "text-after-edge")[i // 3], "vertical anchor")
    m = re.fullmatch("l([^t]+)t(.+)", e.get("class"))
    cx.check(bool(m), "class")
    cx.eq(cx.docnum(m.group(1)), l, "layer")
    cx.eq(cx.docnum(m.group(2)), d, "texttype")
    # upright in a document whose y axis is flipped
    B = FLIP.then(placement(cx, (pos[0] * k, pos[1] * k), rot, mag, "x" in opts))
    eqmap(cx, matrix(cx, e.get("transform")), B, "place of the label")


OPTS = ["", "r", "m", "x", "rm", "rx", "mx", "rmx"]


@harness("C23", [(t, o, s) for t in ("ref", "array") for o in OPTS for s in ("cell", "missing") if s == "cell" or o in ("", "rmx")],
         "SVG elements of references and arrays (2 by 3) with each combination of rotation, magnification and reflection, of a cell or an absent one: the transform functions compose to the placement scaled, one element per column and row",
         thorough=[("array43", o, "cell") for o in OPTS])
def reference(cx, cfg):
    t, opts, target = cfg
    g = cx.gds
    k = cx.real("k", 0.1, 20)
    r = Ref(cx, "a", "r" if t == "ref" else "a", opts, shape=(4, 3) if t == "array43" else (2, 3))
    tgt = cell(cx, "T_1") if target == "cell" else "T_1"
    f = cx.tfile()
    r.make(g, tgt).to_svg(f, k, None)
    got = fragment(cx, f)
    want = r.maps(cx)
    cx.check(len(got) == len(want), "number of elements")
    for e, A in zip(got, want):
        cx.check(e.tag == NS + "use" and e.get(HREF) == "#T_1", "element")
        m = A.m
        eqmap(cx, matrix(cx, e.get("transform")), Aff(m[0], m[1], m[2], m[3], m[4] * k, m[5] * k), "placement")


def draw(cx, root):
    """Polygons of a document -> [(class, points)] with all transforms applied, and [(class, map)] of its texts."""
    groups = {}
    defs = root.find(NS + "defs")
    for e in defs:
        if e.tag == NS + "g":
            cx.check(e.get("id") not in groups, "unique names")
            groups[e.get("id")] = e
    polys, texts = [], []

    def visit(e, A):
        A = matrix(cx, e.get("transform")).then(A)
        if e.tag == NS + "polygon":
            polys.append((e.get("class"), [A(v) for v in polygon(cx, e)]))
        elif e.tag == NS + "use":
            name = e.get(HREF)
            cx.check(name[0] == "#", "link")
            if name[1:] in groups:
                visit(groups[name[1:]], A)
        elif e.tag == NS + "text":
            texts.append((e.get("class"), "".join(e.itertext()), A))
        elif e.tag == NS + "g":
            for x in e:
                visit(x, A)
        else:
            cx.check(False, "unexpected element %s" % e.tag)
    for e in root:
        if e.tag == NS + "g":
            visit(e, Aff())
    return polys, texts


@harness("C23", [(a, b) for a in ("r", "a") for b in ("r", "a", "")], "documents of cells with two levels of references and arrays (symbolic placements, polygon, label position and scaling): every polygon and label at its expanded position, scaled and with the y axis down; style classes of all layers")
def document(cx, cfg):
    ka, kb = cfg
    g = cx.gds
    k = cx.real("k", 0.1, 20)
    A = Node(cx, "A", [[((1, 2), cx.points("p", 3, -50, 50))]])
    lp = cx.point("lp", -50, 50)
    A.cell.add(g.Label("x<y", lp, layer=3, texttype=4))
    B = Node(cx, "B", [[((3, 4), cx.points("q", 3, -50, 50))]])
    r1 = Ref(cx, "a", ka, "rx" if kb else "rm", shape=(1, 2))
    B.add(r1, A)
    top = B
    r2 = None
    if kb:
        top = Node(cx, "C")
        r2 = Ref(cx, "b", kb, "m", shape=(2, 1))
        top.add(r2, B)
    f = cx.tfile()
    top.cell.write_svg(f, scaling=k)
    doc = f.getvalue()
    root = parse(cx, doc)
    polys, texts = draw(cx, root)
    want = [("l%dd%d" % key, [(v[0] * k, -v[1] * k) for v in p]) for key, p in top.expand()]
    cx.check(sorted(c for c, _ in polys) == sorted(c for c, _ in want), "classes of the polygons")
    for c in set(c for c, _ in want):
        cx.eqsets([p for x, p in polys if x == c], [p for x, p in want if x == c], "polygons of class %s" % c)
    maps = r1.maps(cx)
    if r2:
        maps = [m.then(n) for m in maps for n in r2.maps(cx)]
    cx.check(len(texts) == len(maps) and all(c == "l3t4" and t == "x<y" for c, t, _ in texts), "texts")
    pos = [M(lp) for M in maps]
    cx.eqsets([[m((0, 0))] for _, _, m in texts], [[(v[0] * k, -v[1] * k)] for v in pos], "label positions")
    style = "".join(root.find(NS + "defs").find(NS + "style").itertext())
    cx.check(all(("." + c + " {") in style for c in ("l1d2", "l3d4", "l3t4")), "style classes")


@harness("C23", [(p, bg) for p in ("default", "percent", "text", "number") for bg in (True, False)],
         "view box and background of documents with one symbolic rectangle and scaling: the scaled bounding box with the padding given as a share of the larger side, text or number, without padding when there is no background; repeated output is the same and the bounding box of the cell stays")
def viewbox(cx, cfg):
    pad, bg = cfg
    g = cx.gds
    k = cx.real("k", 0.1, 20)
    x, y = cx.point("o", -50, 50)
    w, h = cx.real("w", 1, 50), cx.real("h", 1, 50)
    c = cell(cx, "A")
    c.add(g.Rectangle((x, y), (x + w, y + h), 1, 2))
    pv = cx.real("pad", 0, 9)
    kw = {"default": {}, "percent": {"pad": "12.5%"}, "text": {"pad": "3.5"}, "number": {"pad": pv}}[pad]
    if not bg:
        kw["background"] = None
    for i in range(2):
        f = cx.tfile()
        c.write_svg(f, scaling=k, **kw)
        root = parse(cx, f.getvalue())
        big = cx.max(w, h) * k
        m = {"default": big * 5 / 100, "percent": big * 12.5 / 100, "text": 3.5, "number": pv}[pad] if bg else 0
        box = [x * k - m, -(y + h) * k - m, w * k + 2 * m, h * k + 2 * m]
        got = [cx.docnum(v) for v in root.get("viewBox").split()]
        cx.check(len(got) == 4, "view box")
        for a, b in zip(got, box):
            cx.eq(a, b, "view box")
        cx.eq(cx.docnum(root.get("width")), box[2], "width")
        cx.eq(cx.docnum(root.get("height")), box[3], "height")
        rects = root.findall(NS + "rect")
        cx.check(len(rects) == (1 if bg else 0), "background")
        for r in rects:
            for n, b in zip(("x", "y", "width", "height"), box):
                cx.eq(cx.docnum(r.get(n)), b, "background")
        bb = c.get_bounding_box()
        for i, v in enumerate((x, y, x + w, y + h)):
            cx.eq(bb[i // 2][i % 2], v, "bounding box of the cell")


@harness("C23", [(o, p) for o in ("r", "m", "rm") for p in (0, 2)], "documents with a limited number of digits: coordinates, origins and spacings within half a unit of the last digit, rotation and magnification unchanged")
def precision(cx, cfg):
    opts, digits = cfg
    g = cx.gds
    k = 10
    tol = 0.5 * 10 ** -digits + 1e-6

    def near(a, b, msg):
        cx.le(a - b, tol, msg)
        cx.le(b - a, tol, msg)
    A = cell(cx, "A")
    pts = cx.points("p", 3, -50, 50)
    A.add(g.Polygon(pts))
    pos = cx.point("t", -50, 50)
    mag = cx.real("lm", 0.001, 0.9)
    A.add(g.Label("t", pos, magnification=mag, rotation=12.345))
    r = Ref(cx, "a", "r", opts)
    q = Ref(cx, "b", "a", opts, shape=(1, 2))
    B = cell(cx, "B")
    B.add([r.make(g, A), q.make(g, A)])
    f = cx.tfile()
    A.to_svg(f, k, digits, "")
    got = fragment(cx, f)[0]
    for a, b in zip(polygon(cx, got[0]), pts):
        near(a[0], b[0] * k, "vertex")
        near(a[1], b[1] * k, "vertex")
    fn = dict((n, a) for n, a in functions(cx, got[1].get("transform")) if n != "scale" or len(a) == 1)
    near(fn["translate"][0], pos[0] * k, "label position")
    near(fn["translate"][1], -pos[1] * k, "label position")
    cx.eq(fn["scale"][0], mag, "label magnification")
    cx.eq(fn["rotate"][0], -12.345, "label rotation")
    f = cx.tfile()
    B.to_svg(f, k, digits, "")
    uses = list(fragment(cx, f)[0])
    cx.check(len(uses) == 3, "placements")
    for i, (e, x) in enumerate(zip(uses, (r, q, q))):
        fs = functions(cx, e.get("transform"))
        tr = [a for n, a in fs if n == "translate"]
        near(tr[0][0], x.origin[0] * k, "origin")
        near(tr[0][1], x.origin[1] * k, "origin")
        if i == 2:
            near(tr[1][1], x.spacing[1] * k, "spacing")
        if "r" in opts:
            cx.eq([a for n, a in fs if n == "rotate"][0][0], x.rotation, "rotation")
        if "m" in opts:
            cx.eq([a for n, a in fs if n == "scale"][0][0], x.magnification, "magnification")


NAMES = ["plain", "A&B", "A<B>", 'q"q', "it's", "sharp#1", "caf\u00e9", "a b"]


@harness("C23", ["ref", "array"], "documents of cells with special characters in their names: well-formed, with links to their groups")
def names(cx, kind):
    g = cx.gds
    n = cx.choice("name", NAMES)
    m = cx.choice("top", ["TOP", "T<&\">"])
    p = cx.points("p", 3, -50, 50)
    A, B = cell(cx, n), cell(cx, m)
    A.add(g.Polygon(p, 1, 2))
    B.add(g.CellReference(A, (1, 2)) if kind == "ref" else g.CellArray(A, 1, 1, (5, 5), (1, 2)))
    f = cx.tfile()
    B.write_svg(f, scaling=1)
    polys, _ = draw(cx, parse(cx, f.getvalue()))
    cx.check(len(polys) == 1, "the referenced cell is drawn")
    cx.eqpts(polys[0][1], [(v[0] + 1, -v[1] - 2) for v in p], "polygon")


@harness("C23", [None], "styles given for some layers are used, others get their own; nothing is written for a cell without geometry (symbolic rectangle)")
def styles(cx):
    g = cx.gds
    c = cell(cx, "A")
    f = cx.tfile()
    c.write_svg(f)
    cx.check(f.getvalue() == "", "no geometry")
    c.add(g.Rectangle(cx.point("a", -50, 50), (60, 60), 1, 2))
    c.add(g.Rectangle((0, 0), (1, 1), 3, 4))
    c.add(g.Label("t", (0, 0), layer=5, texttype=6))
    c.add(g.Label("t", (0, 0), layer=1, texttype=2))
    f = cx.tfile()
    c.write_svg(f, style={(1, 2): {"fill": "#123456", "stroke": "none"}}, fontstyle={(5, 6): {"font-size": "9px"}})
    style = "".join(parse(cx, f.getvalue()).find(NS + "defs").find(NS + "style").itertext())
    rules = dict(re.findall(r"\.(l\d+[dt]\d+) *\{([^}]*)\}", style))
    cx.check(set(rules) == {"l1d2", "l3d4", "l5t6", "l1t2"}, "classes")
    cx.check("#123456" in rules["l1d2"] and "stroke: none" in rules["l1d2"], "given style")
    cx.check("font-size: 9px" in rules["l5t6"] and "fill" not in rules["l5t6"], "given font style")
    cx.check("rgb(" in rules["l3d4"] and "rgb(" in rules["l1t2"], "other styles")
