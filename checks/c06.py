"""C06: what read_gds does with units, maps and renaming."""
from symex.ctx import harness
from .io import Stream

ASSUMPTIONS = ["8-byte reals are carried through the file unchanged (that the codec does so is C01)",
               "the stream is built record by record by the harness, independently of gdspy's writer"]


def rel(cx, a, b, msg):
    """Equality of lengths that may be as small as 1e-12."""
    cx.eq(a / b, 1, msg)


def elements(cx, s, layers=(1, 2, 3, 4), datatypes=(11, 12, 13), texttype=21):
    """One element of each kind with symbolic database coordinates -> description."""
    n = {}
    v = n["xy"] = [cx.int("c%d" % i, -100000, 100000) for i in range(6)]
    s.el(0x08).h(0x0D, layers[0]).h(0x0E, datatypes[0]).l(0x10, *(v + v[:2])).h(0x2B, 5).s(0x2C, b"pv").endel()
    s.el(0x2D).h(0x0D, layers[1]).h(0x2E, datatypes[1]).l(0x10, v[0], v[1], v[2], v[1], v[2], v[3], v[0], v[3], v[0], v[1]).endel()
    n["w"], n["be"], n["ee"] = cx.int("w", -5000, 5000), cx.int("be", -500, 500), cx.int("ee", -500, 500)
    s.el(0x09).h(0x0D, layers[2]).h(0x0E, datatypes[2]).h(0x21, 4).l(0x0F, n["w"]).l(0x30, n["be"]).l(0x31, n["ee"]).l(0x10, *v).endel()
    n["mag"], n["ang"] = cx.real("mag", 0.01, 100), cx.real("angle", -360, 360)
    s.el(0x0C).h(0x0D, layers[3]).h(0x16, texttype).flags(0x17, 5).flags(0x1A, 0x8000).r(0x1B, n["mag"]).r(0x1C, n["ang"]).l(0x10, *v[:2]).s(0x19, b"txt\0").endel()
    return n


def refs(cx, s, n, name):
    v = n["xy"]
    s.el(0x0A).s(0x12, name).flags(0x1A, 0).r(0x1B, n["mag"]).r(0x1C, n["ang"]).l(0x10, *v[:2]).endel()
    cols, rows = n["cols"], n["rows"] = cx.int("cols", 1, 100), cx.int("rows", 1, 100)
    sx, sy = n["sx"], n["sy"] = cx.int("sx", -1000, 1000), cx.int("sy", -1000, 1000)
    s.el(0x0B).s(0x12, name).h(0x13, cols, rows).l(0x10, v[0], v[1], v[0] + cols * sx, v[1], v[0], v[1] + rows * sy).endel()


def check_elements(cx, c, n, f, layers=(1, 2, 3, 4), datatypes=(11, 12, 13), texttype=21):
    v = n["xy"]
    cx.check(len(c.polygons) == 2 and len(c.paths) == 1 and len(c.labels) == 1, "element counts")
    p, b = c.polygons
    P = lambda i, j: (v[i] * f, v[j] * f)
    cx.eqpolys(p.polygons, [[P(0, 1), P(2, 3), P(4, 5)]], "polygon")
    cx.eqpolys(b.polygons, [[P(0, 1), P(2, 1), P(2, 3), P(0, 3)]], "box")
    t, l = c.paths[0], c.labels[0]
    cx.eqpts(t.points, [P(0, 1), P(2, 3), P(4, 5)], "path")
    cx.eq(t.widths[0][0], abs(n["w"]) * f, "width")
    cx.eq(t.ends[0][0], n["be"] * f, "begin extension")
    cx.eq(t.ends[0][1], n["ee"] * f, "end extension")
    cx.check(bool(t.width_transform) == cx.cond(n["w"] >= 0), "width scaling with magnification")
    cx.eq(l.position[0], v[0] * f, "label position")
    cx.eq(l.position[1], v[1] * f, "label position")
    cx.eq(l.magnification, n["mag"], "label magnification")
    cx.eq(l.rotation, n["ang"], "label rotation")
    cx.check(l.text == "txt" and bool(l.x_reflection), "label text, reflection")
    for got, want, what in ((p.layers, layers[0], "polygon layer"), (p.datatypes, datatypes[0], "polygon datatype"),
                            (b.layers, layers[1], "box layer"), (b.datatypes, datatypes[1], "box type"),
                            (t.layers, layers[2], "path layer"), (t.datatypes, datatypes[2], "path datatype"),
                            ([l.layer], layers[3], "label layer"), ([l.texttype], texttype, "texttype")):
        cx.check(len(got) == 1, what)
        cx.eq(got[0], want, what)
    cx.check(list(p.properties.items()) == [(5, "pv")], "property attribute")
    cx.check(not b.properties and not t.properties and not l.properties, "no further properties")


def check_refs(cx, c, n, f, target):
    v = n["xy"]
    cx.check(len(c.references) == 2, "reference count")
    r, a = c.references
    for q in (r, a):
        cx.check(q.ref_cell is target if not isinstance(target, str) else q.ref_cell == target, "target")
        cx.eq(q.origin[0], v[0] * f, "origin")
        cx.eq(q.origin[1], v[1] * f, "origin")
    cx.eq(r.magnification, n["mag"], "magnification")
    cx.eq(r.rotation, n["ang"], "rotation")
    cx.check(a.magnification is None and a.rotation is None and not a.x_reflection, "array has no transformation")
    cx.eq(a.columns, n["cols"], "columns")
    cx.eq(a.rows, n["rows"], "rows")
    cx.eq(a.spacing[0], n["sx"] * f, "spacing")
    cx.eq(a.spacing[1], n["sy"] * f, "spacing")


@harness("C06", [(m, how) for m in ("skip", "import", "convert", None) for how in ("constructor", "method")],
         "a file with one element of each kind, coordinates any integers in [-1e5,1e5], file precision in [1e-10,1e-6] m, file user unit 1..1e4 precisions, library unit in [1e-9,1e-4] m; read by the configured mode (None: the default) into a new or an existing library")
def units(cx, cfg):
    mode, how = cfg
    db_m, ratio, unit = cx.real("db", 1e-10, 1e-6), cx.real("ratio", 1e-4, 1), cx.real("unit", 1e-9, 1e-4)
    prec = cx.real("prec", 1e-12, 1e-9)
    s = Stream(cx, ratio, db_m)
    s.begin(b"SUB\0").end()
    s.begin(b"TOP\0")
    n = elements(cx, s)
    refs(cx, s, n, b"SUB\0")
    s.end()
    kw = {} if mode is None else {"units": mode}
    if how == "constructor":
        lib = cx.gds.GdsLibrary("OLD", infile=s.file(), unit=unit, precision=prec, **kw)
    else:
        lib = cx.gds.GdsLibrary("OLD", unit=unit, precision=prec)
        cx.check(lib.read_gds(s.file(), **kw) is lib, "returns the library")
    if mode == "convert":
        f = db_m / unit
    else:
        f = ratio
    c = lib.cells["TOP"]
    check_elements(cx, c, n, f)
    check_refs(cx, c, n, f, lib.cells["SUB"])
    if mode == "import":
        rel(cx, lib.unit * ratio, db_m, "library unit")
        rel(cx, lib.precision, db_m, "library precision")
    else:
        rel(cx, lib.unit, unit, "library unit")
        rel(cx, lib.precision, prec, "library precision")


@harness("C06", [None], "an unknown units mode is refused")
def units_refused(cx):
    lib = cx.gds.GdsLibrary("OLD")
    s = Stream(cx)
    s.begin(b"TOP\0").end()
    cx.int("dummy", 0, 1)
    cx.raises(ValueError, lambda: lib.read_gds(s.file(), units=cx.choice("m", ["scale", "Convert", ""])), "accepted")


@harness("C06", ["L", "D", "T", "LDT"],
         "each layer, datatype, boxtype and texttype in the file any value in 0..255; maps with two keys each sending to arbitrary values (that may be keys again); which maps are given is configured")
def maps(cx, which):
    s = Stream(cx, 1.0, 1e-9)
    s.begin(b"TOP\0")
    keys = (1, 2)
    # the file's numbers: all sites share two symbolic values so that every hit/miss combination per site is covered
    a, b = cx.int("a", 0, 255), cx.int("b", 0, 255)
    cx.hashkeys(*keys)
    layers, datatypes, texttype = (a, b, a, b), (b, a, b), a
    n = elements(cx, s, layers, datatypes, texttype)
    s.end()
    kw, m = {}, {}
    for k, name in (("L", "layers"), ("D", "datatypes"), ("T", "texttypes")):
        m[k] = (keys, [cx.int("%s%d" % (name, i), 0, 255) for i in range(2)]) if k in which else ((), ())
        if k in which:
            kw[name] = dict(zip(*m[k]))

    def mapped(k, x):
        for i, o in zip(*m[k]):
            if cx.cond(x == i):
                return o
        return x
    lib = cx.gds.GdsLibrary("OLD", infile=s.file(), **kw)
    check_elements(cx, lib.cells["TOP"], n, 1.0, [mapped("L", x) for x in layers], [mapped("D", x) for x in datatypes], mapped("T", texttype))
    for k, name in (("L", "layers"), ("D", "datatypes"), ("T", "texttypes")):
        if k in which:
            cx.check(len(kw[name]) == 2, "map unchanged")


RENAMES = [({}, None), ({"AB": "X"}, None), ({}, "{name}-s"), ({"AB": "X", "CD": "AB"}, "p{name}"), ({"AB": "CD", "CD": "AB"}, None), ({"ZZ": "Y"}, "{name}"), ({"NOWHERE": "OLD"}, None)]


@harness("C06", list(range(len(RENAMES))),
         "two cells (the second referring to the first and to a cell that is not in the file) at any coordinates, read with the configured renaming dictionary and template, into a library that already holds another cell")
def rename(cx, i):
    names, template = RENAMES[i]
    s = Stream(cx, 1.0, 1e-9)
    x, y = cx.int("x", -1000, 1000), cx.int("y", -1000, 1000)
    order = cx.choice("order", [0, 1])

    def ab():
        s.begin(b"AB")
        s.el(0x08).h(0x0D, 1).h(0x0E, 2).l(0x10, x, y, x + 1, y, x, y + 1, x, y).endel()
        s.end()

    def cd():
        s.begin(b"CD")
        s.el(0x0A).s(0x12, b"AB").l(0x10, x, y).endel()
        s.el(0x0B).s(0x12, b"NOWHERE\0").h(0x13, 2, 3).l(0x10, x, y, x + 2, y, x, y + 3).endel()
        s.el(0x0C).h(0x0D, 1).h(0x16, 2).l(0x10, x, y).s(0x19, b"AB").endel()
        s.end()
    for f in ((ab, cd) if order == 0 else (cd, ab)):
        f()
    lib = cx.gds.GdsLibrary("LIB")
    old = cx.gds.Cell("OLD", exclude_from_current=True)
    lib.add(old)
    kw = {}
    if names:
        kw["rename"] = dict(names)
    if template is not None:
        kw["rename_template"] = template
    lib.read_gds(s.file(), **kw)
    new = lambda n: names[n] if n in names else (template or "{name}").format(name=n)
    cx.check(set(lib.cells) == {"OLD", new("AB"), new("CD")}, "cell names %s" % sorted(lib.cells))
    cx.check(lib.cells["OLD"] is old and not old.polygons, "existing cell kept")
    A, C = lib.cells[new("AB")], lib.cells[new("CD")]
    cx.check(A.name == new("AB") and C.name == new("CD"), "names of the cells")
    cx.check(len(A.polygons) == 1 and not A.references and len(C.references) == 2 and not C.polygons, "contents")
    r, a = C.references
    cx.check(r.ref_cell is A, "reference to the renamed cell")
    t = new("NOWHERE")
    cx.check(a.ref_cell is old if t == "OLD" else a.ref_cell == t, "reference to a cell outside the file")
    cx.check(C.labels[0].text == "AB", "text is not renamed")
    cx.eqpts([r.origin, a.origin], [(x, y)] * 2, "origins")


@harness("C06", ["file", "library"], "a renaming that maps two cells to one name, or a cell to a name the library holds, is refused; the cells the library held stay")
def rename_conflict(cx, kind):
    s = Stream(cx, 1.0, 1e-9)
    x = cx.int("x", -1000, 1000)
    s.begin(b"AB").end()
    s.begin(b"CD")
    s.el(0x08).h(0x0D, 1).h(0x0E, 2).l(0x10, x, 0, x + 1, 0, x, 1, x, 0).endel()
    s.end()
    lib = cx.gds.GdsLibrary("LIB")
    old = cx.gds.Cell("OLD", exclude_from_current=True)
    lib.add(old)
    names = {"CD": "AB"} if kind == "file" else {"CD": "OLD"}
    cx.raises(ValueError, lambda: lib.read_gds(s.file(), rename=names), "name conflict accepted")
    cx.check(lib.cells["OLD"] is old and not old.polygons, "existing cell kept")


@harness("C06", ["skip", "convert", "import"], "reading two files with different units into one library, coordinates any integers in [-1e5,1e5]")
def two_files(cx, mode):
    lib = cx.gds.GdsLibrary("LIB", unit=1e-6, precision=1e-9)
    x = [cx.int("x%d" % i, -100000, 100000) for i in range(2)]
    u = [(1e-3, 1e-9), (1.0, 1e-8)]
    for i in range(2):
        s = Stream(cx, *u[i])
        s.begin(b"C" + b"01"[i:i + 1])
        s.el(0x08).h(0x0D, 1).h(0x0E, 2).l(0x10, x[i], 0, x[i] + 1, 0, x[i], 1, x[i], 0).endel()
        s.end()
        lib.read_gds(s.file(), units=mode)
    for i in range(2):
        f = u[i][1] / 1e-6 if mode == "convert" else u[i][0]
        cx.eq(lib.cells["C%d" % i].polygons[0].polygons[0][0][0], x[i] * f, "coordinate")
    want = {"import": (1e-8, 1e-8)}.get(mode, (1e-6, 1e-9))
    rel(cx, lib.unit, want[0], "unit")
    rel(cx, lib.precision, want[1], "precision")


@harness("C06", [("path", s) for s in ("", "P", "W", "B", "E", "PW", "PWB", "PWE", "WBE")] + [(k, s) for k in ("text", "sref", "aref") for s in ("", "S", "SM", "SA", "SMA")],
         "one element with the configured subset of its optional records (path type, width, extensions; transformation flags with any of the four combinations of reflection and unsupported bits, magnification, angle): the records present have their values, those absent the defaults")
def optional(cx, cfg):
    kind, opts = cfg
    s = Stream(cx, 1.0, 1e-9)
    s.begin(b"TOP\0")
    v = [cx.int("c%d" % i, -100000, 100000) for i in range(6)]
    if kind == "path":
        s.el(0x09).h(0x0D, 1).h(0x0E, 2)
        pt = cx.choice("pathtype", [0, 1, 2]) if "P" in opts else 0
        if "B" in opts or "E" in opts:
            pt = 4
        if pt or "P" in opts:
            s.h(0x21, pt)
        w, b, e = (cx.int(k, 1, 5000) for k in "wbe")
        for o, t, val in (("W", 0x0F, w), ("B", 0x30, b), ("E", 0x31, e)):
            if o in opts:
                s.l(t, val)
        s.l(0x10, *v).endel()
    else:
        s.el({"text": 0x0C, "sref": 0x0A, "aref": 0x0B}[kind])
        if kind == "text":
            s.h(0x0D, 1).h(0x16, 2)
        else:
            s.s(0x12, b"SUB\0")
        fl = cx.choice("flags", [0, 0x8000, 0x8006, 0x0004]) if "S" in opts else 0
        mag, ang = cx.real("mag", 0.01, 100), cx.real("ang", -360, 360)
        if kind == "aref" and "A" in opts:
            ang = 0.0
        if "S" in opts:
            s.flags(0x1A, fl)
        if "M" in opts:
            s.r(0x1B, mag)
        if "A" in opts:
            s.r(0x1C, ang)
        if kind == "aref":
            s.h(0x13, 2, 3)
            s.l(0x10, v[0], v[1], v[0] + 2 * v[2], v[1], v[0], v[1] + 3 * v[3])
        else:
            s.l(0x10, *v[:2])
        if kind == "text":
            s.s(0x19, b"txt\0")
        s.endel()
    s.end()
    c = cx.gds.GdsLibrary("IN", infile=s.file()).cells["TOP"]
    cx.check(len(c.paths) + len(c.labels) + len(c.references) == 1, "one element")
    if kind == "path":
        p = c.paths[0]
        cx.eqpts(p.points, [v[:2], v[2:4], v[4:]], "spine")
        cx.eq(p.widths[0][0], w if "W" in opts else 0, "width")
        if pt == 4:
            cx.eq(p.ends[0][0], b if "B" in opts else 0, "extension at the beginning")
            cx.eq(p.ends[0][1], e if "E" in opts else 0, "extension at the end")
        else:
            cx.check(p.ends[0] == {0: "flush", 1: "round", 2: "extended"}[pt], "end type")
        return
    q = c.labels[0] if kind == "text" else c.references[0]
    o = q.position if kind == "text" else q.origin
    cx.eq(o[0], v[0], "position")
    cx.eq(o[1], v[1], "position")
    cx.check(bool(q.x_reflection) == bool(fl & 0x8000), "reflection")
    for has, got, want, what in (("M", q.magnification, mag, "magnification"), ("A", q.rotation, ang, "rotation")):
        if has in opts:
            cx.eq(got, want, what)
        else:
            # absent records stand for no scaling and no rotation
            cx.check(got is None or cx.cond(got == (1 if has == "M" else 0)), what)
    if kind == "aref":
        cx.check(q.columns == 2 and q.rows == 3, "columns and rows")
        cx.eq(q.spacing[0], v[2], "spacing")
        cx.eq(q.spacing[1], v[3] * (-1 if fl & 0x8000 else 1), "spacing")


@harness("C06", ["node", "box"], "an element that is not supported (node), between others, with a property and any coordinates: the others are read as they are and have no properties of it")
def unsupported(cx, kind):
    s = Stream(cx, 1.0, 1e-9)
    x = [cx.int("x%d" % i, -100000, 100000) for i in range(3)]
    s.begin(b"TOP\0")
    if kind != "box":
        s.el(0x15).h(0x0D, 9).h(0x2A, 9).l(0x10, x[0], 5, x[0], 9).h(0x2B, 7).s(0x2C, b"pv").endel()
    else:
        s.el(0x2D).h(0x0D, 9).h(0x2E, 9).l(0x10, x[0], 0, x[0] + 1, 0, x[0], 1, x[0], 0).h(0x2B, 7).s(0x2C, b"pv").endel()
    s.el(0x08).h(0x0D, 1).h(0x0E, 2).l(0x10, x[1], 0, x[1] + 1, 0, x[1], 1, x[1], 0).endel()
    s.el(0x0C).h(0x0D, 3).h(0x16, 4).l(0x10, x[2], 0).s(0x19, b"txt\0").endel()
    s.end()
    c = cx.gds.GdsLibrary("IN", infile=s.file()).cells["TOP"]
    p = c.polygons[-1]
    cx.check(len(c.polygons) == (2 if kind == "box" else 1) and len(c.labels) == 1, "elements")
    cx.eqpolys(p.polygons, [[(x[1], 0), (x[1] + 1, 0), (x[1], 1)]], "polygon after an unsupported element")
    cx.check(not p.properties and not c.labels[0].properties, "properties of another element")
    cx.check(p.layers == [1] and p.datatypes == [2] and (c.labels[0].layer, c.labels[0].texttype) == (3, 4), "layers")
