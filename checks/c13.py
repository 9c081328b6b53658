"""C13: library bookkeeping."""
from symex.ctx import harness
from .io import cell

ASSUMPTIONS = ["references given by the name of a cell are resolved by renaming and replacing only; the graph behind dependencies and top-level cells is that of the resolved references"]

NAMES = "ABC"
EDGES = [("A", "B"), ("A", "C"), ("B", "C")]


class World:
    """A library over a symbolic acyclic graph of three cells, mirrored in plain lists."""

    def __init__(self, cx, kind, outside=False, edges=EDGES):
        self.cx, self.g, self.kind = cx, cx.gds, kind
        self.lib = self.g.GdsLibrary("X")
        self.cells = {}       # name -> cell, the library as it should be
        self.refs = {}        # id of cell -> list of targets (cell or name)
        self.all = []
        for n in NAMES:
            self.new(n)
        for a, b in edges:
            how = cx.choice("e%s%s" % (a, b), ["none", "object", "name"])
            if how != "none":
                self.link(self.all[NAMES.index(a)], self.all[NAMES.index(b)] if how == "object" else b)
        for c in self.all:
            if not (outside and c.name == "C"):
                self.lib.add(c, include_dependencies=False)
                self.cells[c.name] = c

    def new(self, name):
        c = cell(self.cx, name)
        self.all.append(c)
        self.refs[id(c)] = []
        return c

    def link(self, a, b):
        g = self.g
        a.add(g.CellArray(b, 2, 1, (5, 6), ignore_missing=True) if self.kind == "array" else g.CellReference(b, ignore_missing=True))
        self.refs[id(a)].append(b)

    def name(self, t):
        return t if not isinstance(t, self.g.Cell) else t.name

    def deps(self, c):
        """recursive dependencies of a cell in the model"""
        out = []
        for t in self.refs[id(c)]:
            if isinstance(t, self.g.Cell):
                if t not in out:
                    out.append(t)
                for u in self.deps(t):
                    if u not in out:
                        out.append(u)
        return out

    def verify(self):
        cx, lib = self.cx, self.lib
        names = list(lib.cells.keys())
        cx.check(len(names) == len(self.cells), "library holds %d cells instead of %d" % (len(names), len(self.cells)))
        for k, c in self.cells.items():
            hit = [v for n, v in lib.cells.items() if cx.cond(n == k)]
            cx.check(len(hit) == 1 and hit[0] is c, "cell stored under its name")
            cx.check(cx.cond(c.name == k), "name of the cell")
        for k, v in lib.cells.items():
            cx.check(cx.cond(k == v.name), "every cell is stored under its own name")
        for c in self.all:
            want = self.refs[id(c)]
            cx.check(len(c.references) == len(want), "%d references instead of %d" % (len(c.references), len(want)))
            for r, t in zip(c.references, want):
                if isinstance(t, self.g.Cell):
                    cx.check(r.ref_cell is t, "target of a reference")
                else:
                    cx.check(not isinstance(r.ref_cell, self.g.Cell) and cx.cond(r.ref_cell == t), "name of a reference")
            d = c.get_dependencies()
            w = [t for t in want if isinstance(t, self.g.Cell)]
            cx.check(all(t in d for t in w) and all(any(t is u for u in w) for t in d), "direct dependencies")
            d, w = c.get_dependencies(True), self.deps(c)
            cx.check(all(t in d for t in w) and all(any(t is u for u in w) for t in d), "recursive dependencies")
        refd = [t for c in self.cells.values() for t in self.refs[id(c)]]
        want = [c for c in self.cells.values() if not any(t is c for t in refd)]
        top = lib.top_level()
        cx.check(len(top) == len(want) and all(any(t is c for c in want) for t in top), "top level cells")
        its = list(lib)
        cx.check(len(its) == len(self.cells) and all(any(t is c for c in its) for t in self.cells.values()), "iteration over the cells")

    def replace(self, old, new, cells=None):
        """references by old name -> new; number of changes"""
        n = 0
        for c in (list(self.cells.values()) if cells is None else cells):
            ts = self.refs[id(c)]
            for i, t in enumerate(ts):
                if self.cx.cond(self.name(t) == old):
                    ts[i] = new
                    n += 1
        return n

    def refused(self, f, msg):
        self.cx.raises(ValueError, f, msg)
        self.verify()


@harness("C13", ["ref", "array"], "graphs over three cells (each possible reference absent, by object or by name): dependencies and top-level cells")
def graph(cx, kind):
    World(cx, kind).verify()


@harness("C13", [(k, w) for k in ("ref", "array") for w in ("object", "name")], "removing each cell of every three-cell graph, keeping the references or not, also a cell that is not in the library")
def remove(cx, cfg):
    kind, way = cfg
    w = World(cx, kind, outside=cx.flag("outside"))
    k = cx.choice("which", NAMES)
    keep = cx.choice("flag", [None, True, False])
    c = w.all[NAMES.index(k)]
    kw = {} if keep is None else {"remove_references": keep}
    n = w.lib.remove(c if way == "object" else k, **kw)
    w.cells.pop(k, None)
    want = 0
    if keep is not False:
        for c in w.cells.values():
            ts = w.refs[id(c)]
            left = [t for t in ts if w.name(t) != k]
            want += len(ts) - len(left)
            w.refs[id(c)] = left
    cx.check(n == want, "%r references removed instead of %d" % (n, want))
    w.verify()


@harness("C13", [(k, w) for k in ("ref", "array") for w in ("object", "name")], "renaming each cell of every three-cell graph to any one-letter name from A to E (taken or free), updating the references or not")
def rename(cx, cfg):
    kind, way = cfg
    cx.hashkeys(*"ABCDE")
    w = World(cx, kind)
    k = cx.choice("which", NAMES)
    upd = cx.choice("flag", [None, True, False])
    new = cx.text("new", 1, 65, 69)
    c = w.all[NAMES.index(k)]
    arg = c if way == "object" else k
    kw = {} if upd is None else {"update_references": upd}
    if cx.cond(cx.or_(*[new == n for n in NAMES])):
        return w.refused(lambda: w.lib.rename_cell(arg, new, **kw), "renaming to a name in use was accepted")
    n = w.lib.rename_cell(arg, new, **kw)
    del w.cells[k]
    w.cells = dict([(x.name, x) for x in w.cells.values()] + [(new, c)])
    want = w.replace(k, c) if upd is not False else 0
    cx.check(n == want, "%r references updated instead of %d" % (n, want))
    w.verify()


@harness("C13", ["absent", "other", "absent name"], "renaming a cell that is not in the library, or an object whose name belongs to another cell of the library, is refused")
def rename_refused(cx, kind):
    w = World(cx, "ref", outside=kind != "other")
    c = w.all[2]
    if kind == "other":
        c = w.new("C")
    w.refused(lambda: w.lib.rename_cell("C" if kind == "absent name" else c, "Z"), "renaming was accepted")


@harness("C13", [(k, o, n) for k in ("ref", "array") for o in ("object", "name") for n in ("object", "name", "missing", "outside")], "replacing references to each cell of every three-cell graph by another cell, the name of a cell of the library, the name of no cell, or a cell outside of the library")
def replace(cx, cfg):
    kind, o, n = cfg
    w = World(cx, kind)
    a = cx.choice("old", "BC")
    # the new cell comes later in the order, so that no cycles appear
    b = "C"
    old = w.all[NAMES.index(a)]
    if n == "outside":
        target = arg = w.new("C")
    elif n == "missing":
        target = arg = "Z"
    else:
        if a == b:
            b = cx.choice("new", ["C"])
        target = w.all[NAMES.index(b)]
        arg = target if n == "object" else b
    got = w.lib.replace_references(old if o == "object" else a, arg)
    want = w.replace(a, target)
    cx.check(got == want, "%r replacements instead of %d" % (got, want))
    w.verify()


@harness("C13", [(k, way) for k in ("ref", "array") for way in ("cell", "list", "tuple", "set", "generator", "iterator")], "adding a new cell (free or taken name), which references a dependency (a library cell, a new one with a free name, a new one with a taken name, or a new one with a dependency of its own), with all combinations of flags; alone or with another cell in the configured iterable",
         timeout=300, max_paths=3000)
def add(cx, cfg):
    kind, way = cfg
    w = World(cx, kind, edges=[("A", "C"), ("B", "C")])
    name = cx.choice("name", ["B", "D"])
    dep = cx.choice("dep", ["none", "same", "E", "C", "deep"])
    inc = cx.choice("include", [None, True, False])
    over = cx.flag("over")
    upd = cx.flag("update")
    n = w.new(name)
    new = [n]
    if dep == "same":
        w.link(n, w.all[2])
    elif dep == "deep":
        # a dependency of a dependency
        d, e = w.new("E"), w.new("G")
        w.link(n, d)
        w.link(d, e)
        if inc is not False:
            new += [d, e]
    elif dep != "none":
        d = w.new(dep)
        w.link(n, d)
        if inc is not False:
            new.append(d)
    arg = n
    if way != "cell":
        x = w.new("F")
        new.append(x)
        xs = [x, n]
        arg = {"list": xs, "tuple": tuple(xs), "set": set(xs), "generator": (c for c in xs), "iterator": iter(xs)}[way]
    kw = dict(overwrite_duplicate=over, update_references=upd)
    if inc is not None:
        kw["include_dependencies"] = inc
    taken = [c for c in new if c.name in w.cells]
    if taken and not over:
        return w.refused(lambda: w.lib.add(arg, **kw), "a duplicate name was accepted")
    cx.check(w.lib.add(arg, **kw) is w.lib, "add returns the library")
    old = list(w.cells.values())
    for c in new:
        w.cells[c.name] = c
    if upd:
        # references of the cells that stay (or were replaced) follow the new cells
        stay = [c for c in w.cells.values() if any(c is x for x in old)]
        for c in taken:
            w.replace(c.name, c, stay)
    # replaced cells are no longer part of the library: their references do not matter
    w.all = [c for c in w.all if not (any(c is x for x in old) and w.cells.get(c.name) is not c)]
    w.verify()
    # adding again changes nothing
    w.lib.add(n, **dict(kw, overwrite_duplicate=False, include_dependencies=False))
    w.verify()


@harness("C13", ["ref", "array"], "two new cells, one of them with the name of the other's dependency: refused as a whole, without overwriting")
def add_clash(cx, kind):
    w = World(cx, kind, edges=[("A", "C")])
    a, d, e = w.new("D"), w.new("E"), w.new("E")
    w.link(a, d)
    w.refused(lambda: w.lib.add(cx.choice("order", [[a, e], [e, a]])), "two cells of one name were accepted")


@harness("C13", ["ref", "array"], "new_cell with a free or taken name, all combinations of flags")
def new_cell(cx, kind):
    w = World(cx, kind)
    name = cx.choice("name", ["B", "C", "D"])
    over, upd = cx.flag("over"), cx.flag("update")
    if name in w.cells and not over:
        return w.refused(lambda: w.lib.new_cell(name, over, upd), "a duplicate name was accepted")
    c = w.lib.new_cell(name, over, upd)
    cx.check(c.name == name and not c.polygons and not c.references, "an empty cell")
    old = w.cells.get(name)
    w.refs[id(c)] = []
    w.all.append(c)
    w.cells[name] = c
    if upd and old is not None:
        w.replace(name, c)
    if old is not None:
        w.all.remove(old)
    w.verify()


@harness("C13", [(a, b) for a in ("rename", "remove", "replace", "add") for b in ("rename", "remove", "replace", "add")], "two operations after another on graphs over three cells with references by object or name",
         thorough=[(a, b, c) for a in ("rename", "remove", "replace", "add") for b in ("rename", "remove", "replace", "add") for c in ("rename", "remove", "replace", "add")], timeout=300, max_paths=5000)
def sequence(cx, ops):
    w = World(cx, "ref")
    for i, op in enumerate(ops):
        t = str(i)
        if op == "rename":
            k = cx.choice("k" + t, list(w.cells))
            c = w.cells[k]
            upd = cx.flag("u" + t)
            n = "R" + t
            got = w.lib.rename_cell(k, n, upd)
            del w.cells[k]
            w.cells[n] = c
            cx.check(got == (w.replace(k, c) if upd else 0), "references updated")
        elif op == "remove":
            k = cx.choice("k" + t, list(w.cells))
            got = w.lib.remove(k)
            del w.cells[k]
            want = 0
            for c in w.cells.values():
                left = [x for x in w.refs[id(c)] if w.name(x) != k]
                want += len(w.refs[id(c)]) - len(left)
                w.refs[id(c)] = left
            cx.check(got == want, "references removed")
        elif op == "replace":
            n = w.new("N" + t)
            k = cx.choice("k" + t, ["A", "B", "C"])
            cx.check(w.lib.replace_references(k, n) == w.replace(k, n), "replacements")
        else:
            k = cx.choice("k" + t, ["B", "C"])
            n = w.new(k)
            old = w.cells.get(k)
            w.lib.add(n, overwrite_duplicate=True)
            w.cells[k] = n
            if old is not None:
                w.replace(k, n)
                # the overwritten cell was still part of the library when its references were updated
                w.all.remove(old)
    w.verify()
