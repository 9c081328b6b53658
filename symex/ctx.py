"""The harness interface; one harness function runs symbolically and concretely."""
from __future__ import annotations
import io
import math
import os
import shutil
import tempfile
from fractions import Fraction


class AssumeFailed(Exception):
    pass


class CheckFailed(Exception):
    pass


HARNESSES = {}


class Harness:
    def __init__(self, prop, fn, configs, bounds, thorough=None, timeout=None, max_paths=None, setup=None, solver_ms=None, tier="quick"):
        self.prop, self.fn, self.configs, self.bounds = prop, fn, configs, bounds
        self.thorough = thorough
        self.timeout = timeout
        self.max_paths = max_paths
        self.solver_ms = solver_ms
        self.name = fn.__name__
        self.tier = tier


def harness(prop, configs=(None,), bounds="", thorough=None, **kw):
    """thorough: additional configurations for the thorough tier."""
    def deco(fn):
        h = Harness(prop, fn, list(configs), bounds, list(thorough) if thorough else [], **kw)
        HARNESSES.setdefault(prop, {})[fn.__name__] = h
        return fn
    return deco


class CtxBase:
    symbolic = False

    def clipper(self, **hooks):
        """Replaces functions of the clipping engine (the extension module) by stand-ins."""
        self.gds.clipper.HOOKS.update(hooks)

    def eqpts(self, A, B, msg="", tol=1e-6):
        A, B = list(A), list(B)
        self.check(len(A) == len(B), "%s: %d vertices instead of %d" % (msg, len(A), len(B)))
        for i, (a, b) in enumerate(zip(A, B)):
            for k in (0, 1):
                self.eq(a[k], b[k], "%s: vertex %d coordinate %d" % (msg, i, k), tol)

    def eqpolys(self, P, Q, msg="", tol=1e-6):
        P, Q = list(P), list(Q)
        self.check(len(P) == len(Q), "%s: %d polygons instead of %d" % (msg, len(P), len(Q)))
        for i, (p, q) in enumerate(zip(P, Q)):
            self.eqpts(p, q, "%s: polygon %d" % (msg, i), tol)

    def eqsets(self, P, Q, msg="", tol=1e-6, cyclic=False):
        """Equality of two lists of polygons up to the order of the polygons
        (cyclic: and up to the first vertex and orientation of each)."""
        P, Q = list(P), list(Q)
        self.check(len(P) == len(Q), "%s: %d polygons instead of %d" % (msg, len(P), len(Q)))
        self.check(sorted(len(p) for p in P) == sorted(len(q) for q in Q), "%s: vertex counts %r instead of %r" % (msg, sorted(len(p) for p in P), sorted(len(q) for q in Q)))
        for i, (p, q) in enumerate(self.pairing(P, Q, tol, cyclic)):
            self.eqpts(p, q, "%s: polygon %d" % (msg, i), tol)

    def pairing(self, P, Q, tol, cyclic):
        raise NotImplementedError

    @staticmethod
    def alignments(q, cyclic):
        q = list(q)
        if not cyclic:
            return [q]
        n = len(q)
        r = q[::-1]
        return [q[i:] + q[:i] for i in range(n)] + [r[i:] + r[:i] for i in range(n)]

    def _nearest(self, P, Q, val, cyclic):
        """Greedy pairing of the closest polygons with equal numbers of vertices."""
        rest = [[(w, [[val(v[0]), val(v[1])] for v in w]) for w in self.alignments(q, cyclic)] for q in Q]
        out = []
        for p in P:
            a = [[val(v[0]), val(v[1])] for v in p]
            best = None
            for j, ws in enumerate(rest):
                for w, b in ws:
                    if len(a) == len(b):
                        d = max(max(abs(u[0] - v[0]), abs(u[1] - v[1])) for u, v in zip(a, b)) if a else 0
                        if best is None or d < best[0]:
                            best = (d, j, w)
            out.append((p, best[2]))
            del rest[best[1]]
        return out

    def point(self, name, lo=-1000, hi=1000):
        return (self.real(name + "x", lo, hi), self.real(name + "y", lo, hi))

    def points(self, name, n, lo=-1000, hi=1000):
        return [self.point("%s%d" % (name, i), lo, hi) for i in range(n)]

    def exact_literals(self):
        """Decimal literals of the code are exact rationals (instead of floats) in the symbolic run."""
        if self.symbolic:
            self.e.exact_literals = True

    def nearly_const(self, v):
        """A number independent of the inputs (but for float rounding of constants) as a float, or None."""
        if not self.symbolic:
            return float(v)
        from .core import nearly_const
        return nearly_const(v)

    def number(self, v):
        """A constant that takes part in exact arithmetic in the symbolic run."""
        if self.symbolic:
            from .core import SymNum, ONE
            v = Fraction(v)
            return SymNum({ONE: v} if v else {}, False)
        return float(v)

    def complex(self, re, im):
        if self.symbolic:
            from .cplx import SymComplex
            return SymComplex(re, im)
        return complex(re, im)

    def name_large(self, limit):
        """Factors of products with more than `limit` terms are given names on this path (their definitions are axioms)."""
        if self.symbolic:
            self.e.name_limit = limit

    def assume_nonzero(self):
        """Denominators on this path are different from zero (an assumption, no branch)."""
        if self.symbolic:
            self.e.assume_nonzero = True

    def float_constants(self):
        """Irrational functions of constants (and pi) are taken as doubles on this path."""
        if self.symbolic:
            self.e.exact_trig = False

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def flag(self, name):
        return self.choice(name, (False, True))

    def raises(self, exc, f, msg):
        try:
            f()
        except exc:
            self.nchecks += 1
            return True
        self.check(False, msg)


    def pack(self, fmt, *a):
        raise NotImplementedError

    def real8(self, v):
        """The 8-byte real nearest below v (written independently of gdspy)."""
        if v == 0:
            return bytes(8)
        e = (math.frexp(abs(v))[1] + 3) // 4
        m = int(Fraction(abs(v)) * Fraction(16) ** (14 - e))
        return bytes([(128 if v < 0 else 0) + e + 64]) + m.to_bytes(7, "big")


class ConcCtx(CtxBase):
    """Concrete: inputs come from a solver model, gdspy is the unmodified package."""

    def __init__(self, gds, np, values, known=()):
        self.gds, self.np, self.values = gds, np, values
        getattr(getattr(gds, "clipper", None), "HOOKS", {}).clear()
        self.nchecks = 0
        self.tier = "quick"
        self.tmp = None

    @property
    def pi(self):
        return math.pi

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=-1000, hi=1000):
        return float(Fraction(self._get(name, _mid(lo, hi))))

    def int(self, name, lo, hi):
        return int(Fraction(self._get(name, lo)))

    def grid(self, name, lo, hi):
        return int(Fraction(self._get(name, lo)))

    def native(self, *names):
        pass

    def angle_deg(self, name, lo=-360, hi=360):
        return float(Fraction(self._get(name, 0)))

    def angle_rad(self, name, lo=-7, hi=7):
        return float(Fraction(self._get(name, 0)))

    def text(self, name, n, lo=32, hi=126):
        return "".join(chr(self.int("%s_%d" % (name, i), lo, hi)) for i in range(n))

    def bytes_(self, name, n):
        return bytes(self.int("%s_%d" % (name, i), 0, 255) for i in range(n))

    def assume(self, b):
        if not bool(b):
            raise AssumeFailed()

    def check(self, b, msg=""):
        self.nchecks += 1
        if not bool(b):
            raise CheckFailed(msg)

    def eq(self, a, b, msg="", tol=1e-6):
        self.nchecks += 1
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
            if a != b:
                raise CheckFailed("%s: %r instead of %r" % (msg, a, b))
            return
        if not abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            raise CheckFailed("%s: %r instead of %r" % (msg, a, b))

    def le(self, a, b, msg="", tol=1e-6):
        self.nchecks += 1
        if not a - b <= tol * max(1.0, abs(a), abs(b)):
            raise CheckFailed("%s: %r > %r" % (msg, a, b))

    def pairing(self, P, Q, tol, cyclic):
        return self._nearest(P, Q, float, cyclic)

    def cond(self, b):
        return bool(b)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def xor(self, a, b):
        return bool(a) != bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def max(self, *xs):
        return max(*xs)

    def min(self, *xs):
        return min(*xs)

    def round(self, x):
        return round(x)

    def docnum(self, s):
        """A number in a text document."""
        return float(s)

    def doctext(self, s):
        """Code points of a text in an XML document, entities resolved."""
        return [ord(c) for c in s or ""]

    def bfile(self, data=None):
        return io.BytesIO(data if data is not None else b"")

    def tfile(self):
        return io.StringIO()

    def tobytes(self, items):
        return bytes(items)

    def array(self, x):
        return self.np.array(x)

    def pack(self, fmt, *a):
        import struct
        return struct.pack(fmt, *a)

    def unpack(self, fmt, data):
        import struct
        return struct.unpack(fmt, data)

    def file(self, name, data):
        """A file on disk with the given contents -> its path."""
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="gdspy-verif-f-")
        p = os.path.join(self.tmp, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def filedata(self, p):
        with open(p, "rb") as f:
            return f.read()

    def cleanup(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def hashkeys(self, *ks):
        pass

    def engine(self):
        """A hash engine that keeps what it is fed."""
        class E:
            def __init__(s):
                s.d = b""

            def update(s, x):
                s.d += x

            def hexdigest(s):
                return s.d
        return E()


def _mid(lo, hi):
    if lo <= 0 <= hi:
        return 0
    return lo


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, engine, gds):
        from . import core, nshim, sbytes
        self.e, self.gds = engine, gds
        gds.clipper.HOOKS.clear()
        self.core, self.np, self.sb = core, nshim.SHIM, sbytes
        self.nchecks = 0
        self.batch = []
        self.tier = "quick"

    @property
    def pi(self):
        return self.e.pi_value()

    def _bounds(self, a, lo, hi):
        c = self.core
        self.e.bounds[a] = (Fraction(lo), Fraction(hi))
        import z3
        zl, zh = (z3.IntVal(int(lo)), z3.IntVal(int(hi))) if a.zi else (c.zval(Fraction(lo)), c.zval(Fraction(hi)))
        a.axioms.append((z3.And(a.z >= zl, a.z <= zh), frozenset([a])))

    def _input(self, name, a, get=None):
        from .explore import zfrac
        g = get or (lambda m, a=a: str(zfrac(m.eval(a.z, model_completion=True))))
        if name in self.e.inputs:
            raise RuntimeError("duplicate input " + name)
        self.e.inputs[name] = {"atoms": [a], "get": g}

    def real(self, name, lo=-1000, hi=1000):
        a = self.core.Atom(name, False)
        self._bounds(a, lo, hi)
        self._input(name, a)
        return self.core.SymNum({((a, 1),): Fraction(1)}, False)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        a = self.core.Atom(name, True)
        self._bounds(a, lo, hi)
        self._input(name, a)
        return self.core.SymNum({((a, 1),): Fraction(1)}, True)

    def grid(self, name, lo, hi):
        """An integer coordinate of a property that does not depend on the unit: for the solver a real number;
        in models all of these inputs are multiplied by their common denominator."""
        a = self.core.Atom(name, True, True)
        self._bounds(a, lo, hi)
        self._input(name, a)
        self.e.inputs[name]["grid"] = True
        self.e.scaled = True
        return self.core.SymNum({((a, 1),): Fraction(1)}, True)

    def native(self, *names):
        """Functions of the extension module: symbolic execution of their LLVM IR."""
        from . import llvm, loader
        self.gds.clipper.HOOKS.update(llvm.hooks(os.path.join(loader.REPO, "gdspy", "clipper.cpp"), names))

    def _angle(self, name, lo, hi, deg):
        from .explore import zfrac
        e = self.e
        a = self.core.Atom(name, False)
        self._bounds(a, lo, hi)
        n = self.core.SymNum({((a, 1),): Fraction(1)}, False)
        mono = tuple(sorted([(a, 1), (e.PIatom, 1)], key=lambda t: t[0].name)) if deg else ((a, 1),)
        e.angle_term(mono, Fraction(1, 180) if deg else Fraction(1))
        ats = [a]

        def get(m):
            v = zfrac(m.eval(a.z, model_completion=True))
            den, c, s = e.angles[mono][0]
            cv, sv = (float(zfrac(m.eval(self.core.zpoly(t.p), model_completion=True))) for t in (c, s))
            b = math.atan2(sv, cv)
            base = float(v) * (math.pi if deg else 1.0) / den
            b += 2 * math.pi * round((base - b) / (2 * math.pi))
            r = b * den / (math.pi if deg else 1.0)
            if deg and abs(r - round(r / 15) * 15) < 1e-9:
                r = float(round(r / 15) * 15)
            return str(Fraction(r))
        den, c, s = e.angles[mono][0]
        ats += [t[0][0] for t in c.p if t] + [t[0][0] for t in s.p if t]
        e.inputs[name] = {"atoms": ats, "get": get}
        return n

    def angle_deg(self, name, lo=-360, hi=360):
        return self._angle(name, lo, hi, True)

    def angle_rad(self, name, lo=-7, hi=7):
        return self._angle(name, lo, hi, False)

    def text(self, name, n, lo=32, hi=126):
        return self.sb.SymStr.of([self.int("%s_%d" % (name, i), lo, hi) for i in range(n)])

    def bytes_(self, name, n):
        return self.sb.SymBytes([self.int("%s_%d" % (name, i), 0, 255) for i in range(n)])

    def assume(self, b):
        if isinstance(b, self.core.SymBool):
            r, _ = self.e.check(b.z, b.atoms)
            import z3
            if r == z3.unsat:
                raise self.core.PathInfeasible()
            self.e.add(b)
        elif not b:
            raise self.core.PathInfeasible()

    def _violated(self, msg, m):
        raise Violation(msg, m)

    def check(self, b, msg=""):
        import z3
        self.nchecks += 1
        self.e.stats.asserts += 1
        if hasattr(b, "reshape") and getattr(b, "size", 0) == 1:
            b = b.reshape(-1)[0]
        if not isinstance(b, self.core.SymBool):
            if not b:
                self._violated(msg, None)
            self.e.stats.identities += 1
            return
        nb = ~b
        r, _ = self.e.check(nb.z, nb.atoms)
        if r == z3.unsat:
            return
        self._violated(msg, nb if r == z3.sat else ("unknown", nb))

    def eq(self, a, b, msg="", tol=1e-6):
        import z3
        from fractions import Fraction as F
        if isinstance(a, (str, bytes, self.sb.SymBytes)) or isinstance(b, (str, bytes, self.sb.SymBytes)) or a is None or b is None:
            if a is None or b is None:
                return self.check(a is b, msg)
            return self.check(a == b, msg)
        self.nchecks += 1
        self.e.stats.asserts += 1
        d = a - b
        if not isinstance(d, self.core.SymNum):
            if d != 0 and (isinstance(a, self.core.SymNum) or not abs(d) <= tol * max(1.0, abs(a), abs(b))):
                self._violated(msg, None)
            self._identity(a, b, tol)
            return
        c = d.const()
        if c is not None:
            if abs(c) > F(tol):
                self._violated(msg, None)
            self._identity(a, b, tol)
            return
        ne = d != 0
        if ne is False:
            self._identity(a, b, tol)
            return
        if ne is not True:
            r, _ = self.e.check(ne.z, ne.atoms, quick=True)
            if r == z3.unsat:
                return
        unk = False
        for t in ((F(1, 2), F(1, 1000), F(tol)) if not d.isint else (F(1, 2),)):
            b = self.core.sor(d > t, d < -t)
            if b is True:
                self._violated(msg, None)
            if b is False:
                continue
            r, _ = self.e.check(b.z, b.atoms)
            if r == z3.sat:
                self._violated(msg, b)
            unk = r == z3.unknown
        if unk:
            self._violated(msg, ("unknown", b))

    def pairing(self, P, Q, tol, cyclic):
        def same(p, q):
            for u, v in zip(p, q):
                for k in (0, 1):
                    d = u[k] - v[k]
                    if isinstance(d, self.core.SymNum):
                        d = d.const()
                        if d is None:
                            return False
                    if abs(d) > tol:
                        return False
            return True
        rest, out, left = list(Q), [], []
        for p in P:
            hit = next(((j, w) for j, q in enumerate(rest) if len(p) == len(q) for w in self.alignments(q, cyclic) if same(p, w)), None)
            if hit:
                out.append((p, hit[1]))
                del rest[hit[0]]
            else:
                left.append(p)
        if left:
            import z3
            from .explore import zfrac
            vals = [t for p in left + rest for v in p for t in (v[0], v[1]) if isinstance(t, self.core.SymNum)]
            ats = set()
            for t in vals:
                ats |= set(self.core.zpoly_atoms(t.p))
            r, m = self.e.check(z3.BoolVal(True), frozenset(ats), full=True)

            def val(t):
                if not isinstance(t, self.core.SymNum):
                    return float(t)
                return float(zfrac(m.eval(self.core.zpoly(t.p), model_completion=True)))
            out += self._nearest(left, rest, val, cyclic) if r == z3.sat else list(zip(left, rest))
        return out

    def _identity(self, a, b, tol=1e-6):
        """Equal canonical forms: still handed to the solver, batched per path."""
        self.e.stats.identities += 1
        if len(self.batch) < 200:
            pa, pb = self.core.topoly(a), self.core.topoly(b)
            if pa and pb and len(pa) < 60:
                self.batch.append((self.core.zpoly(pa), self.core.zpoly(pb), Fraction(max(2 * tol, 1e-5))))

    def flush(self):
        """Solver confirmation of the assertions settled by canonical form."""
        import z3
        if self.batch:
            t = [z3.Or(a - b > self.core.zval(e), b - a > self.core.zval(e)) for a, b, e in self.batch]
            self.batch = []
            r, _ = self.e.check(z3.Or(*t) if len(t) > 1 else t[0], frozenset(), quick=True)
            if r == z3.sat:
                raise RuntimeError("solver rejects an assertion settled by canonical form")

    def le(self, a, b, msg="", tol=1e-6):
        d = a - b
        if isinstance(d, self.core.SymNum):
            q = self.e.relax(d.p)
            if q is not None:
                # sound over-approximation: rounded values as bounded errors
                import z3
                x = self.core.SymNum(q) > Fraction(tol)
                r = z3.unsat
                if isinstance(x, self.core.SymBool):
                    r, _ = self.e.check(x.z, x.atoms, quick=True)
                elif x:
                    r = z3.sat
                if r == z3.unsat:
                    self.nchecks += 1
                    self.e.stats.asserts += 1
                    return
            for t in (Fraction(1, 1000), Fraction(tol)):
                x = d <= t
                if t == Fraction(tol):
                    return self.check(x, msg)
                # prefer a robust counterexample
                if isinstance(x, self.core.SymBool):
                    import z3
                    nx = ~x
                    r, _ = self.e.check(nx.z, nx.atoms, quick=True)
                    if r == z3.sat:
                        self._violated(msg, nx)
        else:
            self.check(d <= tol * max(1.0, abs(a), abs(b)), msg)

    def cond(self, b):
        return bool(b)

    def and_(self, *xs):
        return self.core.sand(*xs)

    def or_(self, *xs):
        return self.core.sor(*xs)

    def not_(self, x):
        return self.core.snot(x)

    def xor(self, a, b):
        S = self.core.SymBool
        if isinstance(a, S):
            return a ^ b
        return b ^ a if isinstance(b, S) else bool(a) != bool(b)

    def iff(self, a, b):
        return self.not_(self.xor(a, b))

    def cos(self, x):
        return self.core.s_cos(x) if isinstance(x, self.core.SymNum) else math.cos(x)

    def sin(self, x):
        return self.core.s_sin(x) if isinstance(x, self.core.SymNum) else math.sin(x)

    def sqrt(self, x):
        return self.core.s_sqrt(x)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.core.s_max2(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.core.s_min2(r, x)
        return r

    def round(self, x):
        return self.core.s_round(x)

    def docnum(self, s):
        m = self.sb._TOK.fullmatch(s)
        if not m:
            return float(s)
        v, spec = self.e.tokens[int(m.group(1))]
        if isinstance(spec, tuple) and spec[0] == "pos" and spec[1] is not None:
            k = 10 ** spec[1]
            return self.core.s_round(v * k) / k
        return v

    def doctext(self, s):
        out = []
        pos = 0
        s = s or ""
        for m in self.sb._TOK.finditer(s):
            out += [ord(c) for c in s[pos:m.start()]]
            c = list(self.sb.codes(m.group(0)))
            i = 0
            while i < len(c):
                if isinstance(c[i], int) and c[i] == 38:
                    e = c.index(59, i) if 59 in c[i:] else i
                    name = "".join(chr(x) for x in c[i + 1:e] if isinstance(x, int))
                    self.check(name in ("amp", "lt", "gt", "quot", "apos"), "entity")
                    out.append({"amp": 38, "lt": 60, "gt": 62, "quot": 34, "apos": 39}[name])
                    i = e + 1
                    continue
                self.check(self.and_(c[i] != 38, c[i] != 60), "character that must be escaped")
                out.append(c[i])
                i += 1
            pos = m.end()
        return out + [ord(c) for c in s[pos:]]

    def bfile(self, data=None):
        return self.sb.SymFile(data if data is not None else b"")

    def tfile(self):
        return self.sb.SymTextFile()

    def tobytes(self, items):
        return self.sb.SymBytes(list(items))

    def array(self, x):
        return self.np.array(x)

    def pack(self, fmt, *a):
        return self.sb.StructShim().pack(fmt, *a)

    def unpack(self, fmt, data):
        return self.sb.StructShim().unpack(fmt, data)

    def real8(self, v):
        if isinstance(v, self.core.SymNum):
            return self.sb.SymBytes.from_real(self.core.toreal(v))
        return CtxBase.real8(self, v)

    def file(self, name, data):
        from . import loader
        loader.VFS.files[name] = self.sb.SymFile(data)
        return name

    def filedata(self, p):
        from . import loader
        return loader.VFS.files[p].getvalue()

    def hashkeys(self, *ks):
        """Concrete integers and texts that symbolic ones may be compared with through dictionary keys."""
        self.e.hashconsts = tuple(ks)

    def engine(self):
        from . import loader

        class E(loader.Recorder):
            def hexdigest(s):
                return s.data()
        return E()


class Violation(BaseException):
    def __init__(self, msg, cond):
        self.msg, self.cond = msg, cond
