"""Path exploration engine: branches, solver queries, inputs, models."""
from __future__ import annotations
import math
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core
from .core import (Atom, SymNum, SymBool, ONE, zpoly, zpoly_atoms, _pkey, _padd, _pmul, pcmp, mk, sand, sor, topoly,
                   Unsupported, PathInfeasible, PathDone, LimitReached, Hang, SymAbort)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.interval = 0
        self.branches = 0
        self.asserts = 0
        self.identities = 0

    def dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=4000, path_s=120, seed=1):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.path_s = path_s
        self.seed = seed
        self.worklist = [[]]
        self.notes = {}
        self.ideal_reals = True
        self.hashconsts = (0,)
        self.reset_path([])

    # ------------------------------------------------------------ per path
    def reset_path(self, prefix):
        self.prefix = prefix
        self.hashconsts = (0,)
        self.trail = []
        self.constraints = []   # (z3, frozenset atoms)
        self.inputs = {}        # name -> (kind, payload)
        self.defs = {}
        self.rounded = {}
        self.relaxed = {}
        self.invs = {}
        self.cmpcache = {}
        self.cscache = {}
        self.angcache = {}
        self.angles = {}        # atom-monomial key -> list of (den, c, s)
        self.nfresh = 0
        self.tokens = []
        self.bounds = {}
        self.signcache = {}
        self.inexact = False
        self.exact_trig = True
        self.name_limit = None
        self.assume_nonzero = False
        self.exact_literals = False
        self.approx = {}
        self.qcache = {}
        self.decided = {}       # id of a condition -> (value, condition kept alive)
        self.signs = {}         # sign of polynomials, as far as branches of this path have decided it
        self.scaled = False
        self._mkpi()

    _PI = None

    def _mkpi(self):
        if Engine._PI is not None:
            self.PIatom, self.PI = Engine._PI
            self.bounds[self.PIatom] = (Fraction("3.14159265358979"), Fraction("3.14159265358980"))
            self.approx[self.PIatom] = lambda env: math.pi
            return
        a = Atom("pi", False)
        self.PIatom = a
        self.bounds[a] = (Fraction("3.14159265358979"), Fraction("3.14159265358980"))
        n = SymNum({((a, 1),): Fraction(1)})
        lo, hi = self.bounds[a]
        a.axioms.append((z3.And(a.z > core.zval(lo), a.z < core.zval(hi)), frozenset([a])))
        self.PI = n
        Engine._PI = (a, n)
        self.approx[a] = lambda env: math.pi

    def pi_value(self):
        return self.PI if self.exact_trig else math.pi

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def note_approx(self, atom, f):
        self.approx[atom] = f

    # ------------------------------------------------------------ atoms
    def fresh_atom(self, kind, isint):
        self.nfresh += 1
        return Atom("%s!%d" % (kind, self.nfresh), isint)

    def axiom(self, atom, b):
        if b is True:
            return
        if b is False:
            raise Unsupported("contradictory axiom")
        atom.axioms.append((b.z, frozenset(b.atoms)))

    def inv_atom(self, p):
        key = _pkey(p)
        hit = self.invs.get(key)
        if hit is None:
            a = self.fresh_atom("inv", False)
            self.invs[key] = hit = a
            a.inv_of = p
            z = zpoly(p)
            ats = zpoly_atoms(p)
            a.axioms.append((z * a.z == 1, frozenset(ats | {a})))
            self.approx[a] = lambda env, p=p: 1.0 / self.evalf(p, env)
            s = self.interval(p)
            if s is not None and s[0] is not None and s[0] > 0:
                self.bounds[a] = ((1 / s[1]) if s[1] else Fraction(0), 1 / s[0])
            elif s is not None and s[1] is not None and s[1] < 0:
                self.bounds[a] = (1 / s[1], (1 / s[0]) if s[0] else Fraction(0))
        return hit

    def solve_linear(self, A, b):
        """Fresh reals x with A x = b (a regular system is assumed); equations with constant coefficients hold by substitution."""
        self.note("linear system solved by its equations (assumed regular)")
        n = len(b)
        const = lambda v: core._num(v) if not isinstance(v, SymNum) else v.const()
        rows, rest = [], []
        for row, r in zip(A, b):
            c = [const(v) for v in row]
            if all(v is not None for v in c):
                rows.append((c, r))
            else:
                rest.append((row, r))
        X = [None] * n
        solved = []  # (pivot, coefficients of the others, right side)
        for c, r in rows:
            c = list(c)
            for p, q, t in solved:
                k = c[p]
                if k:
                    c = [u - k * v for u, v in zip(c, q)]
                    r = r - t * k
            p = next((i for i in range(n) if c[i]), None)
            if p is None:
                raise Unsupported("singular linear system")
            k = c[p]
            c = [v / k for v in c]
            r = r / k
            solved = [(p2, [u - q[p] * v for u, v in zip(q, c)], t - r * q[p]) if q[p] else (p2, q, t) for p2, q, t in solved]
            solved.append((p, c, r))
        piv = {p for p, _, _ in solved}
        free = []
        for i in range(n):
            if i not in piv:
                a = self.fresh_atom("sol", False)
                free.append(a)
                X[i] = SymNum({((a, 1),): Fraction(1)}, False)
        for p, q, t in solved:
            v = t
            for i in range(n):
                if i not in piv and q[i]:
                    v = v - X[i] * q[i]
            X[p] = v
        for row, r in rest:
            t = 0
            for c, x in zip(row, X):
                t = t + c * x
            e = t == r
            for a in free:
                self.axiom(a, e)
        return X

    def named(self, p):
        """A name for a polynomial: the same one for all its multiples."""
        lead = min(p.items(), key=lambda t: tuple((a.name, e) for a, e in t[0]))[1]
        q = {m: c / lead for m, c in p.items()}
        key = ("name", _pkey(q))
        a = self.defs.get(key)
        if a is None:
            a = self.fresh_atom("name", False)
            self.defs[key] = a
            a.axioms.append((a.z == zpoly(q), frozenset(zpoly_atoms(q) | {a})))
            iv = self.interval(q)
            if iv:
                self.bounds[a] = tuple(iv)
            self.approx[a] = lambda env, q=q: self.evalf(q, env)
        return {((a, 1),): lead}

    def def_atom(self, kind, p, isint):
        key = (kind, _pkey(p))
        hit = self.defs.get(key)
        if hit is not None:
            return hit
        a = self.fresh_atom(kind, isint)
        self.defs[key] = a
        ats = frozenset(zpoly_atoms(p) | {a})
        iv = self.interval(p)
        if kind in ("abs", "pos", "sqrt") or not isint:
            pass
        if isint and kind in ("abs", "pos") and p and core.allint(p) and not core.allzi(p):
            a.zi = False
            a.z = z3.Real(a.name)
        if a.zi and core.allzi(p) and all(c.denominator == 1 for c in p.values()):
            x = core.zint(p)
            az = a.z
        else:
            x = zpoly(p)
            az = z3.ToReal(a.z) if a.zi else a.z
        f = None
        if kind == "abs":
            a.axioms.append((az == z3.If(x >= 0, x, -x), ats))
            f = abs
            a.rule = _pmul(p, p)
            if iv:
                m = [abs(t) for t in iv if t is not None]
                self.bounds[a] = (Fraction(0), max(m) if len(m) == 2 else None)
            else:
                self.bounds[a] = (Fraction(0), None)
        elif kind == "pos":
            a.axioms.append((az == z3.If(x >= 0, x, 0), ats))
            f = lambda v: max(v, 0)
            self.bounds[a] = (Fraction(0), max(iv[1], Fraction(0)) if iv and iv[1] is not None else None)
        elif kind == "floor":
            a.axioms.append((z3.And(az <= x, x < az + 1), ats))
            f = math.floor
            if iv:
                self.bounds[a] = tuple(None if t is None else Fraction(math.floor(t)) for t in iv)
        elif kind == "trunc":
            a.axioms.append((z3.If(x >= 0, z3.And(az <= x, x < az + 1), z3.And(az >= x, x > az - 1)), ats))
            f = math.trunc
            if iv:
                self.bounds[a] = tuple(None if t is None else Fraction(math.trunc(t)) for t in iv)
        elif kind == "round":
            h = z3.RealVal("1/2")
            tie = z3.Or(x - az == h, az - x == h)
            a.axioms.append((z3.And(x - az <= h, az - x <= h, z3.Implies(tie, a.z % 2 == 0)), ats))
            f = round
            if iv:
                self.bounds[a] = tuple(None if t is None else Fraction(round(t)) for t in iv)
        elif kind == "sqrt":
            a.axioms.append((z3.And(az >= 0, az * az == x), ats))
            f = lambda v: math.sqrt(max(v, 0))
            a.rule = dict(p)
            up = None
            if iv and iv[1] is not None:
                up = Fraction(math.sqrt(float(iv[1])) + 1e-6) + 1
            lo = Fraction(0)
            if iv and iv[0] is not None and iv[0] > 0:
                lo = max(Fraction(0), Fraction(math.sqrt(float(iv[0])) * (1 - 1e-9)))
            self.bounds[a] = (lo, up)
        else:
            raise Unsupported(kind)
        self.approx[a] = lambda env, p=p, f=f: f(self.evalf(p, env))
        if kind in ("floor", "round"):
            self.rounded[a] = (kind, p)
        return a

    def relax(self, p):
        """p with every rounded value y replaced by x + e, e a bounded real (None when nothing changes)."""
        todo = {a for m in p for a, e in m if a in self.rounded and e > 0}
        if not todo:
            return None
        for _ in range(4):
            q = {}
            for m, c in p.items():
                t = {ONE: c}
                for a, e in m:
                    if a in self.rounded and e > 0:
                        kind, x = self.rounded[a]
                        d = self.relaxed.get(a)
                        if d is None:
                            d = self.relaxed[a] = self.fresh_atom("err", False)
                            lo, hi = (Fraction(-1, 2), Fraction(1, 2)) if kind == "round" else (Fraction(-1), Fraction(0))
                            self.bounds[d] = (lo, hi)
                            d.axioms.append((z3.And(d.z >= core.zval(lo), d.z <= core.zval(hi)), frozenset([d])))
                            self.approx[d] = lambda env, a=a, x=x: self.evalf({((a, 1),): Fraction(1)}, env) - self.evalf(x, env)
                        f = _padd(x, {((d, 1),): Fraction(1)})
                        for _ in range(e):
                            t = _pmul(t, f)
                    else:
                        t = _pmul(t, {((a, e),): Fraction(1)})
                q = _padd(q, t)
            p = q
            if not any(a in self.rounded and e > 0 for m in p for a, e in m):
                return p
        return None

    # angles: monomial -> base (den) with cos/sin
    def register_angle(self, atom, c, s):
        """atom (radians) has cosine c and sine s."""
        self.angles[((atom, 1),)] = [(1, core.SymNum(topoly(c)), core.SymNum(topoly(s)))]

    def angle_term(self, m, v):
        """cos, sin of v*m."""
        if v.denominator == 1 and v % 2 == 0 and any(a is self.PIatom and e == 1 for a, e in m) and all(a is self.PIatom or a.isint and e > 0 for a, e in m):
            return 1, 0
        if m == ((self.PIatom, 1),):
            r = v % 2
            if r.denominator in (1, 2):
                c, s = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}[r]
                return c, s
            if 4 % r.denominator == 0:
                h = core.s_sqrt(Fraction(1, 2))
                c = h if r in (Fraction(1, 4), Fraction(7, 4)) else -h
                s = h if r in (Fraction(1, 4), Fraction(3, 4)) else -h
                return c, s
            if 6 % r.denominator == 0:
                h = core.s_sqrt(Fraction(3, 4))
                half = Fraction(1, 2)
                t = {1: (h, half), 2: (half, h), 4: (-half, h), 5: (-h, half), 7: (-h, -half), 8: (-half, -h), 10: (half, -h), 11: (h, -half)}
                return t[int(r * 6)]
            v = r
        lst = self.angles.setdefault(m, [])
        for den, c, s in lst:
            k = v * den
            if k.denominator == 1:
                return self._multiple(c, s, int(k))
        # new, finer base
        den = v.denominator
        for d0, _, _ in lst:
            den = den * d0 // math.gcd(den, d0)
        if den > 400:
            raise Unsupported("angle with a non-simple coefficient")
        ca, sa = self.fresh_atom("cos", False), self.fresh_atom("sin", False)
        for t in (ca, sa):
            self.bounds[t] = (Fraction(-1), Fraction(1))
        ax = z3.And(ca.z * ca.z + sa.z * sa.z == 1, ca.z <= 1, ca.z >= -1, sa.z <= 1, sa.z >= -1)
        both = frozenset([ca, sa])
        ca.axioms.append((ax, both))
        sa.axioms.append((ax, both))
        sa.rule = {ONE: Fraction(1), ((ca, 2),): Fraction(-1)}
        c, s = SymNum({((ca, 1),): Fraction(1)}), SymNum({((sa, 1),): Fraction(1)})
        base = {m: Fraction(1, den)}
        self.approx[ca] = lambda env: math.cos(self.evalf(base, env))
        self.approx[sa] = lambda env: math.sin(self.evalf(base, env))
        if len(m) == 1 and m[0][0] is self.PIatom:
            x = math.pi / den
            e = Fraction(1, 10 ** 12)
            for t, y in ((ca, math.cos(x)), (sa, math.sin(x))):
                y = Fraction(y)
                self.bounds[t] = (y - e, y + e)
                t.axioms.append((z3.And(t.z >= core.zval(y - e), t.z <= core.zval(y + e)), frozenset([t])))
        else:
            self._quadrants(SymNum(base), c, s, ca, sa)
        for d0, c0, s0 in lst:
            cm, sm = self._multiple(c, s, den // d0)
            for t in (ca, sa):
                self.axiom(t, sand(cm == c0, sm == s0))
        lst.insert(0, (den, c, s))
        k = v * den
        return self._multiple(c, s, int(k))

    def vanishing_angle(self, d):
        """A sum of angles compared with zero: if it vanishes its cosine is 1 and its sine 0."""
        for f in ({ONE: Fraction(1)}, {((self.PIatom, 1),): Fraction(1, 180)}):
            p = _pmul(d, f)
            if all(m in self.angles for m in p):
                key = ("zero", core._pkey(p))
                if key in self.defs:
                    return
                self.defs[key] = True
                x = core.SymNum(p)
                c, s = core._cossin(x)
                b = sor(core.pcmp(p, "!="), sand(c == 1, s == 0))
                if isinstance(b, core.SymBool):
                    for a in b.atoms:
                        self.axiom(a, b)
                return

    def _quadrants(self, th, c, s, ca, sa):
        """Tie the numeric value of an angle (radians) to the quadrant of (c, s) in (-2pi, 2pi)."""
        P = self.PI
        for q in range(-4, 4):
            lo, hi = P * Fraction(q, 2), P * Fraction(q + 1, 2)
            sc = 1 if q % 4 in (0, 3) else -1
            ss = 1 if q % 4 in (0, 1) else -1
            inside = sand(th > lo, th < hi)
            imp = sor(core.snot(inside), sand(c * sc > 0, s * ss > 0))
            cq, sq = core._SPECIAL[q % 4]
            imp2 = sor(core.snot(th == lo), sand(c == cq, s == sq))
            for t in (ca, sa):
                for b in (imp, imp2):
                    if b is not True:
                        self.axiom(t, b)

    def _multiple(self, c, s, k):
        if k < 0:
            a, b = self._multiple(c, s, -k)
            return a, -b
        rc, rs = SymNum({ONE: Fraction(1)}), SymNum({})
        bc, bs = c, s
        while k:
            if k & 1:
                rc, rs = core.SymNum(topoly(rc * bc - rs * bs)), core.SymNum(topoly(rs * bc + rc * bs))
            k >>= 1
            if k:
                bc, bs = core.SymNum(topoly(bc * bc - bs * bs)), core.SymNum(topoly(bc * bs * 2))
        return rc, rs

    def _span(self, p):
        iv = self.interval(p)
        if iv is None or iv[0] is None or iv[1] is None or iv[0] <= 0:
            raise Unsupported("log2/frexp of a value without positive bounds")
        lo = math.frexp(float(iv[0]))[1] - 2
        hi = math.frexp(float(iv[1]))[1] + 2
        if hi - lo > 80:
            raise Unsupported("log2/frexp of a value with too wide a range")
        return lo, hi

    def log2(self, x):
        """A double within rounding of log2(x): exact at powers of two, monotone between them."""
        lo, hi = self._span(x.p)
        key = ("log2", _pkey(x.p))
        if key in self.defs:
            return SymNum({((self.defs[key], 1),): Fraction(1)})
        a = self.fresh_atom("log2", False)
        self.defs[key] = a
        n = SymNum({((a, 1),): Fraction(1)})
        for j in range(lo, hi + 1):
            tl, th = log2_plateau(j)
            for b in (sor(x >= tl, n < j), sor(x <= th, n > j), sor(x < tl, x > th, n == j)):
                if b is not True:
                    self.axiom(a, b)
        self.bounds[a] = (Fraction(lo), Fraction(hi))
        self.approx[a] = lambda env: math.log2(self.evalf(x.p, env))
        return n

    def frexp(self, x):
        """(m, e) with x == m * 2**e and 1/2 <= |m| < 1."""
        if bool(x == 0):
            return SymNum({}), 0
        if bool(x < 0):
            m, e = self.frexp(-x)
            return -m, e
        lo, hi = self._span(x.p)
        for e in range(lo, hi + 1):
            if bool(x < Fraction(2) ** e):
                return x * (Fraction(1) / Fraction(2) ** e), e
        raise Unsupported("frexp")

    # ------------------------------------------------------------ intervals
    def interval(self, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            ml = mh = Fraction(1)
            for a, e in m:
                b = self.bounds.get(a)
                if b is None or b[0] is None or b[1] is None:
                    if b is not None and e > 0 and b[0] is not None and b[0] >= 0:
                        al, ah = b[0], None
                    else:
                        al = ah = None
                else:
                    al, ah = b
                if al is None and ah is None:
                    if e % 2 == 0:
                        al, ah = Fraction(0), None
                        if ml is None or ml < 0:
                            ml = mh = None
                            break
                        # [ml,mh]*[0,inf)
                        ml, mh = (Fraction(0), None)
                        continue
                    ml = mh = None
                    break
                if e < 0:
                    if al is not None and al > 0:
                        al, ah = (1 / ah if ah is not None else Fraction(0)), 1 / al
                    elif ah is not None and ah < 0:
                        al, ah = 1 / ah, 1 / al
                    else:
                        ml = mh = None
                        break
                    n = -e
                else:
                    n = e
                for _ in range(n // 2 if n % 2 == 0 else 0):
                    pass
                # power
                if ah is None:
                    pl, ph = al ** n, None
                else:
                    v = (al ** n, ah ** n)
                    pl, ph = min(v), max(v)
                    if n % 2 == 0 and al < 0 < ah:
                        pl = Fraction(0)
                if mh is None:
                    if ml is not None and ml >= 0 and pl >= 0:
                        ml, mh = ml * pl, None
                        continue
                    ml = mh = None
                    break
                if ph is None:
                    if ml >= 0 and pl >= 0:
                        ml, mh = ml * pl, None
                        continue
                    ml = mh = None
                    break
                w = (ml * pl, ml * ph, mh * pl, mh * ph)
                ml, mh = min(w), max(w)
            if ml is None and mh is None:
                return None
            if c < 0:
                ml, mh = (None if mh is None else mh * c), (None if ml is None else ml * c)
            else:
                ml, mh = (None if ml is None else ml * c), (None if mh is None else mh * c)
            lo = None if lo is None or ml is None else lo + ml
            hi = None if hi is None or mh is None else hi + mh
        return lo, hi

    def quick(self, d, op):
        iv = self.interval(d)
        if iv is None:
            return None
        lo, hi = iv
        r = None
        if op in ("<", ">="):
            if hi is not None and hi < 0:
                r = True
            elif lo is not None and lo >= 0:
                r = False
            if op == ">=" and r is not None:
                r = not r
        elif op in (">", "<="):
            if lo is not None and lo > 0:
                r = True
            elif hi is not None and hi <= 0:
                r = False
            if op == "<=" and r is not None:
                r = not r
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            if op == "!=" and r is not None:
                r = not r
        if r is not None:
            self.stats.interval += 1
        return r

    def sign_known(self, p):
        iv = self.interval(p)
        if iv is not None:
            if iv[0] is not None and iv[0] >= 0:
                return 1
            if iv[1] is not None and iv[1] <= 0:
                return -1
        key = (_pkey(p), len(self.constraints))
        hit = self.signcache.get(key, 0)
        if hit != 0:
            return hit
        r = None
        b = pcmp(p, "<")
        if b is False or (isinstance(b, SymBool) and self.check(b.z, b.atoms, quick=True)[0] == z3.unsat):
            r = 1
        else:
            b = pcmp(p, ">")
            if b is False or (isinstance(b, SymBool) and self.check(b.z, b.atoms, quick=True)[0] == z3.unsat):
                r = -1
        self.signcache[key] = r
        return r

    # ------------------------------------------------------------ solver
    def closure(self, atoms):
        S = set(atoms)
        out = []
        seenax = set()
        pend = list(S)
        used = [False] * len(self.constraints)
        while True:
            while pend:
                a = pend.pop()
                for z, ats in a.axioms:
                    if z.get_id() in seenax:
                        continue
                    seenax.add(z.get_id())
                    out.append(z)
                    for b in ats:
                        if b not in S:
                            S.add(b)
                            pend.append(b)
            for i, (z, ats) in enumerate(self.constraints):
                if not used[i] and not S.isdisjoint(ats):
                    used[i] = True
                    out.append(z)
                    for b in ats:
                        if b not in S:
                            S.add(b)
                            pend.append(b)
            if not pend:
                break
        return out, S

    def check(self, z, atoms, full=False, quick=False, extra=()):
        """Satisfiability of path and axioms and z. -> (result, model)"""
        if full:
            atoms = set(atoms)
            for _, ats in self.constraints:
                atoms |= ats
            for k, pl in self.inputs.items():
                atoms |= set(pl["atoms"])
        cons, S = self.closure(atoms)
        self.stats.queries += 1
        t = time.time()
        to = 1500 if quick else self.timeout_ms
        r, m = self._solve(cons + [z] + list(extra), to, quick)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def _solve(self, fs, to, quick):
        s = z3.Solver()
        s.set("timeout", to if quick else min(to, 5000))
        s.add(*fs)
        r = s.check()
        if r == z3.unknown and not quick:
            for mkr in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.SolverFor("QF_NIRA"),
                        lambda: z3.Then("simplify", "solve-eqs", "smt").solver()):
                try:
                    s = mkr()
                    s.set("timeout", to)
                    s.add(*fs)
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    break
        return r, (s.model() if r == z3.sat else None)

    # ------------------------------------------------------------ branching
    def add(self, b):
        if b is True:
            return
        if b is False:
            raise PathInfeasible()
        self.constraints.append((b.z, frozenset(b.atoms)))
        if b.src is not None:
            self.signs[b.src[0]] = self.signs.get(b.src[0], 7) & b.src[1]

    def branch(self, b):
        """Truth of b on this path; a condition decided before keeps its value."""
        k = b.z.get_id()
        hit = self.decided.get(k)
        if hit is not None:
            return hit[0]
        r = self._branch(b)
        self.decided[k] = (r, b.z)
        if b.src is not None:
            pk, s = b.src
            self.signs[pk] = self.signs.get(pk, 7) & (s if r else 7 - s)
        return r

    def _branch(self, b):
        self.stats.branches += 1
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            if d[0] != "b":
                raise RuntimeError("non-deterministic replay of a path")
            if not d[2]:
                self.add(b if d[1] else ~b)
            return d[1]
        if len(self.trail) > 4000:
            raise LimitReached("more than 4000 decisions on a path")
        r1, _ = self.check(b.z, b.atoms)
        if r1 == z3.unsat:
            self.trail.append(("b", False, True))
            return False
        nb = ~b
        r2, _ = self.check(nb.z, nb.atoms)
        if r2 == z3.unsat:
            self.trail.append(("b", True, True))
            return True
        self.worklist.append(self.trail + [("b", False, False)])
        self.trail.append(("b", True, False))
        self.add(b)
        return True

    def _record(self, kind, f):
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            if d[0] != kind:
                raise RuntimeError("non-deterministic replay of a path")
            return d[1]
        v = f()
        self.trail.append((kind, v, True))
        return v

    def choose_int(self, x, limit=400):
        for _ in range(limit):
            v = self._record("v", lambda: self._model_value(x))
            if bool(x == v):
                return v
        raise Unsupported("more than %d values for an integer" % limit)

    def _model_value(self, x):
        ats = zpoly_atoms(x.p)
        z = core.zint(x.p) if core.allzi(x.p) else zpoly(x.p)
        r, m = self.check(z3.BoolVal(True), ats)
        if r != z3.sat:
            raise Unsupported("no model for an integer")
        v = m.eval(z, model_completion=True)
        f = zfrac(v)
        l = 1
        if core.allzi(x.p):
            for c in x.p.values():
                l = l * c.denominator // math.gcd(l, c.denominator)
        return int(f / l)

    def concretize(self, x):
        """A concrete float for a symbolic real: the path is then no longer exhaustive."""
        self.inexact = True
        self.note("concretised a symbolic value to a float")

        def pick():
            r, m = self.check(z3.BoolVal(True), zpoly_atoms(x.p))
            if r != z3.sat:
                raise Unsupported("no model to concretise")
            return float(zfrac(m.eval(zpoly(x.p), model_completion=True)))
        v = self._record("c", pick)
        b = x == Fraction(v)
        if isinstance(b, SymBool):
            r, _ = self.check(b.z, b.atoms)
            if r != z3.sat:
                raise Unsupported("concretised value is not exact")
        self.add(b)
        return v

    def symhash(self, x):
        for k in self.hashconsts:
            if not isinstance(k, str) and bool(x == k):
                return hash(k)
        return 0x5EED

    def strhash(self, x):
        """Symbolic texts used as keys: equal to a declared text, or all in one bucket."""
        for k in self.hashconsts:
            if isinstance(k, str) and len(k) == len(x) and bool(x == k):
                return hash(k)
        return 0x5EED

    def token(self, x, spec):
        self.tokens.append((x, spec))
        return "\ue000%d\ue001" % (len(self.tokens) - 1)

    # ------------------------------------------------------------ evaluation
    def evalf(self, p, env):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                if a in env:
                    x = env[a]
                else:
                    x = env[a] = self.approx[a](env)
                v *= x ** e
            t += v
        return t

    # ------------------------------------------------------------ model
    def model_inputs(self, m):
        out = {}
        for name, pl in self.inputs.items():
            out[name] = pl["get"](m)
        if self.scaled:
            # integer inputs relaxed to reals, of a property that does not depend on the unit: all times their common denominator
            ks = [k for k in out if self.inputs[k].get("grid")]
            l = 1
            for k in ks:
                l = math.lcm(l, Fraction(out[k]).denominator)
            if l > 10 ** 6:
                raise Unsupported("model without a small common denominator")
            for k in ks:
                out[k] = str(Fraction(out[k]) * l)
        return out


_PLATEAU = {}


def log2_plateau(j):
    """Least and greatest double whose numpy.log2 is exactly j (assuming numpy.log2 is monotone)."""
    if j not in _PLATEAU:
        import numpy
        t = math.ldexp(1.0, j)
        out = []
        for d in (-1, 1):
            u = math.ulp(t) / (2 if d < 0 else 1)
            good, bad = 0, 1 << 14
            while bad - good > 1:
                k = (good + bad) // 2
                if numpy.log2(t + d * k * u) == j:
                    good = k
                else:
                    bad = k
            out.append(Fraction(t) + d * good * Fraction(u))
        _PLATEAU[j] = out
    return _PLATEAU[j]


def zfrac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise Unsupported("model value %r" % v)
