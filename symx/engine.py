"""Path exploration, solver queries, concrete replay."""
from __future__ import annotations

import builtins
import contextlib
import io
import math
import os
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from . import core
from .core import (INF, EngineError, Node, PathEnd, Poly, Sym, SymBool, TooBig,
                   _dn, _lift, _mk, _up, iv_pow, to_frac)

FORK_TIMEOUT = int(os.environ.get("SYMX_FORK_TIMEOUT_MS", "1500"))


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.fork_queries = 0
        self.paths = 0
        self.replays = 0
        self.max_query_s = 0.0
        self.by_normal_form = 0

    def merge(self, d):
        for k, v in d.items():
            if k == "max_query_s":
                self.max_query_s = max(self.max_query_s, v)
            else:
                setattr(self, k, getattr(self, k) + v)


# --------------------------------------------------------------------------
class Ctx:
    """one execution path"""

    def __init__(self, run, prefix):
        self.run = run
        self.stats = run.stats
        self.prefix = prefix
        self.trace = []           # decisions actually taken (bool)
        self.forks = []           # indices in trace where the other side is feasible
        self.nodes = {}
        self.vnodes = {}
        self.consts = {}
        self.vars = []            # [(name, z3 const, iv, kind, info)]
        self.defs = []            # [(z3 constraint, frozenset(varids))]
        self.pc = []              # [(z3 constraint, frozenset(varids))]
        self.sq = {}              # varid -> Poly of var**2
        self.memo = {}
        self.eqs = {}             # id(node) -> value
        self.keep = []            # keep nodes alive (ids are keys)
        self.aux = {}             # cache of auxiliary functions
        self.auxdef = {}          # varid -> fn(evalnode) -> float
        self.inputs = {}          # name -> varid
        self.angles = {}          # varid -> dict(c=,s=,unit=)
        self.int_inputs = {}
        self.funcs = []           # [(name, node, varid)] for monotonicity
        self.checked = []

    # -- variables -----------------------------------------------------------
    def new_var(self, name, lo, hi, kind="input", sort="real"):
        vid = len(self.vars)
        zc = z3.Real(f"{name}!{vid}") if sort == "real" else z3.Int(f"{name}!{vid}")
        lo_f = -INF if lo is None or lo == -INF else lo
        hi_f = INF if hi is None or hi == INF else hi
        ivl = (_dn(float(lo_f)), _up(float(hi_f)))
        self.vars.append((name, zc, ivl, kind, sort))
        node = Node(self, "v", vid, None, ivl)
        zr = zc if sort == "real" else z3.ToReal(zc)
        self.keep.append(node)
        self.vnodes[vid] = node
        if lo_f != -INF:
            self.defs.append((zr >= z3q(to_frac(lo_f)), frozenset([vid])))
        if hi_f != INF:
            self.defs.append((zr <= z3q(to_frac(hi_f)), frozenset([vid])))
        return Sym(node)

    def zvar(self, vid):
        name, zc, _, _, sort = self.vars[vid]
        return zc if sort == "real" else z3.ToReal(zc)

    # -- rational normal form --------------------------------------------------
    def rat(self, n):
        """(num Poly, den {key: (Poly, exp, sign)})"""
        if n._rat is not None:
            if n._rat is False:
                raise TooBig()
            return n._rat
        try:
            r = self._rat(n)
        except TooBig:
            n._rat = False
            raise
        n._rat = r
        return r

    def _rat(self, n):
        op = n.op
        if op == "c":
            return Poly.const(n.a), {}
        if op == "v":
            return Poly({((n.a, 1),): Fraction(1)}), {}
        if op == "+":
            (pa, da), (pb, db) = self.rat(n.a), self.rat(n.b)
            if da is db or (not da and not db):
                return pa + pb, da
            den = dict(da)
            for k, (p, e, s) in db.items():
                if k not in den or den[k][1] < e:
                    den[k] = (p, e, s)
            return self._lift_num(pa, da, den) + self._lift_num(pb, db, den), den
        if op == "*":
            (pa, da), (pb, db) = self.rat(n.a), self.rat(n.b)
            pa, db2 = self._cancel(pa, db)
            pb, da2 = self._cancel(pb, da)
            return pa.mul(pb, self), self._den_mul(da2, db2)
        if op == "^":
            p, d = self.rat(n.a)
            return p.pow(n.b, self), {k: (q, e * n.b, s) for k, (q, e, s) in d.items()}
        if op == "/":
            (pa, da), (pb, db) = self.rat(n.a), self.rat(n.b)
            # a/b : numerator pa * prod(db), denominator da * pb
            num = pa
            da = dict(da)
            for k, (p, e, s) in db.items():
                # cancel against da
                if k in da:
                    c = min(e, da[k][1])
                    if da[k][1] - c:
                        da[k] = (p, da[k][1] - c, s)
                    else:
                        del da[k]
                    e -= c
                for _ in range(e):
                    num = num.mul(p, self)
            sgn_b = 1 if n.b.iv[0] > 0 else (-1 if n.b.iv[1] < 0 else 0)
            sgn_db = 1
            for _, e, s in db.values():
                sgn_db = sgn_db if e % 2 == 0 else sgn_db * s
            sgn = sgn_b * sgn_db
            if not pb.t:
                raise ZeroDivisionError("float division by zero")
            if len(pb.t) == 1:
                (m, c), = pb.t.items()
                num = num.scale(1 / c)
                newden = {}
                for v, e in m:
                    iv = self.vars[v][2]
                    s = 1 if iv[0] >= 0 else (-1 if iv[1] <= 0 else 0)
                    newden[("v", v)] = (Poly({((v, 1),): Fraction(1)}), e, s)
                num, newden = self._cancel(num, newden)
                return num, self._den_mul(da, newden)
            pc = pb.content()
            # pb = k * pc with k > 0
            m0 = next(iter(pb.t))
            kf = pb.t[m0] / pc.t[m0]
            num = num.scale(1 / kf)
            key = pc.key()
            newden = {key: (pc, 1, sgn)}
            num, newden = self._cancel(num, newden)
            return num, self._den_mul(da, newden)
        raise EngineError(f"rat: {op}")

    def _den_mul(self, da, db):
        if not db:
            return da
        if not da:
            return db
        r = dict(da)
        for k, (p, e, s) in db.items():
            if k in r:
                r[k] = (p, r[k][1] + e, s or r[k][2])
            else:
                r[k] = (p, e, s)
        return r

    def _lift_num(self, p, d, den):
        for k, (q, e, _) in den.items():
            have = d[k][1] if k in d else 0
            for _ in range(e - have):
                p = p.mul(q, self)
        return p

    def _cancel(self, p, den):
        """cancel single-variable factors and identical polynomials"""
        if not den or not p.t:
            return p, den
        out = dict(den)
        for k, (q, e, s) in den.items():
            if k[0] == "v" and len(k) == 2 and not isinstance(k[1], tuple):
                v = k[1]
                mn = min((dict(m).get(v, 0) for m in p.t), default=0)
                c = min(mn, e)
                if c:
                    t = {}
                    for m, cf in p.t.items():
                        d = dict(m)
                        d[v] -= c
                        if not d[v]:
                            del d[v]
                        t[tuple(sorted(d.items()))] = cf
                    p = Poly(t)
                    if e - c:
                        out[k] = (q, e - c, s)
                    else:
                        del out[k]
            elif len(p.t) == len(q.t):
                m0 = next(iter(q.t))
                if m0 in p.t:
                    r = p.t[m0] / q.t[m0]
                    if all(m in p.t and p.t[m] == q.t[m] * r for m in q.t):
                        p = Poly.const(r)
                        if e - 1:
                            out[k] = (q, e - 1, s)
                        else:
                            del out[k]
        return p, out

    def poly_z3(self, p):
        terms = []
        for m, c in p.t.items():
            f = []
            for v, e in m:
                zv = self.zvar(v)
                f += [zv] * e
            if not f:
                terms.append(z3q(c))
            else:
                t = f[0]
                for x in f[1:]:
                    t = t * x
                terms.append(t if c == 1 else z3q(c) * t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def poly_vars(self, p):
        s = set()
        for m in p.t:
            for v, _ in m:
                s.add(v)
        return s

    def node_z3(self, n):
        if n._z is not None:
            return n._z
        op = n.op
        if op == "c":
            z = (z3q(n.a), frozenset())
        elif op == "v":
            z = (self.zvar(n.a), frozenset([n.a]))
        elif op == "^":
            a, va = self.node_z3(n.a)
            e = a
            for _ in range(n.b - 1):
                e = e * a
            z = (e, va)
        else:
            a, va = self.node_z3(n.a)
            b, vb = self.node_z3(n.b)
            z = ({"+": lambda: a + b, "*": lambda: a * b, "/": lambda: a / b}[op](), va | vb)
        n._z = z
        return z

    def cond_z3(self, c):
        """(z3 bool, varids) for a SymBool"""
        if c._z is not None:
            return c._z
        if c.kind == "cmp":
            z = self._cmp_z3(c.op, c.a, c.b)
        else:
            parts = []
            vs = frozenset()
            for x in (c.a, c.b):
                if type(x) is SymBool:
                    e, v = self.cond_z3(x)
                    vs = vs | v
                else:
                    e = z3.BoolVal(bool(x))
                parts.append(e)
            z = ((z3.And if c.kind == "and" else z3.Or)(*parts), vs)
        c._z = z
        return z

    def diff(self, a, b):
        nb = core.s_neg(Sym(b)) if b.op != "c" else Sym(_lift(self, -b.a))
        d = core.s_add(Sym(a), nb)
        return d

    def _cmp_z3(self, op, a, b):
        try:
            d = self.diff(a, b)
            if type(d) is not Sym:
                return z3.BoolVal(_cmpnum(op, d, 0)), frozenset()
            num, den = self.rat(d.n)
            sign = 1
            extra = []
            for k, (p, e, s) in den.items():
                if e % 2 == 0:
                    continue
                if s == 0:
                    extra.append(p)
                else:
                    sign *= s
            if op in ("==", "!="):
                extra = []
                sign = 1
            num = num.content()
            for p in extra:
                num = num.mul(p, self)
            if num.is_const():
                return z3.BoolVal(_cmpnum(op, num.const_value() * sign, 0)), frozenset()
            # pull out single-variable factors of known sign
            num, sgn = self._strip(num, op)
            sign *= sgn
            z = self.poly_z3(num)
            if sign < 0:
                op = core._SWAP[op]
            return _zcmp(op, z, z3.RealVal(0)), frozenset(self.poly_vars(num))
        except TooBig:
            za, va = self.node_z3(a)
            zb, vb = self.node_z3(b)
            return _zcmp(op, za, zb), va | vb

    def box_nonneg(self, x):
        """True if x >= 0 follows from the variable bounds alone: shift every
        variable to its lower bound and look at the signs of the coefficients"""
        if type(x) is not Sym:
            return x >= 0
        try:
            num, den = self.rat(x.n)
        except TooBig:
            return False
        sign = 1
        for k, (p, e, s) in den.items():
            if e % 2 == 0:
                continue
            if s == 0:
                return False
            sign *= s
        vs = self.poly_vars(num)
        if len(num.t) > 400 or len(vs) > 9:
            return False
        sh = {}
        for v in vs:
            name, zc, (lo, hi), kind, sort = self.vars[v]
            if lo == -INF:
                return False
            if lo < 0 and hi <= 0:
                return False
            sh[v] = to_frac(lo) if kind == "input" else Fraction(lo)
        r = {}
        for m, c in num.t.items():
            parts = [((), c * sign)]
            for v, e in m:
                l = sh[v]
                if l == 0:
                    parts = [(mm + ((v, e),), cc) for mm, cc in parts]
                    continue
                new = []
                for i in range(e + 1):
                    k = math.comb(e, i) * l ** (e - i)
                    for mm, cc in parts:
                        new.append((mm + ((v, i),) if i else mm, cc * k))
                parts = new
            for mm, cc in parts:
                r[mm] = r.get(mm, 0) + cc
            if len(r) > 20000:
                return False
        return all(c >= 0 for c in r.values())

    def split_tiny(self, a, b):
        """a - b = main + rest, where rest collects the terms that are nothing
        but float rounding of coefficients; (main Sym or 0, bound of |rest|) or None"""
        try:
            na, da = self.rat(_lift(self, a)) if type(a) is not Sym else self.rat(a.n)
            nb, db = self.rat(_lift(self, b)) if type(b) is not Sym else self.rat(b.n)
            den = dict(da)
            for k, (p, e, s) in db.items():
                if k not in den or den[k][1] < e:
                    den[k] = (p, e, s)
            na, nb = self._lift_num(na, da, den), self._lift_num(nb, db, den)
        except TooBig:
            return None
        # keep the coefficients within the range of floats
        f, scaled = Fraction(1), {}
        for k, (p, e, s) in den.items():
            c = max(abs(x) for x in p.t.values())
            f *= c ** e
            scaled[k] = (p.scale(1 / c), e, s)
        if den:
            na, nb, den = na.scale(1 / f), nb.scale(1 / f), scaled
        d = na + nb.neg()
        main, tiny = {}, 0.0
        any_tiny = False
        for m, c in d.t.items():
            if abs(c) <= Fraction(1, 10 ** 10) * max(abs(na.t.get(m, 0)), abs(nb.t.get(m, 0))):
                any_tiny = True
                x = float(abs(c))
                for v, e in m:
                    lo, hi = self.vars[v][2]
                    x *= max(abs(lo), abs(hi)) ** e
                tiny += x
            else:
                main[m] = c
        if not any_tiny:
            return None
        dmin = 1.0
        for k, (p, e, s) in den.items():
            lo, hi = self.poly_iv(p)
            if lo <= 0 <= hi:
                return None
            dmin *= min(abs(lo), abs(hi)) ** e
        tiny = tiny / dmin * 1.0001
        if not main:
            return 0, tiny
        q = self.poly_sym(main)
        for k, (p, e, s) in den.items():
            for _ in range(e):
                q = core.s_div(q, self.poly_sym(p.t))
        return q, tiny

    def poly_sym(self, t):
        r = None
        for m, c in t.items():
            f = Sym(_lift(self, c))
            for v, e in m:
                x = Sym(core._mk(self, "v", v, None, self.vars[v][2]).n) if v not in self.vnodes else Sym(self.vnodes[v])
                f = core.s_mul(f, core.s_pow(x, e) if e > 1 else x)
            r = f if r is None else core.s_add(r, f)
        return r

    def poly_iv(self, p):
        lo = hi = 0.0
        for m, c in p.t.items():
            iv = (1.0, 1.0)
            for v, e in m:
                iv = core.iv_mul(iv, core.iv_pow(self.vars[v][2], e))
            c = float(c)
            iv = core.iv_mul(iv, (c, c))
            lo, hi = lo + iv[0], hi + iv[1]
        eps = 1e-12 * max(abs(lo), abs(hi))
        return lo - eps, hi + eps

    def _strip(self, p, op):
        """divide by common powers of variables known to be positive"""
        common = None
        for m in p.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {v: min(e, d[v]) for v, e in common.items() if v in d}
            if not common:
                return p, 1
        use = {v: e for v, e in common.items() if self.vars[v][2][0] > 0 or
               (self.vars[v][2][1] < 0)}
        if not use:
            return p, 1
        sgn = 1
        for v, e in use.items():
            if self.vars[v][2][1] < 0 and e % 2:
                sgn = -sgn
        t = {}
        for m, c in p.t.items():
            d = dict(m)
            for v, e in use.items():
                d[v] -= e
                if not d[v]:
                    del d[v]
            t[tuple(sorted(d.items()))] = c
        return Poly(t), sgn

    # -- values fixed on this path ---------------------------------------------
    def const_of(self, x):
        if x.n.op == "c":
            return float(x.n.a)
        return None

    def unique_value(self, x):
        n = x.n
        if n.op == "c":
            return _nice(n.a)
        v = self.eqs.get(id(n))
        if v is not None:
            return v
        try:
            p, d = self.rat(n)
        except (TooBig, ZeroDivisionError):
            return None
        if p.is_const() and not d:
            return _nice(p.const_value())
        v = self.eqs.get(("p", p.key()))
        return v if not d else None

    # -- decisions ----------------------------------------------------------------
    def decide(self, c):
        if c.kind == "cmp":
            q = core.quick(c.op, c.a.iv, c.b.iv)
            if q is not None:
                return q
            if id(c.a) in self.eqs and c.b.op == "c":
                return _cmpnum(c.op, to_frac(self.eqs[id(c.a)]), c.b.a)
        z, vs = self.cond_z3(c)
        zs = z3.simplify(z)
        if z3.is_true(zs):
            return True
        if z3.is_false(zs):
            return False
        key = zs.get_id()
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            self.stats.fork_queries += 1
            if not self.feasible(z, vs):
                r = False
            else:
                self.stats.fork_queries += 1
                r = True
                if self.feasible(z3.Not(z), vs):
                    self.forks.append(i)
        self.trace.append(r)
        if len(self.trace) > self.run.max_decisions:
            raise EngineError("too many decisions on one path")
        self.memo[key] = r
        nk = z3.simplify(z3.Not(z))
        self.memo[nk.get_id()] = not r
        self.keep.append((zs, nk, c))
        self.add_pc(c if r else c.negate())
        return r

    def add_pc(self, c):
        z, vs = self.cond_z3(c)
        self.pc.append((z, vs))
        self.refine(c)

    def refine(self, c):
        if c.kind == "and":
            for x in (c.a, c.b):
                if type(x) is SymBool:
                    self.refine(x)
            return
        if c.kind != "cmp":
            return
        a, b, op = c.a, c.b, c.op
        if op == "==":
            if b.op == "c":
                self.eqs[id(a)] = _nice(b.a)
                self.keep.append(a)
                try:
                    p, d = self.rat(a)
                    if not d:
                        self.eqs[("p", p.key())] = _nice(b.a)
                except TooBig:
                    pass
            lo, hi = max(a.iv[0], b.iv[0]), min(a.iv[1], b.iv[1])
            if lo <= hi:
                self.set_iv(a, (lo, hi))
                self.set_iv(b, (lo, hi))
            return
        if op in (">", ">="):
            a, b = b, a
            op = "<" if op == ">" else "<="
        if op in ("<", "<="):
            strict = op == "<"
            hi = min(a.iv[1], b.iv[1])
            lo = max(b.iv[0], a.iv[0])
            # strict bounds keep the closed interval (sound), except at 0 where
            # the sign matters: x > 0 becomes [tiny, ..]
            if a.iv[0] <= hi:
                h2 = hi
                if strict and b.op == "c" and b.a == 0:
                    h2 = min(hi, -5e-324)
                self.set_iv(a, (a.iv[0], h2))
            if lo <= b.iv[1]:
                l2 = lo
                if strict and a.op == "c" and a.a == 0:
                    l2 = max(lo, 5e-324)
                self.set_iv(b, (l2, b.iv[1]))

    def set_iv(self, n, iv):
        if n.op == "c":
            return
        n.iv = iv
        if n.op == "v":
            name, zc, _, kind, sort = self.vars[n.a]
            self.vars[n.a] = (name, zc, iv, kind, sort)

    # -- solver --------------------------------------------------------------------
    def slice(self, vs, extra=()):
        """constraints connected to the variables vs"""
        items = self.defs + self.pc + list(extra)
        vs = set(vs)
        sel = [False] * len(items)
        changed = True
        while changed:
            changed = False
            for i, (z, v) in enumerate(items):
                if not sel[i] and (not v or v & vs):
                    sel[i] = True
                    if v - vs:
                        vs |= v
                        changed = True
        return [items[i][0] for i in range(len(items)) if sel[i]], vs

    def feasible(self, z, vs):
        cons, _ = self.slice(vs)
        r, _ = solve(cons + [z], FORK_TIMEOUT, self.stats, want_model=False, quick=True)
        return r != "unsat"

    def query(self, z, vs, timeout):
        """satisfiability of path condition and z"""
        cons, allv = self.slice(vs)
        return solve(cons + [z], timeout, self.stats, want_model=False), allv

    def model(self, z=None, vs=frozenset(), timeout=20000):
        """values for all inputs on this path (component-wise)"""
        values = {}
        done = set()
        order = []
        if z is not None:
            order.append((z, set(vs)))
        allv = set(range(len(self.vars)))
        if z is not None:
            cons, comp = self.slice(vs)
            r, m = solve(cons + [z], timeout, self.stats, want_model=True)
            if r != "sat":
                return r, None
            self._take(m, comp, values)
            done |= comp
        while allv - done:
            v = min(allv - done)
            cons, comp = self.slice({v})
            comp = comp | {v}
            cons = [c for c in cons]
            r, m = solve(cons, timeout, self.stats, want_model=True)
            if r != "sat":
                return r, None
            self._take(m, comp - done, values)
            done |= comp
        return "sat", self.concretize(values)

    def _take(self, m, comp, values):
        for v in comp:
            name, zc, iv, kind, sort = self.vars[v]
            values[v] = z3val(m.eval(zc, model_completion=True))

    def concretize(self, values):
        out = {}
        for name, vid in self.inputs.items():
            ang = self.angles.get(vid)
            if ang is not None and ang.get("cv") is not None and ang["used"]:
                c, s = values[ang["cv"]], values[ang["sv"]]
                th = math.atan2(float(s), float(c)) / ang["unit"]
                lo, hi = self.vars[vid][2]
                lo, hi = ang["lo"], ang["hi"]
                per = 2 * math.pi / ang["unit"]
                while th < lo - 1e-9 * abs(per):
                    th += per
                out[name] = min(max(th, lo), hi)
            else:
                val = values[vid]
                out[name] = int(val) if self.vars[vid][4] == "int" else float(val)
        return out

    # -- auxiliary functions ------------------------------------------------------
    def _key(self, x):
        try:
            p, d = self.rat(x.n)
            return (p.key(), tuple(sorted(((str(k), e) for k, (q, e, s) in d.items()))))
        except TooBig:
            return ("n", id(x.n))

    def sqrt_of(self, x):
        key = ("sqrt", self._key(x))
        if key in self.aux:
            return self.aux[key]
        lo, hi = max(x.n.iv[0], 0.0), x.n.iv[1]
        try:
            p, d = self.rat(x.n)
            # perfect squares  c^2 * m^2
            if not d and len(p.t) == 1:
                (m, c), = p.t.items()
                if c > 0 and all(e % 2 == 0 for _, e in m):
                    rc = _exact_sqrt(c)
                    if rc is not None:
                        r = rc if rc.denominator != 1 else int(rc)
                        r = float(r)
                        for v, e in m:
                            node = next(k for k in self.keep if isinstance(k, Node) and k.op == "v" and k.a == v)
                            base = core.s_abs(Sym(node)) if (e // 2) % 2 else Sym(node)
                            r = r * base ** (e // 2)
                        self.aux[key] = r
                        return r
            if not d and p.is_const() and p.const_value() >= 0:
                r = self.aux[key] = math.sqrt(float(p.const_value()))
                return r
            if not d:
                t = self._linear_root(p)
                if t is not None:
                    r = self.aux[key] = core.s_mul(core.s_abs(self.poly_sym(t[0])), t[1])
                    return r
        except TooBig:
            p = d = None
        rlo = _dn(_dn(math.sqrt(lo))) if lo > 0 else 0.0
        rhi = _up(_up(math.sqrt(hi))) if hi not in (INF,) else INF
        s = self.new_var("sqrt", max(0.0, rlo), rhi if rhi != INF else None, kind="aux")
        vid = s.n.a
        # exact bounds only matter for speed; s >= 0 is asserted exactly
        self.defs.append((self.zvar(vid) >= 0, frozenset([vid])))
        node = x.n
        self.keep.append(node)
        self.auxdef[vid] = lambda ev: math.sqrt(max(ev(node), 0.0))
        if p is not None:
            if not d:
                self.sq[vid] = p
                self.defs.append((self.zvar(vid) * self.zvar(vid) == self.poly_z3(p),
                                  frozenset([vid]) | self.poly_vars(p)))
            else:
                z, vs = self._cmp_z3("==", core.s_mul(s, s).n, node)
                self.defs.append((z, vs | {vid}))
        else:
            z, vs = self._cmp_z3("==", core.s_mul(s, s).n, node)
            self.defs.append((z, vs | {vid}))
        self.aux[key] = s
        return s

    def _linear_root(self, p):
        """(terms of a linear form, factor) whose product squared is p, if there are any"""
        if len(p.t) > 60 or any(sum(e for _, e in m) > 2 for m in p.t):
            return None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 2:
                break
        else:
            return None
        if c <= 0:
            return None
        v = m[0][0]
        t = {((v, 1),): Fraction(1)}
        for m2, c2 in p.t.items():
            d = dict(m2)
            if d.get(v) == 1:
                del d[v]
                t[tuple(sorted(d.items()))] = c2 / (2 * c)
        q = Poly(dict(t))
        q = q.mul(q, self)
        if q.t.keys() != p.t.keys() or any(q.t[k] * c != p.t[k] for k in p.t):
            return None
        rc = _exact_sqrt(c)
        return t, float(rc) if rc is not None else math.sqrt(float(c))

    def root_of(self, x, f):
        key = ("root", f, self._key(x))
        if key in self.aux:
            return self.aux[key]
        p, q = f.numerator, f.denominator
        if p < 0:
            return 1.0 / self.root_of(x, -f)
        if q > 4 or p > 8:
            return self.fun_of(("pow", f), x)
        lo, hi = max(x.n.iv[0], 0.0), x.n.iv[1]
        ff = float(f)
        rlo = lo ** ff * (1 - 1e-12)
        rhi = hi ** ff * (1 + 1e-12) if hi != INF else INF
        s = self.new_var("root", rlo, rhi if rhi != INF else None, kind="aux")
        vid = s.n.a
        node = x.n
        self.auxdef[vid] = lambda ev: max(ev(node), 0.0) ** ff
        z, vs = self._cmp_z3("==", (s ** q).n, (x ** p).n if p != 1 else node)
        self.defs.append((z, vs | {vid}))
        self.aux[key] = s
        return s

    def make_angle(self, name, lo, hi, unit):
        """angle input; unit = radians per unit of the variable"""
        s = self.new_var(name, lo, hi, kind="input")
        vid = s.n.a
        self.inputs[name] = vid
        self.angles[vid] = dict(unit=unit, used=False, cv=None, sv=None, lo=lo, hi=hi)
        return s

    def _angle_pair(self, vid):
        a = self.angles[vid]
        a["used"] = True
        if a.get("pair") is None:
            lo, hi = a["lo"] * a["unit"], a["hi"] * a["unit"]
            civ, siv = _cos_iv(lo, hi), _sin_iv(lo, hi)
            c = self.new_var("cos", civ[0], civ[1], kind="aux")
            s = self.new_var("sin", siv[0], siv[1], kind="aux")
            zc, zs = self.zvar(c.n.a), self.zvar(s.n.a)
            self.defs.append((zc * zc + zs * zs == 1, frozenset([c.n.a, s.n.a])))
            self.sq[s.n.a] = Poly({(): Fraction(1), ((c.n.a, 2),): Fraction(-1)})
            u = a["unit"]
            nv = next(k for k in self.keep if isinstance(k, Node) and k.op == "v" and k.a == vid)
            self.auxdef[c.n.a] = lambda ev: math.cos(ev(nv) * u)
            self.auxdef[s.n.a] = lambda ev: math.sin(ev(nv) * u)
            a["pair"] = (c, s)
            a["cv"], a["sv"] = c.n.a, s.n.a
        return a["pair"]

    def trig_of(self, x):
        """(cos x, sin x) for x in radians"""
        try:
            p, d = self.rat(x.n)
        except TooBig:
            p = None
        if p is not None and not d:
            parts = []
            ok = True
            k0 = Fraction(0)
            for m, c in p.t.items():
                if m == ():
                    k0 = c
                elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.angles:
                    k = float(c) / self.angles[m[0][0]]["unit"]
                    if abs(k - round(k)) < 1e-9 and abs(round(k)) <= 6:
                        parts.append((m[0][0], round(k)))
                    else:
                        ok = False
                else:
                    ok = False
            if ok:
                c, s = _exact_cos(float(k0)), _exact_sin(float(k0))
                for vid, k in parts:
                    pc, ps = self._angle_pair(vid)
                    if k < 0:
                        ps = -ps
                    for _ in range(abs(k)):
                        c, s = c * pc - s * ps, s * pc + c * ps
                return c, s
        # half or other fractions: fresh pair keyed by the argument
        key = ("trig", self._key(x))
        if key in self.aux:
            return self.aux[key]
        civ, siv = _cos_iv(*x.n.iv), _sin_iv(*x.n.iv)
        c = self.new_var("cos", civ[0], civ[1], kind="aux")
        s = self.new_var("sin", siv[0], siv[1], kind="aux")
        zc, zs = self.zvar(c.n.a), self.zvar(s.n.a)
        self.defs.append((zc * zc + zs * zs == 1, frozenset([c.n.a, s.n.a])))
        self.sq[s.n.a] = Poly({(): Fraction(1), ((c.n.a, 2),): Fraction(-1)})
        node = x.n
        self.keep.append(node)
        self.auxdef[c.n.a] = lambda ev: math.cos(ev(node))
        self.auxdef[s.n.a] = lambda ev: math.sin(ev(node))
        self.aux[key] = (c, s)
        return c, s

    def fun_of(self, name, x, y=None):
        key = ("fun", name, self._key(x) if type(x) is Sym else x,
               None if y is None else (self._key(y) if type(y) is Sym else y))
        if key in self.aux:
            return self.aux[key]
        if name in ("acos", "asin", "atan"):
            return self._inverse_trig(name, x, key)
        if y is not None:
            raise EngineError(f"symbolic {name} with two symbolic arguments")
        fn = _fun(name)
        if fn is None:
            raise EngineError(f"function {name} of a symbolic value")
        power = type(name) is tuple
        lo, hi = x.n.iv
        if power:
            lo = max(lo, 0.0)
        if name == "log":
            if lo <= 0 and x <= 0:
                raise ValueError("math domain error")
            lo = max(x.n.iv[0], 0.0)
        flo = -INF if (name == "log" and lo <= 0) or lo == -INF else _pad(fn(lo), -1)
        if power:
            flo = max(flo, 0.0) if lo == 0 else flo
        if hi == INF:
            fhi = 1.0 if name == "tanh" else INF
        else:
            try:
                fhi = _pad(fn(hi), 1)
            except OverflowError:
                fhi = INF
        if name == "exp" and flo == -INF:
            flo = 0.0
        s = self.new_var("pow" if power else name, flo, fhi, kind="aux")
        vid = s.n.a
        node = x.n
        self.keep.append(node)
        self.auxdef[vid] = (lambda ev: fn(max(ev(node), 0.0))) if power else (lambda ev: fn(ev(node)))
        # strictly increasing functions: order-preserving on all uses
        for nm, onode, osym in self.funcs:
            if nm == name:
                z1, v1 = self._cmp_z3("<", onode, node)
                z2, v2 = self._cmp_z3("<", osym.n, s.n)
                z3_, v3 = self._cmp_z3("<", node, onode)
                z4, v4 = self._cmp_z3("<", s.n, osym.n)
                self.defs.append((z1 == z2, v1 | v2))
                self.defs.append((z3_ == z4, v3 | v4))
        # point facts at a few anchors
        if power or name in ("log", "exp"):
            for a in ((1.0,) if power else self.run.anchors.get(name, ())):
                fa = fn(a)
                za, va = self._cmp_z3("<=", node, _lift(self, a))
                zb, vb = self._cmp_z3("<=", s.n, _lift(self, _pad(fa, 1)))
                zc, vc = self._cmp_z3(">=", s.n, _lift(self, _pad(fa, -1)))
                self.defs.append((z3.Implies(za, zb), va | vb))
                zd, vd = self._cmp_z3(">=", node, _lift(self, a))
                self.defs.append((z3.Implies(zd, zc), vd | vc))
        self.funcs.append((name, node, s))
        self.aux[key] = s
        return s

    def refine_funs(self, inputs):
        """a model did not reproduce: pin exp/log/tanh/... near the model's
        argument values (monotone anchors plus tangent for log/exp).  Returns
        the number of facts added."""
        added = 0
        for name, node, s in list(self.funcs):
            try:
                x0 = self.evaluate(Sym(node), inputs)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                continue
            fn = _fun(name)
            power = type(name) is tuple
            try:
                f0 = fn(x0)
            except (ValueError, OverflowError):
                continue
            for a in (x0, x0 * (1 + 1e-3) + 1e-9, x0 * (1 - 1e-3) - 1e-9):
                if (name == "log" or power) and a <= 0:
                    continue
                try:
                    fa = fn(a)
                except OverflowError:
                    continue
                za, va = self._cmp_z3("<=", node, _lift(self, a))
                zb, vb = self._cmp_z3("<=", s.n, _lift(self, _pad(fa, 1)))
                zd, vd = self._cmp_z3(">=", node, _lift(self, a))
                zc, vc = self._cmp_z3(">=", s.n, _lift(self, _pad(fa, -1)))
                self.defs.append((z3.Implies(za, zb), va | vb))
                self.defs.append((z3.Implies(zd, zc), vd | vc))
                added += 2
            if name in ("log", "exp") or (power and x0 > 0):
                sl = 1 / x0 if name == "log" else f0
                if power:
                    sl = float(name[1]) * f0 / x0
                line = Sym(node) * sl + (f0 - sl * x0)
                if name == "log" or (power and name[1] < 1):
                    zt, vt = self._cmp_z3("<=", s.n, _lift(self, line + abs(f0) * 1e-12 + 1e-12))
                else:
                    zt, vt = self._cmp_z3(">=", s.n, _lift(self, line - abs(f0) * 1e-12 - 1e-300))
                self.defs.append((zt, vt))
                added += 1
        # generic angles: pair keyed by an argument expression
        return added

    def _inverse_trig(self, name, x, key):
        if name == "atan":
            lo, hi = x.n.iv
            v = self.new_var("atan", _pad(math.atan(lo), -1), _pad(math.atan(hi), 1), kind="aux")
            r = (1 + x * x).sqrt()
            c, s = 1 / r, x / r
            fn = math.atan
        elif name == "acos":
            lo, hi = max(x.n.iv[0], -1.0), min(x.n.iv[1], 1.0)
            v = self.new_var("acos", _pad(math.acos(hi), -1), _pad(math.acos(lo), 1), kind="aux")
            c, s = x, (1 - x * x).sqrt()
            fn = math.acos
        else:
            lo, hi = max(x.n.iv[0], -1.0), min(x.n.iv[1], 1.0)
            v = self.new_var("asin", _pad(math.asin(lo), -1), _pad(math.asin(hi), 1), kind="aux")
            s, c = x, (1 - x * x).sqrt()
            fn = math.asin
        node = x.n
        self.keep.append(node)
        vid = v.n.a
        self.auxdef[vid] = lambda ev: fn(ev(node))
        self.angles[vid] = dict(unit=1.0, used=True, cv=None, sv=None, pair=(c, s),
                                lo=v.n.iv[0], hi=v.n.iv[1])
        self.aux[key] = v
        return v

    def floor_of(self, x):
        v = self.unique_value(x)
        if v is not None:
            return math.floor(v)
        key = ("floor", self._key(x))
        if key in self.aux:
            return self.aux[key]
        lo, hi = x.n.iv
        if lo == -INF or hi == INF or hi - lo > 64:
            k = self.new_var("floor", math.floor(lo) if lo != -INF else None,
                             math.floor(hi) if hi != INF else None, kind="aux", sort="int")
            vid = k.n.a
            node = x.n
            self.keep.append(node)
            self.auxdef[vid] = lambda ev: float(math.floor(ev(node)))
            z1, v1 = self._cmp_z3("<=", k.n, node)
            z2, v2 = self._cmp_z3("<", node, (k + 1).n)
            self.defs.append((z1, v1 | {vid}))
            self.defs.append((z2, v2 | {vid}))
            self.aux[key] = k
            return k
        r = self.split_int(x, "floor")
        self.aux[key] = r
        return r

    def split_int(self, x, how):
        v = self.unique_value(x)
        if v is not None:
            return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[how](v)
        lo, hi = x.n.iv
        if lo == -INF or hi == INF or hi - lo > 400:
            raise EngineError("integer conversion of an unbounded symbolic value")
        if how == "trunc":
            how = "floor" if x >= 0 else "ceil"
        if how == "floor":
            k = math.floor(x.n.iv[0])
            while not (x < k + 1):
                k += 1
            return k
        k = math.ceil(x.n.iv[0])
        while not (x <= k):
            k += 1
        return k

    def round_of(self, x, n):
        v = self.unique_value(x)
        if v is not None:
            return round(v, n) if n is not None else round(v)
        if n is None:
            h = x + 0.5
            k = h.__floor__()
            return k
        key = ("round", n, self._key(x))
        if key in self.aux:
            return self.aux[key]
        try:
            # whole multiples of 10^-n stay as they are
            p, d = self.rat(x.n)
            if not d and n >= 0 and all((c * 10 ** n).denominator == 1 for c in p.t.values()) and \
                    all(self.vars[v][4] == "int" for m in p.t for v, e in m):
                self.aux[key] = x
                return x
        except TooBig:
            pass
        half = 0.5 * 10.0 ** (-n) * (1 + 1e-9)
        lo, hi = x.n.iv
        if n == 0 and lo != -INF and hi != INF and hi - lo <= 64:
            # decided by cases, halves go to the even neighbour
            h = x + 0.5
            k = self.split_int(h, "floor")
            if k % 2 and h == k:
                k -= 1
            self.aux[key] = float(k)
            return self.aux[key]
        r = self.new_var("round", lo - half if lo != -INF else None,
                         hi + half if hi != INF else None, kind="aux")
        vid = r.n.a
        node = x.n
        self.keep.append(node)
        self.auxdef[vid] = lambda ev: round(ev(node), n)
        z1, v1 = self._cmp_z3("<=", (r - x).n, _lift(self, half))
        z2, v2 = self._cmp_z3(">=", (r - x).n, _lift(self, -half))
        self.defs.append((z1, v1 | {vid}))
        self.defs.append((z2, v2 | {vid}))
        self.aux[key] = r
        return r

    # -- numeric evaluation (translator validation) ---------------------------------
    def evaluate(self, x, inputs):
        if type(x) is not Sym:
            return float(x)
        cache = {}
        byvid = {vid: inputs[name] for name, vid in self.inputs.items()}
        sys.setrecursionlimit(20000)

        def ev(n):
            r = cache.get(id(n))
            if r is not None:
                return r
            if n.op == "c":
                r = float(n.a)
            elif n.op == "v":
                if n.a in byvid:
                    r = float(byvid[n.a])
                elif n.a in self.auxdef:
                    r = self.auxdef[n.a](ev)
                else:
                    raise KeyError(f"no value for {self.vars[n.a][0]}")
            elif n.op == "+":
                r = ev(n.a) + ev(n.b)
            elif n.op == "*":
                r = ev(n.a) * ev(n.b)
            elif n.op == "/":
                r = ev(n.a) / ev(n.b)
            else:
                r = ev(n.a) ** n.b
            cache[id(n)] = r
            return r
        return ev(x.n)


# --------------------------------------------------------------------------
def _fun(name):
    """increasing functions handled by ordering and point facts"""
    if type(name) is tuple:
        f = float(name[1])
        return lambda v: v ** f
    return {"exp": math.exp, "log": math.log, "tanh": math.tanh, "sinh": math.sinh}.get(name)


def _pad(x, sgn):
    d = abs(x) * 1e-14 + 1e-300
    return x + sgn * d


def _exact_cos(x):
    for k, v in ((0, 1.0), (math.pi / 2, 0.0), (-math.pi / 2, 0.0), (math.pi, -1.0), (-math.pi, -1.0)):
        if abs(x - k) < 1e-12:
            return v
    return math.cos(x)


def _exact_sin(x):
    for k, v in ((0, 0.0), (math.pi / 2, 1.0), (-math.pi / 2, -1.0), (math.pi, 0.0), (-math.pi, 0.0)):
        if abs(x - k) < 1e-12:
            return v
    return math.sin(x)


def _cos_iv(lo, hi):
    if hi - lo >= 2 * math.pi or lo == -INF or hi == INF:
        return (-1.0, 1.0)
    c = [math.cos(lo), math.cos(hi)]
    k = math.ceil(lo / math.pi)
    while k * math.pi <= hi:
        c.append(1.0 if k % 2 == 0 else -1.0)
        k += 1
    a, b = min(c), max(c)
    a = 0.0 if abs(a) < 1e-15 else a
    b = 0.0 if abs(b) < 1e-15 else b
    # exact values at the interval ends matter for the real semantics
    return (max(-1.0, _snap(a, -1)), min(1.0, _snap(b, 1)))


def _sin_iv(lo, hi):
    return _cos_iv(lo - math.pi / 2, hi - math.pi / 2)


def _snap(v, sgn):
    for k in (0.0, 0.5, -0.5, 1.0, -1.0):
        if abs(v - k) < 1e-12:
            return k
    return v + sgn * 1e-12


def _nice(f):
    return int(f) if f.denominator == 1 else float(f)


def _exact_sqrt(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def _cmpnum(op, a, b):
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def _zcmp(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return a != b


def z3q(f):
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def z3val(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineError(f"model value {v}")


# --------------------------------------------------------------------------
# solver portfolio
# --------------------------------------------------------------------------
def _is_linear_int(cons):
    return False


def solve(cons, timeout_ms, stats, want_model=False, quick=False):
    """'sat' / 'unsat' / 'unknown' and a z3 model when sat."""
    t0 = time.time()
    stats.queries += 1
    res, model = "unknown", None
    try:
        goal = z3.Goal()
        goal.add(*cons)
        has_int = any("Int" in str(v) for v in ())
        plans = ["nlsat", "smt"] if not quick else ["smt", "nlsat"]
        budget = timeout_ms
        for k, plan in enumerate(plans):
            tmo = int(budget * (0.7 if k == 0 else 0.3)) if not quick else int(budget / 2)
            if plan == "nlsat":
                s = z3.Tactic("qfnra-nlsat").solver()
            else:
                s = z3.Solver()
            s.set("timeout", max(tmo, 50))
            s.add(*cons)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                res = "sat"
                model = s.model()
                break
    finally:
        dt = time.time() - t0
        stats.solver_s += dt
        stats.max_query_s = max(stats.max_query_s, dt)
    if res == "unsat":
        stats.unsat += 1
    elif res == "sat":
        stats.sat += 1
    else:
        stats.unknown += 1
    return res, model


def solve_cvc5(cons, timeout_ms, stats):
    """second opinion through SMT-LIB; returns 'sat'/'unsat'/'unknown'"""
    s = z3.Solver()
    s.add(*cons)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    t0 = time.time()
    stats.queries += 1
    try:
        p = subprocess.run(["cvc5", "--nl-cov", f"--tlimit={timeout_ms}", "-"], input=txt, text=True,
                           capture_output=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        r = out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, FileNotFoundError):
        r = "unknown"
    stats.solver_s += time.time() - t0
    if r == "unsat":
        stats.unsat += 1
    elif r == "sat":
        stats.sat += 1
    else:
        stats.unknown += 1
    return r
