"""Depth-first exploration of a harness, and the harness API `H`."""
from __future__ import annotations

import contextlib
import io
import math
import os
import sys
import time
import traceback

import z3

from . import core, engine, patch
from .core import EngineError, PathEnd, Sym, SymBool, s_cmp
from .engine import Ctx, Stats, solve, solve_cvc5

REPO = os.environ.get("METKU_REPO", "/repo")
SRC = os.path.join(REPO, "metku")


class Unsupported(Exception):
    pass


class Skip(Exception):
    """concrete replay: an assumption does not hold"""


def tdiv(tol):
    return tol


class Run:
    """symbolic exploration of one job"""

    def __init__(self, fn, kwargs, opts):
        self.fn = fn
        self.kwargs = kwargs
        self.opts = opts
        self.stats = Stats()
        self.max_decisions = opts.get("max_decisions", 400)
        self.max_paths = opts.get("max_paths", 4000)
        self.query_ms = opts.get("query_ms", 20000)
        self.deadline = time.time() + opts.get("time_s", 300)
        self.anchors = opts.get("anchors", {})
        self.violations = []       # dicts
        self.inconclusive = []
        self.checks = {}           # label -> [discharged, total]
        self.functions = {}
        self.witness = 0
        self.witness_fail = []
        self.samples = []
        self.assumptions = set()
        self.reached = set()
        self.stop_on_first = opts.get("stop_on_first", True)
        self.n_witness = opts.get("witnesses", 6)
        self.used_stub = False

    # ------------------------------------------------------------------
    def go(self):
        stack = [[]]
        while stack:
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append(f"path limit {self.max_paths} reached")
                break
            if time.time() > self.deadline:
                self.inconclusive.append("time limit reached")
                break
            prefix = stack.pop()
            ctx = Ctx(self, prefix)
            self.run_path(ctx)
            for i in reversed(ctx.forks):
                stack.append(ctx.trace[:i] + [not ctx.trace[i]])
            if self.violations and self.stop_on_first:
                break
        return self

    def run_path(self, ctx):
        h = H(ctx, self)
        patch.ACTIVE[0] = ctx
        prof = self.stats.paths < 4 or self.stats.paths % 50 == 0
        self.stats.paths += 1
        err = None
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                if prof:
                    sys.setprofile(self.profiler)
                try:
                    self.fn(h, **self.kwargs)
                finally:
                    sys.setprofile(None)
        except PathEnd:
            return
        except EngineError as e:
            self.inconclusive.append(f"engine: {e}" + _where(e))
            if os.environ.get("SYMX_TRACE"):
                traceback.print_exc()
            return
        except Exception as e:
            err = e
            tb = traceback.format_exc()
        finally:
            patch.ACTIVE[0] = None
        if getattr(ctx, "used_solve_stub", False):
            self.used_stub = True
        if err is not None:
            if os.environ.get("SYMX_TRACE"):
                print(tb, file=sys.stderr)
            label = "no-exception:" + type(err).__name__
            r = self.candidate(ctx, label, None, frozenset(), f"{type(err).__name__}: {err}", tb)
            if isinstance(r, tuple):
                self.inconclusive.append(f"{label}: {err} not reproduced concretely" + _where(err))
            return
        if self.witness < self.n_witness:
            self.path_witness(ctx, h)

    def profiler(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(SRC):
                k = (fn[len(REPO) + 1:], co.co_qualname, co.co_firstlineno)
                self.functions[k] = self.functions.get(k, 0) + 1

    # ------------------------------------------------------------------
    def candidate(self, ctx, label, z, vs, msg, tb=""):
        """the path (with z) would violate label: find a model, replay it"""
        r, vals = ctx.model(z, vs, self.query_ms)
        if r == "unsat":
            return "unsat"
        if r != "sat" or vals is None:
            self.inconclusive.append(f"{label}: no model ({r}) {msg[:200]}")
            return "unknown"
        self.stats.replays += 1
        res = self.replay(vals)
        if label in res["failed"] or (label.startswith("no-exception") and
                                      any(k.startswith("no-exception") for k in res["failed"])):
            key = label if label in res["failed"] else next(k for k in res["failed"] if k.startswith("no-exception"))
            self.violations.append(dict(label=label, inputs=vals, message=res["failed"][key], symbolic=msg, tb=tb))
            return "sat"
        if res["failed"]:
            # a different check fails in the concrete run: still a real failure
            k = next(iter(res["failed"]))
            self.violations.append(dict(label=k, inputs=vals, message=res["failed"][k], symbolic=msg))
            return "sat"
        return ("spurious", vals, res)

    def replay(self, vals):
        """run the harness concretely (in this process, originals called for
        concrete arguments)"""
        return run_concrete(self.fn, self.kwargs, vals)

    # ------------------------------------------------------------------
    def path_witness(self, ctx, h):
        r, vals = ctx.model(None, frozenset(), 5000)
        if r != "sat" or vals is None:
            return
        self.witness += 1
        res = run_concrete(self.fn, self.kwargs, vals)
        self.stats.replays += 1
        if res["skipped"]:
            return
        if res["failed"]:
            k = next(iter(res["failed"]))
            if k not in [v["label"] for v in self.violations]:
                self.violations.append(dict(label=k, inputs=vals, message=res["failed"][k], symbolic="path witness"))
            return
        # translator validation: encoded values at the witness = concrete values
        n = 0
        for name, v in h.observed.items():
            if name not in res["observed"]:
                continue
            c = res["observed"][name]
            try:
                s = ctx.evaluate(v, vals)
            except KeyError:
                continue
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            n += 1
            if not (abs(s - c) <= 1e-6 * max(1.0, abs(c), abs(s))):
                self.witness_fail.append(f"{name}: encoded {s!r} real {c!r} at {vals}")
        if len(self.samples) < 3:
            self.samples.append(dict(inputs={k: _short(v) for k, v in vals.items()},
                                     observed={k: _short(v) for k, v in list(res["observed"].items())[:6]},
                                     compared=n))


def _short(v):
    return float(f"{v:.6g}") if isinstance(v, float) else v


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/metku/" in f.filename:
            return f" at {f.filename[len(REPO)+1:]}:{f.lineno}"
    for f in reversed(tb):
        if "/harness/" in f.filename:
            return f" at {os.path.basename(f.filename)}:{f.lineno}"
    return ""


def run_concrete(fn, kwargs, vals):
    saved = patch.ACTIVE[0]
    patch.ACTIVE[0] = None
    h = CH(vals)
    out = io.StringIO()
    skipped = False
    try:
        with contextlib.redirect_stdout(out):
            fn(h, **kwargs)
    except Skip:
        skipped = True
    except EngineError as e:
        raise
    except Exception as e:
        h.failed["no-exception:" + type(e).__name__] = f"{type(e).__name__}: {e}{_where(e)}"
    finally:
        patch.ACTIVE[0] = saved
    return dict(failed=h.failed, observed=h.observed, skipped=skipped, passed=sorted(h.passed))


# ----------------------------------------------------------------------
class Base:
    TOL = 1e-6

    def eq(self, label, a, b, rel=None, abs_=None, scale=None, **k):
        """a == b up to rel*|b| + abs (or rel*scale)"""
        self._cmp(label, a, b, "eq", rel, abs_, scale, **k)

    def le(self, label, a, b, rel=None, abs_=None, scale=None, **k):
        self._cmp(label, a, b, "le", rel, abs_, scale, **k)

    def ge(self, label, a, b, rel=None, abs_=None, scale=None, **k):
        self._cmp(label, b, a, "le", rel, abs_, scale, **k)

    def between(self, label, lo, x, hi, **k):
        self.le(label + ":lo", lo, x, **k)
        self.le(label + ":hi", x, hi, **k)

    def same(self, label, a, b):
        """plain (non-symbolic) equality"""
        self.check(label, a == b, f"{a!r} vs {b!r}")

    def eqs(self, label, xs, ys, **k):
        xs, ys = list(_flat(xs)), list(_flat(ys))
        self.check(label + ":len", len(xs) == len(ys), f"{len(xs)} vs {len(ys)}")
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(f"{label}[{i}]", x, y, **k)


def _flat(x):
    if hasattr(x, "reshape"):
        for v in x.reshape(-1):
            yield v
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from _flat(v)
    else:
        yield x


class H(Base):
    symbolic = True

    def __init__(self, ctx, run):
        self.ctx = ctx
        self.run = run
        self.observed = {}

    # -- inputs
    def real(self, name, lo, hi):
        if lo == hi:
            return lo
        s = self.ctx.new_var(name, lo, hi)
        self.ctx.inputs[name] = s.n.a
        return s

    def int(self, name, lo, hi):
        s = self.ctx.new_var(name, lo, hi, sort="int")
        self.ctx.inputs[name] = s.n.a
        return s

    def angle(self, name, lo, hi, unit="rad"):
        return self.ctx.make_angle(name, lo, hi, 1.0 if unit == "rad" else math.pi / 180)

    def choice(self, name, options):
        options = list(options)
        s = self.ctx.new_var(name, 0, len(options) - 1, sort="int")
        self.ctx.inputs[name] = s.n.a
        for i in range(len(options) - 1):
            if s == i:
                return options[i]
        return options[-1]

    def flag(self, name):
        return self.choice(name, [False, True])

    # -- logic
    def assume(self, c):
        if type(c) is not SymBool:
            if not c:
                raise PathEnd("assumption")
            return
        z, vs = self.ctx.cond_z3(c)
        zs = z3.simplify(z)
        if z3.is_true(zs):
            return
        if z3.is_false(zs) or not self.ctx.feasible(z, vs):
            raise PathEnd("assumption")
        self.ctx.add_pc(c)

    def observe(self, name, v):
        self.observed[name] = v

    def check(self, label, cond, msg=""):
        run = self.run
        st = run.checks.setdefault(label, [0, 0])
        st[1] += 1
        run.reached.add(label)
        if type(cond) is not SymBool:
            if cond:
                st[0] += 1
                return
            self._decide(label, st, [None], msg)
            return
        self._decide(label, st, [cond.negate()], msg)

    def _decide(self, label, st, negs, msg):
        """negs: conditions, each of which would be a violation"""
        ctx, run = self.ctx, self.run
        ok = True
        for neg in negs:
            if neg is False:
                continue
            if neg is None or neg is True:
                z, vs = None, frozenset()
            else:
                z, vs = ctx.cond_z3(neg)
                zs = z3.simplify(z)
                if z3.is_false(zs):
                    run.stats.by_normal_form += 1
                    continue
            r = self._refute(label, z, vs, msg)
            if r != "unsat":
                ok = False
                break
        if ok:
            st[0] += 1

    def _refute(self, label, z, vs, msg):
        ctx, run = self.ctx, self.run
        if z is not None:
            (r, m), comp = ctx.query(z, vs, run.query_ms)
            if r == "unknown":
                cons, _ = ctx.slice(vs)
                r2 = solve_cvc5(cons + [z], run.query_ms, run.stats)
                if r2 == "unsat":
                    return "unsat"
                return self._falsify(label, z, vs, msg)
            if r == "unsat":
                return "unsat"
        res = run.candidate(ctx, label, z, vs, msg)
        if isinstance(res, tuple):
            res = self._refine(label, z, vs, msg, res)
        return res

    def _refine(self, label, z, vs, msg, res):
        """spurious model: tighten transcendental functions at the model point, retry"""
        ctx, run = self.ctx, self.run
        for _ in range(run.opts.get("refine", 25)):
            _, vals, cres = res
            added = ctx.refine_funs(vals)
            if not added:
                break
            if z is None:
                r = "sat"
            else:
                (r, m), comp = ctx.query(z, vs, run.query_ms)
            if r == "unsat":
                return "unsat"
            if r == "unknown":
                return self._falsify(label, z, vs, msg)
            res = run.candidate(ctx, label, z, vs, msg)
            if not isinstance(res, tuple):
                return res
        run.inconclusive.append(f"{label}: model did not reproduce {res[1]} {msg[:150]}")
        return "unknown"

    def _falsify(self, label, z, vs, msg):
        """solver gave up on the full domain: decide slices where all but two
        inputs are fixed at a path model, to find a counterexample if one is near"""
        ctx, run = self.ctx, self.run
        r, vals = ctx.model(None, frozenset(), 5000)
        if r == "sat" and vals:
            names = [n for n in ctx.inputs if ctx.inputs[n] in ctx.slice(vs)[1]]
            for free in names[:8]:
                extra = []
                for n in names:
                    if n == free or n not in vals or ctx.inputs[n] in ctx.angles:
                        continue
                    extra.append(ctx.zvar(ctx.inputs[n]) == engine.z3q(core.to_frac(vals[n])))
                cons, _ = ctx.slice(vs)
                rr, m = solve(cons + [z] + extra, 3000, run.stats)
                if rr == "sat":
                    zz = z3.And(z, *extra) if extra else z
                    res = run.candidate(ctx, label, zz, vs, msg)
                    if res == "sat":
                        return res
        run.inconclusive.append(f"{label}: solver returned unknown {msg[:150]}")
        return "unknown"

    def _cmp(self, label, a, b, kind, rel, abs_, scale, **k):
        rel = self.TOL if rel is None else rel
        abs_ = 1e-9 if abs_ is None else abs_
        run = self.run
        st = run.checks.setdefault(label, [0, 0])
        st[1] += 1
        run.reached.add(label)
        if type(a) is not Sym and type(b) is not Sym and type(scale) is not Sym:
            bad = _num_bad(a, b, kind, rel, abs_, scale)
            if bad is None:
                self._decide(label, st, [None], f"{a!r} vs {b!r}")
            elif bad:
                self._decide(label, st, [None], f"{a} vs {b}")
            else:
                st[0] += 1
            return
        for x in (a, b):
            if type(x) is not Sym and (x is None or isinstance(x, (str, list, tuple)) or x != x):
                self._decide(label, st, [None], f"{a!r} vs {b!r}")
                return
        d = a - b
        if kind == "eq" and type(d) is Sym:
            # cheap exact attempt
            try:
                c0 = s_cmp("!=", a, b) if type(a) is Sym else s_cmp("!=", b, a)
                if c0 is False:
                    st[0] += 1
                    return
                if c0 is not True:
                    z, vs = self.ctx.cond_z3(c0)
                    if z3.is_false(z3.simplify(z)):
                        run.stats.by_normal_form += 1
                        st[0] += 1
                        return
            except core.TooBig:
                pass
        tiny = 0
        d0 = d
        if kind == "eq" and type(d) is Sym:
            st_ = self.ctx.split_tiny(a, b)
            d0 = d
            if st_ is not None:
                d, tiny = st_
        negs = []
        sides = [1, -1] if kind == "eq" else [1]
        if scale is not None:
            tols = [(None, rel * scale + abs_)]
        elif type(b) is Sym and rel:
            lo, hi = b.n.iv
            if lo >= 0 or (hi > 0 and self.ctx.box_nonneg(b)):
                tols = [(None, rel * b + abs_)]
            elif hi <= 0:
                tols = [(None, -rel * b + abs_)]
            else:
                tols = [(b >= 0, rel * b + abs_), (b <= 0, -rel * b + abs_)]
        else:
            bb = abs(b) if type(b) is not Sym else 0
            tols = [(None, rel * bb + abs_)]
        for sgn in sides:
            for g, t in tols:
                tlo = t.n.iv[0] if type(t) is Sym else float(t)
                if tiny and tlo > 2 * tiny:
                    if type(d) is not Sym:
                        continue
                    c = (d * sgn + tiny) > t
                else:
                    c = (d0 * sgn) > t
                if type(c) is SymBool and c.kind == "cmp" and c.op == ">" and \
                        self.ctx.box_nonneg(Sym(c.b) - Sym(c.a)):
                    run.stats.by_normal_form += 1
                    continue
                if g is not None and type(g) is SymBool:
                    c = (g & c) if type(c) is SymBool else (g if c else False)
                negs.append(c)
        self._decide(label, st, negs, f"{kind} violated")

    def absval(self, x):
        return core.s_abs(x)


def _num_bad(a, b, kind, rel, abs_, scale):
    try:
        if a is None or b is None:
            return None
        s = abs(b) if scale is None else scale
        if math.isinf(a) or math.isinf(b):
            return not (a == b if kind == "eq" else a <= b)
        if a != a or b != b:
            return True
        t = rel * s + abs_
        return not (abs(a - b) <= t) if kind == "eq" else not (a - b <= t)
    except TypeError:
        return None


class CH(Base):
    """concrete harness: the same harness on real numbers, real code"""
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.failed = {}
        self.passed = set()
        self.observed = {}

    def real(self, name, lo, hi):
        if lo == hi:
            return lo
        return float(self.vals.get(name, (lo + hi) / 2))

    def int(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    def angle(self, name, lo, hi, unit="rad"):
        return float(self.vals.get(name, (lo + hi) / 2))

    def choice(self, name, options):
        return list(options)[int(self.vals.get(name, 0))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise Skip()

    def observe(self, name, v):
        try:
            self.observed[name] = float(v)
        except (TypeError, ValueError):
            pass

    def check(self, label, cond, msg=""):
        if not cond:
            self.failed.setdefault(label, msg or "condition false")
        else:
            self.passed.add(label)

    def _cmp(self, label, a, b, kind, rel, abs_, scale, **k):
        rel = self.TOL if rel is None else rel
        abs_ = 1e-9 if abs_ is None else abs_
        bad = _num_bad(a, b, kind, rel * 0.5, abs_ * 0.5, scale)
        if bad is None or bad:
            self.failed.setdefault(label, f"{a!r} {'!=' if kind == 'eq' else '>'} {b!r}")
        else:
            self.passed.add(label)

    def absval(self, x):
        return abs(x)
