"""Installed before metku is imported in a symbolic worker: `math` functions
accept symbolic arguments, and the numpy functions metku calls build object
arrays while a symbolic run is active.  Concrete arguments always go to the
original function, and nothing is patched in the replay process."""
from __future__ import annotations

import math
import sys

import numpy as np

from . import core
from .core import EngineError, Sym, SymBool

ACTIVE = [None]          # current Ctx


def _sym(x):
    return type(x) is Sym


def _has_sym(a):
    if type(a) is Sym:
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_has_sym(x) for x in a)
    return False


def _caller_metku(depth=2):
    f = sys._getframe(depth)
    n = f.f_globals.get("__name__", "")
    return n.startswith("metku") or n.startswith("harness")


class Wrap:
    """callable replacement that still answers for the original's attributes"""

    def __init__(self, f, orig):
        self.__dict__["f"] = f
        self.__dict__["o"] = orig
        self.__dict__["__name__"] = getattr(orig, "__name__", "f")
        self.__dict__["__doc__"] = getattr(orig, "__doc__", "")

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __getattr__(self, k):
        return getattr(self.o, k)


def install():
    _install_math()
    _install_numpy()


# ------------------------------------------------------------------ math
def _install_math():
    m = math
    orig = {k: getattr(m, k) for k in dir(m)}
    core._orig_sqrt = orig["sqrt"]

    def wrap1(name, sf):
        of = orig[name]

        def f(x):
            if type(x) is Sym:
                return sf(x)
            if type(x) is SymBool:
                x = x.as_num()
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                return f(x.reshape(-1)[0])
            return of(x)
        f.__name__ = name
        setattr(m, name, f)
        return f

    wrap1("sqrt", core.s_sqrt)
    wrap1("sin", lambda x: core.s_trig(x)[1])
    wrap1("cos", lambda x: core.s_trig(x)[0])
    wrap1("tan", lambda x: x.tan())
    wrap1("radians", lambda x: x * (orig["pi"] / 180))
    wrap1("degrees", lambda x: x / (orig["pi"] / 180))
    wrap1("exp", lambda x: core.s_fun("exp", x))
    wrap1("tanh", lambda x: core.s_fun("tanh", x))
    wrap1("sinh", lambda x: core.s_fun("sinh", x))
    wrap1("acos", lambda x: x.arccos())
    wrap1("asin", lambda x: x.arcsin())
    wrap1("atan", lambda x: x.arctan())
    wrap1("log10", lambda x: core.s_fun("log", x) / orig["log"](10))
    wrap1("fabs", core.s_abs)
    wrap1("floor", lambda x: x.__floor__())
    wrap1("ceil", lambda x: x.__ceil__())
    wrap1("trunc", lambda x: x.__int__())
    wrap1("isnan", lambda x: False)
    wrap1("isinf", lambda x: False)
    wrap1("isfinite", lambda x: True)

    olog = orig["log"]

    def log(x, *b):
        if type(x) is Sym or any(type(y) is Sym for y in b):
            r = core.s_fun("log", x) if type(x) is Sym else olog(x)
            if b:
                d = core.s_fun("log", b[0]) if type(b[0]) is Sym else olog(b[0])
                return r / d
            return r
        return olog(x, *b)
    m.log = log

    opow = orig["pow"]

    def pow_(x, y):
        if type(x) is Sym or type(y) is Sym:
            return x ** y
        return opow(x, y)
    m.pow = pow_

    ohyp = orig["hypot"]

    def hypot(*a):
        if any(type(x) is Sym for x in a):
            return core.s_sqrt(sum(x * x for x in a))
        return ohyp(*a)
    m.hypot = hypot

    oat2 = orig["atan2"]

    def atan2(y, x):
        if type(x) is Sym or type(y) is Sym:
            return s_atan2(y, x)
        return oat2(y, x)
    m.atan2 = atan2

    oisc = orig["isclose"]

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if type(a) is Sym or type(b) is Sym:
            d = abs(a - b)
            aa, bb = abs(a), abs(b)
            big = core.s_max(aa, bb)
            t = core.s_max(rel_tol * big, abs_tol)
            return bool(d <= t)
        return oisc(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.isclose = isclose

    ocs = orig["copysign"]

    def copysign(a, b):
        if type(a) is Sym or type(b) is Sym:
            r = core.s_abs(a)
            return r if b >= 0 else -r
        return ocs(a, b)
    m.copysign = copysign

    ofmod = orig["fmod"]

    def fmod(a, b):
        if type(a) is Sym or type(b) is Sym:
            q = a / b
            return a - b * (core.s_floor(q) if q >= 0 else -core.s_floor(-q))
        return ofmod(a, b)
    m.fmod = fmod
    ofs = orig["fsum"]

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if any(type(x) is Sym for x in xs) else ofs(xs)
    m.fsum = fsum
    opr = orig["prod"]

    def prod(xs, *, start=1):
        xs = list(xs)
        if any(type(x) is Sym for x in xs):
            r = start
            for x in xs:
                r = r * x
            return r
        return opr(xs, start=start)
    m.prod = prod
    odist = orig["dist"]

    def dist(p, q):
        p, q = list(p), list(q)
        if any(type(x) is Sym for x in p + q):
            return core.s_sqrt(sum((a - b) * (a - b) for a, b in zip(p, q)))
        return odist(p, q)
    m.dist = dist


def s_atan2(y, x):
    if x > 0:
        return math.atan(y / x)
    if x < 0:
        a = math.atan(y / x)
        return a + math.pi if y >= 0 else a - math.pi
    if y > 0:
        return math.pi / 2
    if y < 0:
        return -math.pi / 2
    return 0.0


# ------------------------------------------------------------------ numpy
def _elem(f):
    """apply f to every element"""
    def g(a):
        if isinstance(a, (list, tuple)):
            a = _arr(a)
        if isinstance(a, np.ndarray):
            out = np.empty(a.shape, dtype=object)
            fo, fi = out.reshape(-1), a.reshape(-1)
            for i in range(fi.size):
                fo[i] = f(fi[i])
            return out if a.shape != () else out.item()
        return f(a)
    return g


_orig_array = np.array


def _arr(a):
    return _orig_array(a, dtype=object)


def _isfloat_dtype(dt):
    if dt is None:
        return True
    if dt is float or dt is Sym:
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


def _install_numpy():
    o = {k: getattr(np, k) for k in dir(np) if not k.startswith("__")}

    def put(name, f):
        setattr(np, name, Wrap(f, o[name]) if isinstance(o[name], np.ufunc) else f)

    def on():
        return ACTIVE[0] is not None and _caller_metku(3)

    def zeros(shape, dtype=float, *a, **k):
        r = o["zeros"](shape, dtype, *a, **k)
        if on() and _isfloat_dtype(dtype):
            return _zero_obj(r)
        return r
    np.zeros = zeros

    def _zero_obj(r):
        out = r.astype(object)
        return out

    def ones(shape, dtype=None, *a, **k):
        r = o["ones"](shape, dtype, *a, **k)
        return r.astype(object) if on() and _isfloat_dtype(dtype) else r
    np.ones = ones

    def empty(shape, dtype=float, *a, **k):
        if on() and _isfloat_dtype(dtype):
            return o["zeros"](shape).astype(object)
        return o["empty"](shape, dtype, *a, **k)
    np.empty = empty

    def full(shape, v, dtype=None, *a, **k):
        if on() and _isfloat_dtype(dtype):
            return o["full"](shape, v, dtype=object)
        return o["full"](shape, v, dtype, *a, **k)
    np.full = full

    def like(name):
        of = o[name]

        def f(a, *args, **k):
            if on():
                if name == "full_like":
                    return of(_arr(a), *args, dtype=object)
                r = of(o["zeros"](np.shape(a)))
                return r.astype(object)
            return of(a, *args, **k)
        put(name, f)
    for nm in ("zeros_like", "ones_like", "full_like"):
        like(nm)

    def eye(*a, **k):
        r = o["eye"](*a, **k)
        return r.astype(object) if on() else r
    np.eye = eye

    def identity(*a, **k):
        r = o["identity"](*a, **k)
        return r.astype(object) if on() else r
    np.identity = identity

    def linspace(a, b, num=50, *args, **k):
        if on() and (_sym(a) or _sym(b)):
            ep = k.get("endpoint", True)
            div = (num - 1) if ep else num
            return _arr([a + (b - a) * (i / div) for i in range(num)])
        r = o["linspace"](a, b, num, *args, **k)
        return r
    np.linspace = linspace

    def arraylike(name):
        of = o[name]

        def f(a, *args, **k):
            if ACTIVE[0] is not None:
                if _has_sym(a):
                    k.pop("dtype", None)
                    if args and _isfloat_dtype(args[0]):
                        args = args[1:]
                    if name == "array" or not isinstance(a, np.ndarray):
                        return _orig_array(a, dtype=object)
                    return a
                if _caller_metku():
                    r = of(a, *args, **k)
                    if isinstance(r, np.ndarray) and r.dtype.kind == "f":
                        return r.astype(object)
                    return r
            return of(a, *args, **k)
        put(name, f)
    for nm in ("array", "asarray", "asfarray"):
        if nm in o:
            arraylike(nm)

    def un(name, f):
        of = o[name]
        ef = _elem(f)

        def g(a, *args, **k):
            if ACTIVE[0] is not None and _has_sym(a):
                return ef(a)
            return of(a, *args, **k)
        g.__name__ = name
        put(name, g)

    un("sqrt", lambda x: math.sqrt(x))
    un("sin", lambda x: math.sin(x))
    un("cos", lambda x: math.cos(x))
    un("tan", lambda x: math.tan(x))
    un("exp", lambda x: math.exp(x))
    un("log", lambda x: math.log(x))
    un("log10", lambda x: math.log10(x))
    un("tanh", lambda x: math.tanh(x))
    un("arctan", lambda x: math.atan(x))
    un("arccos", lambda x: math.acos(x))
    un("arcsin", lambda x: math.asin(x))
    un("radians", lambda x: math.radians(x))
    un("deg2rad", lambda x: math.radians(x))
    un("degrees", lambda x: math.degrees(x))
    un("rad2deg", lambda x: math.degrees(x))
    un("abs", core.s_abs)
    un("absolute", core.s_abs)
    un("fabs", core.s_abs)
    un("sign", lambda x: 1.0 if x > 0 else (-1.0 if x < 0 else 0.0))
    un("floor", lambda x: math.floor(x))
    un("ceil", lambda x: math.ceil(x))
    un("square", lambda x: x * x)
    un("isnan", lambda x: False)
    un("isinf", lambda x: False)
    un("isfinite", lambda x: True)

    def rnd(a, decimals=0, *args, **k):
        if ACTIVE[0] is not None and _has_sym(a):
            return _elem(lambda x: core.s_round(x, decimals))(a)
        return o["round"](a, decimals, *args, **k)
    np.round = np.around = rnd

    def bi(name, f):
        of = o[name]

        def g(a, b, *args, **k):
            if ACTIVE[0] is not None and (_has_sym(a) or _has_sym(b)):
                if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
                    return f(a, b)
                A, B = np.broadcast_arrays(_arr(a), _arr(b))
                out = np.empty(A.shape, dtype=object)
                for i in np.ndindex(A.shape):
                    out[i] = f(A[i], B[i])
                return out
            return of(a, b, *args, **k)
        put(name, g)
    bi("maximum", core.s_max)
    bi("minimum", core.s_min)
    bi("power", lambda a, b: a ** b)
    bi("hypot", lambda a, b: core.s_sqrt(a * a + b * b))
    bi("arctan2", s_atan2)
    bi("divide", lambda a, b: a / b)

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if ACTIVE[0] is not None and (_has_sym(a) or _has_sym(b)):
            f = lambda x, y: bool(core.s_abs(x - y) <= atol + rtol * core.s_abs(y))
            if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
                return f(a, b)
            A, B = np.broadcast_arrays(_arr(a), _arr(b))
            out = np.empty(A.shape, dtype=bool)
            for i in np.ndindex(A.shape):
                out[i] = f(A[i], B[i])
            return out
        return o["isclose"](a, b, rtol, atol, equal_nan)
    np.isclose = isclose

    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if ACTIVE[0] is not None and (_has_sym(a) or _has_sym(b)):
            return bool(o["all"](isclose(_arr(a), _arr(b), rtol, atol)))
        return o["allclose"](a, b, rtol, atol, equal_nan)
    np.allclose = allclose

    def any_(a, *args, **k):
        if ACTIVE[0] is not None and _has_sym(a):
            return any(bool(x) for x in _arr(a).reshape(-1))
        return o["any"](a, *args, **k)
    np.any = any_

    def all_(a, *args, **k):
        if ACTIVE[0] is not None and _has_sym(a):
            return all(bool(x) for x in _arr(a).reshape(-1))
        return o["all"](a, *args, **k)
    np.all = all_

    def clip(a, lo, hi, *args, **k):
        if ACTIVE[0] is not None and (_has_sym(a) or _has_sym(lo) or _has_sym(hi)):
            return np.minimum(np.maximum(a, lo), hi)
        return o["clip"](a, lo, hi, *args, **k)
    np.clip = clip

    def interp(x, xp, fp, *args, **k):
        if ACTIVE[0] is not None and (_has_sym(x) or _has_sym(xp) or _has_sym(fp)):
            return _elem(lambda v: _interp(v, list(xp), list(fp)))(x)
        return o["interp"](x, xp, fp, *args, **k)
    np.interp = interp

    def where(c, *args):
        if ACTIVE[0] is not None and _has_sym(c) and False:
            pass
        return o["where"](c, *args)

    def roots(p):
        if ACTIVE[0] is not None and _has_sym(p):
            raise EngineError("numpy.roots of symbolic coefficients")
        return o["roots"](p)
    np.roots = roots

    def cross(a, b, *args, **k):
        if ACTIVE[0] is not None and (_has_sym(a) or _has_sym(b)):
            a, b = list(a), list(b)
            if len(a) == 2:
                return a[0] * b[1] - a[1] * b[0]
            return _arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
        return o["cross"](a, b, *args, **k)
    np.cross = cross

    la = np.linalg
    lo = {k: getattr(la, k) for k in ("norm", "solve", "inv", "det", "eigvals", "eig", "eigh", "eigvalsh", "lstsq",
                                      "matrix_rank", "cond", "pinv")}

    def norm(a, ord=None, axis=None, *args, **k):
        if ACTIVE[0] is not None and _has_sym(a):
            if axis is not None:
                raise EngineError("norm with axis")
            v = _arr(a).reshape(-1)
            if ord in (None, 2, "fro"):
                return math.sqrt(sum(x * x for x in v))
            if ord == 1:
                return sum(core.s_abs(x) for x in v)
            if ord == np.inf:
                r = core.s_abs(v[0])
                for x in v[1:]:
                    r = core.s_max(r, core.s_abs(x))
                return r
            raise EngineError("norm order")
        return lo["norm"](a, ord, axis, *args, **k)
    la.norm = norm

    def solve(A, b):
        if ACTIVE[0] is not None and (_has_sym(A) or _has_sym(b)):
            return sym_solve(_arr(A), _arr(b))
        return lo["solve"](A, b)
    la.solve = solve

    def inv(A):
        if ACTIVE[0] is not None and _has_sym(A):
            A = _arr(A)
            return sym_solve(A, _arr(o["eye"](A.shape[0])))
        return lo["inv"](A)
    la.inv = inv

    def det(A):
        if ACTIVE[0] is not None and _has_sym(A):
            return sym_det(_arr(A))
        return lo["det"](A)
    la.det = det
    for nm in ("eigvals", "eig", "eigh", "eigvalsh", "lstsq", "matrix_rank", "cond", "pinv"):
        def mk(nm, of):
            def f(A, *a, **k):
                if ACTIVE[0] is not None and _has_sym(A):
                    B = _arr(A)
                    if all(_concrete(x) for x in B.reshape(-1)):
                        a2 = [x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object else x for x in a]
                        return of(_tofloat(B), *a2, **k)
                    raise EngineError(f"numpy.linalg.{nm} of symbolic matrix")
                return of(A, *a, **k)
            setattr(la, nm, f)
        mk(nm, lo[nm])
    _la_orig.update(lo)


_la_orig = {}


def _concrete(x):
    if type(x) is not Sym:
        return True
    return x.ctx.unique_value(x) is not None


def _tofloat(B):
    out = np.array([float(x) for x in B.reshape(-1)]).reshape(B.shape)
    return out.astype(float)


def _interp(v, xp, fp):
    if v <= xp[0]:
        return fp[0]
    for i in range(len(xp) - 1):
        if v <= xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
    return fp[-1]


SOLVE_HOOK = [None]


def exact_inverse(M, n, scale):
    from fractions import Fraction
    inv = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    tiny = [max(abs(x) for x in r) / 10 ** 15 for r in M]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) <= tiny[p]:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        tiny[c], tiny[p] = tiny[p], tiny[c]
        inv[c], inv[p] = inv[p], inv[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        inv[c] = [x / d for x in inv[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                inv[r] = [x - f * y for x, y in zip(inv[r], inv[c])]
    return inv


FIX = 320


def fixed_inverse(M, n, scale):
    """inverse by Gaussian elimination in fixed point arithmetic of FIX fractional bits (about 1e-96); the
    entries are rounded to 160 significant bits"""
    from fractions import Fraction
    # scaled so that the largest entry is about 1
    e = scale.numerator.bit_length() - scale.denominator.bit_length() if scale else 0
    M = [[(x.numerator << max(FIX - e, 0)) // (x.denominator << max(e - FIX, 0)) for x in row] for row in M]
    inv = [[(1 << FIX) if i == j else 0 for j in range(n)] for i in range(n)]
    tiny = [max(abs(x) for x in r) // 10 ** 15 for r in M]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) <= tiny[p]:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        tiny[c], tiny[p] = tiny[p], tiny[c]
        inv[c], inv[p] = inv[p], inv[c]
        d = M[c][c]
        mc = M[c] = [(x << FIX) // d if x else 0 for x in M[c]]
        ic = inv[c] = [(x << FIX) // d if x else 0 for x in inv[c]]
        for r in range(n):
            f = M[r][c]
            if r != c and f:
                M[r] = [x - ((f * y) >> FIX) if y else x for x, y in zip(M[r], mc)]
                inv[r] = [x - ((f * y) >> FIX) if y else x for x, y in zip(inv[r], ic)]
    big = max(abs(x) for r in inv for x in r)

    def back(x):
        if abs(x) * (1 << 200) < big:
            return Fraction(0)
        k = max(x.bit_length() - 160, 0)
        s = FIX + e - k
        x >>= k
        return Fraction(x, 1 << s) if s >= 0 else Fraction(x << -s)
    return [[back(x) for x in r] for r in inv]


def sym_solve(A, b):
    """np.linalg.solve.  A numeric, b symbolic: exact Gaussian elimination on
    rationals; A symbolic: contract stub, fresh u with A u = b."""
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    ctx = ACTIVE[0]
    vec = b.ndim == 1
    B = b.reshape(n, 1) if vec else b
    conc = all(_concrete(x) for x in A.reshape(-1))
    if conc:
        from fractions import Fraction
        M = [[core.to_frac(x if type(x) is not Sym else ctx.unique_value(x)) for x in row] for row in A]
        scale = max(abs(x) for r in M for x in r) if n else 0
        if n > 12:
            inv = fixed_inverse(M, n, scale)
        else:
            inv = exact_inverse(M, n, scale)
        out = np.empty(B.shape, dtype=object)
        for i in range(n):
            for j in range(B.shape[1]):
                acc = 0.0
                for k in range(n):
                    if inv[i][k] != 0:
                        t = B[k][j]
                        if type(t) is Sym:
                            acc = acc + t * inv[i][k]
                        elif t != 0:
                            x = core.to_frac(t) * inv[i][k]
                            acc = acc + x if type(acc) is Sym or isinstance(acc, Fraction) else core.to_frac(acc) + x
                out[i, j] = acc if type(acc) is Sym else float(acc)
        return out[:, 0] if vec else out
    out = np.empty(B.shape, dtype=object)
    for j in range(B.shape[1]):
        us = [ctx.new_var("u", None, None, kind="aux") for _ in range(n)]
        for i in range(n):
            acc = 0.0
            for k in range(n):
                a = A[i][k]
                if type(a) is Sym or a != 0:
                    acc = acc + a * us[k]
            c = core.s_cmp("==", acc, B[i][j]) if type(acc) is Sym else (acc == B[i][j])
            if type(c) is SymBool:
                z, vs = ctx.cond_z3(c)
                ctx.defs.append((z, vs))
            elif c is False or not c:
                raise np.linalg.LinAlgError("Singular matrix")
        nodesA = A
        colB = B[:, j].copy()
        memo = {}

        def mkdef(i):
            def f(ev):
                key = id(ev)
                if key not in memo:
                    num = lambda x: ev(x.n) if type(x) is Sym else float(x)
                    MA = _orig_array([[num(x) for x in r] for r in nodesA], dtype=float)
                    vb = _orig_array([num(x) for x in colB], dtype=float)
                    memo[key] = _la_orig["solve"](MA, vb)
                return float(memo[key][i])
            return f
        for i, u in enumerate(us):
            ctx.auxdef[u.n.a] = mkdef(i)
            out[i, j] = u
    ctx.used_solve_stub = True
    return out[:, 0] if vec else out


def sym_det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    r = 0.0
    for j in range(n):
        if type(A[0, j]) is not Sym and A[0, j] == 0:
            continue
        M = np.delete(np.delete(A, 0, 0), j, 1)
        r = r + (-1) ** j * A[0, j] * sym_det(M)
    return r
