"""Symbolic values for running the *unmodified* metku functions on solver terms.

A `Sym` is a node of an expression DAG over real variables.  Arithmetic builds
nodes, comparisons build `SymBool`s, and taking the truth value of a `SymBool`
asks the current exploration (`symx.explore`) which way to go: the engine
re-executes the harness once per feasible combination of answers, so every
`if` of the code under test becomes a case split whose condition is part of
the path condition handed to the SMT solver.
"""
from __future__ import annotations

import math
import numpy as np
import numbers
from fractions import Fraction

import z3

INF = float("inf")


class EngineError(BaseException):
    """The encoding, not the code under test, cannot continue."""


class PathEnd(BaseException):
    """This path is finished (infeasible assumption)."""


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
_frac_cache = {}


def to_frac(x):
    """Exact rational of a Python number; floats are read as the decimal that
    repr() prints, which is what the source text says."""
    if isinstance(x, Fraction):
        return x
    if type(x) is bool:
        return Fraction(int(x))
    if type(x) is int:
        return Fraction(x)
    key = float(x)
    r = _frac_cache.get(key)
    if r is None:
        if math.isinf(key) or math.isnan(key):
            raise EngineError(f"non-finite number {key}")
        t = repr(key)
        r = Fraction(t)
        if sum(ch.isdigit() for ch in t.split("e")[0]) >= 14:
            # a rounded quotient such as 1/12: use the quotient
            q = r.limit_denominator(20000)
            if q.denominator < 20000 and abs(q) < 10 ** 6 and float(q) == key:
                r = q
        _frac_cache[key] = r
    return r


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not type(x) is Sym or \
        (hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype != object)


# --------------------------------------------------------------------------
# polynomials:  {monomial: Fraction},  monomial = ((varid, exp), ...) sorted
# --------------------------------------------------------------------------
class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("t",)
    LIMIT = 20000

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        return Poly({(): c} if c != 0 else {})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        if k == 0:
            return Poly()
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o, ctx):
        if len(self.t) * len(o.t) > Poly.LIMIT:
            raise TooBig()
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, reducible = _mono_mul(m1, m2, ctx)
                c = c1 * c2
                if reducible:
                    extra.append((m, c))
                else:
                    n = r.get(m, 0) + c
                    if n == 0:
                        r.pop(m, None)
                    else:
                        r[m] = n
        p = Poly(r)
        for m, c in extra:
            p = p + _reduce_mono(m, c, ctx)
            if len(p.t) > Poly.LIMIT:
                raise TooBig()
        return p

    def pow(self, n, ctx):
        r = Poly.const(Fraction(1))
        for _ in range(n):
            r = r.mul(self, ctx)
        return r

    def key(self):
        return tuple(sorted(self.t.items()))

    def content(self):
        """scale so that the coefficients are coprime integers (positive factor)"""
        if not self.t:
            return self
        den = 1
        for c in self.t.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in self.t.values():
            g = math.gcd(g, abs(c.numerator * (den // c.denominator)))
        return self.scale(Fraction(den, g))


def _mono_mul(m1, m2, ctx):
    d = dict(m1)
    red = False
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    for v, e in d.items():
        if e >= 2 and v in ctx.sq:
            red = True
    return tuple(sorted(d.items())), red


def _reduce_mono(m, c, ctx):
    p = Poly({(): c})
    rest = []
    for v, e in m:
        if e >= 2 and v in ctx.sq:
            sq = ctx.sq[v]
            for _ in range(e // 2):
                p = p.mul(sq, ctx)
            if e % 2:
                rest.append((v, 1))
        else:
            rest.append((v, e))
    return p.mul(Poly({tuple(rest): Fraction(1)}), ctx)


# --------------------------------------------------------------------------
# intervals (float, rounded outwards)
# --------------------------------------------------------------------------
def _dn(x):
    return x if x in (INF, -INF) or x == 0 else math.nextafter(math.nextafter(x, -INF), -INF)


def _up(x):
    return x if x in (INF, -INF) or x == 0 else math.nextafter(math.nextafter(x, INF), INF)


def _xmul(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def iv_add(a, b):
    return (_dn(a[0] + b[0]), _up(a[1] + b[1]))


def iv_mul(a, b):
    c = [_xmul(a[0], b[0]), _xmul(a[0], b[1]), _xmul(a[1], b[0]), _xmul(a[1], b[1])]
    return (_dn(min(c)), _up(max(c)))


def iv_div(a, b):
    if b[0] <= 0 <= b[1]:
        return (-INF, INF)
    inv = (_dn(1 / b[1]) if b[1] not in (INF, -INF) else 0.0,
           _up(1 / b[0]) if b[0] not in (INF, -INF) else 0.0)
    return iv_mul(a, inv)


def iv_pow(a, n):
    if n % 2 == 0 and a[0] <= 0 <= a[1]:
        m = max(-a[0], a[1])
        return (0.0, _up(_up(m ** n)) if m != INF else INF)
    try:
        c = sorted((a[0] ** n, a[1] ** n))
    except OverflowError:
        return (-INF, INF)
    return (_dn(_dn(c[0])), _up(_up(c[1])))


# --------------------------------------------------------------------------
# DAG
# --------------------------------------------------------------------------
class Node:
    __slots__ = ("op", "a", "b", "iv", "ctx", "_rat", "_z", "nid")

    def __init__(self, ctx, op, a, b, iv):
        self.ctx = ctx
        self.op = op
        self.a = a
        self.b = b
        self.iv = iv
        self._rat = None
        self._z = None


def _wrap(v):
    return Sym(v)


def _each(f, a):
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        fl[i] = f(v)
    return out


def _eachb(f, a):
    out = np.empty(a.shape, dtype=bool)
    fl = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        fl[i] = bool(f(v))
    return out


class Sym:
    """A symbolic real.  Presents itself as a float to isinstance()."""
    __slots__ = ("n",)
    __class__ = property(lambda self: float)
    __array_priority__ = 1000

    def __init__(self, n):
        object.__setattr__(self, "n", n)

    # -- construction ------------------------------------------------------
    @property
    def ctx(self):
        return self.n.ctx

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: v + self, o)
        return s_add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: self - v, o)
        r = s_neg(o)
        return r if r is NotImplemented else s_add(self, r)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: v - self, o)
        return s_add(s_neg(self), o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: v * self, o)
        return s_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: self / v, o)
        return s_div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _each(lambda v: v / self, o)
        return s_div(o, self)

    def __floordiv__(self, o):
        return s_floor(s_div(self, o))

    def __rfloordiv__(self, o):
        return s_floor(s_div(o, self))

    def __mod__(self, o):
        if _kind(o) is None:
            return NotImplemented
        return self - o * s_floor(s_div(self, o))

    def __rmod__(self, o):
        if _kind(o) is None:
            return NotImplemented
        return o - self * s_floor(s_div(o, self))

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __pow__(self, o, mod=None):
        return s_pow(self, o)

    def __rpow__(self, o):
        return s_pow(o, self)

    # -- comparisons -------------------------------------------------------
    def __lt__(self, o):
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp("<", self, v), o)
        return s_cmp("<", self, o)

    def __le__(self, o):
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp("<=", self, v), o)
        return s_cmp("<=", self, o)

    def __gt__(self, o):
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp(">", self, v), o)
        return s_cmp(">", self, o)

    def __ge__(self, o):
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp(">=", self, v), o)
        return s_cmp(">=", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return False
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp("==", self, v), o)
        return s_cmp("==", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return True
        if isinstance(o, np.ndarray):
            return _eachb(lambda v: s_cmp("!=", self, v), o)
        return s_cmp("!=", self, o)

    def __bool__(self):
        return bool(s_cmp("!=", self, 0))

    def __hash__(self):
        v = self.ctx.unique_value(self)
        if v is not None:
            return hash(v)
        return hash(("Sym", id(self.n)))

    # -- conversions -------------------------------------------------------
    def __float__(self):
        v = self.ctx.unique_value(self)
        if v is not None:
            return float(v)
        raise EngineError("symbolic value forced to a concrete float")

    def __int__(self):
        return self.ctx.split_int(self, "trunc")

    __trunc__ = __int__

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __floor__(self):
        return self.ctx.split_int(self, "floor")

    def __ceil__(self):
        return self.ctx.split_int(self, "ceil")

    def __round__(self, n=None):
        return s_round(self, n)

    def is_integer(self):
        return bool(self == s_floor(self))

    # -- numpy object-array hooks -------------------------------------------
    def sqrt(self):
        return s_sqrt(self)

    def sin(self):
        return s_trig(self)[1]

    def cos(self):
        return s_trig(self)[0]

    def tan(self):
        c, s = s_trig(self)
        return s / c

    def exp(self):
        return s_fun("exp", self)

    def log(self):
        return s_fun("log", self)

    def log10(self):
        return s_fun("log", self) / math.log(10)

    def arctan(self):
        return s_fun("atan", self)

    def arccos(self):
        return s_fun("acos", self)

    def arcsin(self):
        return s_fun("asin", self)

    def radians(self):
        return self * (math.pi / 180)

    deg2rad = radians

    def degrees(self):
        return self / (math.pi / 180)

    rad2deg = degrees

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__


def sym_type(x):
    return type(x) is Sym


def _kind(x):
    """'s' for Sym, 'n' for plain numbers, None for anything else"""
    t = type(x)
    if t is Sym:
        return "s"
    if t is float or t is int or t is Fraction or t is bool:
        return "n"
    if isinstance(x, numbers.Number) and not isinstance(x, complex):
        return "n"
    if t is SymBool:
        return "b"
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return "n" if x.dtype != object else "o"
    return None


def _num(x):
    t = type(x)
    if t is int or t is float or t is Fraction:
        return x
    if isinstance(x, Fraction):
        return x
    if hasattr(x, "item"):
        x = x.item()
        return x
    return x


def _lift(ctx, x):
    if type(x) is Sym:
        return x.n
    x = _num(x)
    if type(x) is Sym:
        return x.n
    f = to_frac(x)
    k = ("c", f)
    n = ctx.consts.get(k)
    if n is None:
        fl = float(f)
        n = Node(ctx, "c", f, None, (_dn(fl), _up(fl)))
        if to_frac(fl) == f:
            n.iv = (fl, fl)
        ctx.consts[k] = n
    return n


def _mk(ctx, op, a, b, iv):
    k = (op, id(a), id(b) if isinstance(b, Node) else b)
    n = ctx.nodes.get(k)
    if n is None:
        n = Node(ctx, op, a, b, iv)
        ctx.nodes[k] = n
    return Sym(n)


def _special(x):
    try:
        f = float(x)
    except (TypeError, OverflowError):
        return None
    if math.isinf(f) or math.isnan(f):
        return f
    return None


def s_neg(x):
    k = _kind(x)
    if k == "n":
        return -_num(x)
    if k != "s":
        return -x if k is None and hasattr(x, "__neg__") else NotImplemented
    return s_mul(-1, x)


def s_add(x, o):
    k = _kind(o)
    if k == "b":
        o = o.as_num()
        k = _kind(o)
    if k is None or k == "o":
        return NotImplemented
    if k == "n":
        o = _num(o)
        sp = _special(o)
        if sp is not None:
            return sp
        if o == 0:
            return x
    if _kind(x) == "n":
        x, o = o, x
    if type(x) is not Sym:
        return x + o
    ctx = x.n.ctx
    a, b = x.n, _lift(ctx, o)
    return _mk(ctx, "+", a, b, iv_add(a.iv, b.iv))


def s_mul(x, o):
    k = _kind(o)
    if k == "b":
        o = o.as_num()
        k = _kind(o)
    if k is None or k == "o":
        return NotImplemented
    if _kind(x) == "n":
        x, o = o, x
        k = _kind(o)
    if k == "n":
        o = _num(o)
        if type(x) is not Sym:
            return x * o
        sp = _special(o)
        if sp is not None:
            if sp != sp:
                return sp
            if x > 0:
                return sp
            if x < 0:
                return -sp
            return float("nan")
        if o == 0:
            return 0.0
        if o == 1:
            return x
    ctx = x.n.ctx
    a, b = x.n, _lift(ctx, o)
    iv = iv_pow(a.iv, 2) if a is b else iv_mul(a.iv, b.iv)
    return _mk(ctx, "*", a, b, iv)


def s_div(x, o):
    kx, ko = _kind(x), _kind(o)
    if kx is None or ko is None or "o" in (kx, ko):
        return NotImplemented
    if kx == "b":
        x = x.as_num()
    if ko == "b":
        o = o.as_num()
    ctx = (x if type(x) is Sym else o).n.ctx
    if _kind(o) == "n":
        o = _num(o)
        sp = _special(o)
        if sp is not None:
            return 0.0 if not sp != sp else sp
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        if o == 1:
            return x
    else:
        if o.n.iv[0] <= 0 <= o.n.iv[1]:
            if o == 0:
                raise ZeroDivisionError("float division by zero")
    if _kind(x) == "n":
        x = _num(x)
        sp = _special(x)
        if sp is not None:
            return sp if o > 0 else -sp
        if x == 0:
            return 0.0
    a, b = _lift(ctx, x), _lift(ctx, o)
    if a is b:
        return 1.0
    return _mk(ctx, "/", a, b, iv_div(a.iv, b.iv))


def s_pow(x, o):
    kx, ko = _kind(x), _kind(o)
    if kx is None or ko is None:
        return NotImplemented
    if ko == "s":
        v = o.ctx.unique_value(o)
        if v is not None:
            o = v
        else:
            # x**y = exp(y*log x)
            if _kind(x) == "n" and _num(x) == 1:
                return 1.0
            return s_fun2("pow", x, o)
    o = _num(o)
    if _kind(x) == "n":
        return _num(x) ** o
    f = to_frac(o)
    if f.denominator == 1:
        n = int(f)
        if n == 0:
            return 1.0
        if n < 0:
            return s_div(1.0, s_pow(x, -n))
        if n == 1:
            return x
        ctx = x.n.ctx
        return _mk(ctx, "^", x.n, n, iv_pow(x.n.iv, n))
    if f.denominator == 2 and abs(f.numerator) < 12:
        return s_pow(s_sqrt(x, "pow"), f.numerator)
    return s_root(x, f)


# --------------------------------------------------------------------------
# comparisons
# --------------------------------------------------------------------------
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


class SymBool:
    """A condition.  kind 'cmp' compares node a with node b; 'and'/'or' combine."""
    __slots__ = ("ctx", "kind", "op", "a", "b", "_z")
    __class__ = property(lambda self: bool)

    def __init__(self, ctx, kind, op, a, b):
        self.ctx, self.kind, self.op, self.a, self.b = ctx, kind, op, a, b
        self._z = None

    def __bool__(self):
        return self.ctx.decide(self)

    def negate(self):
        if self.kind == "cmp":
            return SymBool(self.ctx, "cmp", _NEG[self.op], self.a, self.b)
        return SymBool(self.ctx, "or" if self.kind == "and" else "and", None,
                       _bneg(self.a), _bneg(self.b))

    def __and__(self, o):
        if isinstance(o, bool) and type(o) is not SymBool:
            return self if o else False
        if type(o) is not SymBool:
            return self if bool(o) else False
        return SymBool(self.ctx, "and", None, self, o)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is not SymBool:
            return True if bool(o) else self
        return SymBool(self.ctx, "or", None, self, o)

    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def as_num(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_num() * o

    __rmul__ = __mul__

    def __int__(self):
        return self.as_num()

    def __index__(self):
        return self.as_num()

    def __float__(self):
        return float(self.as_num())

    def __repr__(self):
        return "<symbool>"


def _bneg(x):
    return x.negate() if type(x) is SymBool else (not x)


def quick(op, iva, ivb):
    """decide a comparison by intervals: True/False/None"""
    if op == "<":
        if iva[1] < ivb[0]:
            return True
        if iva[0] >= ivb[1]:
            return False
    elif op == "<=":
        if iva[1] <= ivb[0]:
            return True
        if iva[0] > ivb[1]:
            return False
    elif op == ">":
        return quick("<", ivb, iva)
    elif op == ">=":
        return quick("<=", ivb, iva)
    elif op == "==":
        if iva[1] < ivb[0] or iva[0] > ivb[1]:
            return False
    elif op == "!=":
        r = quick("==", iva, ivb)
        return None if r is None else not r
    return None


def s_cmp(op, x, o):
    k = _kind(o)
    if k == "b":
        o = o.as_num()
        k = "n"
    if k is None or k == "o":
        return NotImplemented
    if type(x) is not Sym:
        return s_cmp(_SWAP[op], o, x)
    ctx = x.n.ctx
    if k == "n":
        o = _num(o)
        sp = _special(o)
        if sp is not None:
            if sp != sp:
                return op == "!="
            return {"<": sp > 0, "<=": sp > 0, ">": sp < 0, ">=": sp < 0, "==": False, "!=": True}[op]
    a, b = x.n, _lift(ctx, o)
    if a is b:
        return op in ("<=", ">=", "==")
    q = quick(op, a.iv, b.iv)
    if q is not None:
        return q
    return SymBool(ctx, "cmp", op, a, b)


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def s_abs(x):
    if type(x) is not Sym:
        return abs(x)
    if x.n.iv[0] >= 0:
        return x
    if x.n.iv[1] <= 0:
        return -x
    return x if x >= 0 else -x


def s_sqrt(x, how="sqrt"):
    if type(x) is not Sym:
        return math.sqrt(x)
    ctx = x.n.ctx
    v = ctx.const_of(x)
    if v is not None:
        if v < 0:
            raise ValueError("math domain error")
        return v ** 0.5 if type(v) is float else _orig_sqrt(float(v))
    if x.n.iv[0] < 0:
        if x < 0:
            if how == "sqrt":
                raise ValueError("math domain error")
            raise EngineError("fractional power of a negative number (complex)")
    return ctx.sqrt_of(x)


_orig_sqrt = math.sqrt


def s_root(x, f):
    """x**f, f a non-integer rational: fresh y >= 0 with y**q = x**p"""
    if type(x) is not Sym:
        return float(x) ** float(f)
    ctx = x.n.ctx
    if x.n.iv[0] < 0 and x < 0:
        raise EngineError("fractional power of a negative number (complex)")
    return ctx.root_of(x, f)


def s_trig(x):
    """(cos, sin) of a symbolic angle in radians"""
    return x.n.ctx.trig_of(x)


def s_fun(name, x):
    if type(x) is not Sym:
        return getattr(math, name)(x)
    return x.n.ctx.fun_of(name, x)


def s_fun2(name, x, y):
    ctx = (x if type(x) is Sym else y).n.ctx
    return ctx.fun_of(name, x, y)


def s_floor(x):
    if type(x) is not Sym:
        return math.floor(x)
    return x.n.ctx.floor_of(x)


def s_round(x, n=None):
    if type(x) is not Sym:
        return round(x, n) if n is not None else round(x)
    return x.n.ctx.round_of(x, n)


def s_max(a, b):
    return a if bool(a >= b) else b


def s_min(a, b):
    return a if bool(a <= b) else b
