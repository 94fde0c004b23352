"""Optimization: variables, problems, constraints, penalties, approximations (O01-O05)."""
import math
from unittest import mock

import numpy as np

from symx.registry import job
import metku.structures.steel.steel_member
from metku.optimization.variables import (Variable, IntegerVariable, BinaryVariable, IndexVariable,
                                          DiscreteVariable, CrossSectionVariable)
from metku.optimization.variable_group import VariableGroup, VariableTypeEnum
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization import opt_functions as of
from metku.optimization.solvers.optsolver import OptSolver


class Thing:
    """a target whose attributes are set"""
    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


def implied(a, b):
    """a => b for conditions that may be symbolic"""
    if a is True:
        return b
    if a is False:
        return True
    return ~a | b if hasattr(a, "negate") else (not a) or b


# ---------------------------------------------------------------------- O01
@job("O01", params=[dict(kind=k) for k in ("one", "list", "list fun", "single fun arg", "section", "section list")],
     bounds="values of either sign up to 1000, scaling 0.1..10, two target objects")
def targets(H, kind):
    x, s = H.real("x", -1000.0, 1000.0), H.choice("scaled", [1.0, None])
    s = H.real("s", 0.1, 10.0) if s is None else s
    a, b = Thing(A=1.0, I=2.0, other=7.0), Thing(A=3.0, I=4.0, other=8.0)
    objs = [a, b]
    if kind == "one":
        v = Variable("v", -1000.0, 1000.0, target={"property": "A", "objects": objs})
    elif kind == "single fun arg":
        v = Variable("v", -1000.0, 1000.0, target_property="A", target_object=a)
        objs = [a]
    elif kind == "list":
        v = Variable("v", -1000.0, 1000.0, target_properties=["A", "I"], target_objects=objs)
    elif kind == "list fun":
        v = Variable("v", -1000.0, 1000.0, target={"property": ["A", "I"], "objects": objs}, target_fun={"I": lambda t: 3 * t + 1})
    else:
        a, b = Thing(cross_section=Thing(A=1.0, I=2.0), A=0.5), Thing(cross_section=Thing(A=1.0, I=2.0), A=0.5)
        objs = [a, b]
        if kind == "section":
            v = CrossSectionVariable("v", -1000.0, 1000.0, target={"property": "A", "objects": objs})
        else:
            v = CrossSectionVariable("v", -1000.0, 1000.0, target={"property": ["A", "I"], "objects": objs}, target_fun={"I": lambda t: t - 2})
    if s is not 1.0:
        v.scale(s)
        H.eq("scaled lower bound", v.lb * s, -1000.0)
        H.eq("scaled upper bound", v.ub * s, 1000.0)
    lock = H.choice("lock", ["free", "locked", "locked to value", "unlocked"])
    if lock == "locked to value":
        v.lock(x)
        v.substitute(12.5)
    elif lock == "locked":
        v.substitute(4.5)
        v.lock()
        v.substitute(x)
        x = 4.5
    elif lock == "unlocked":
        v.lock(17.0)
        v.unlock()
        v.substitute(x)
    else:
        v.substitute(x)
    H.eq("value", v.value, x)
    H.same("locked", v.locked, lock.startswith("locked"))
    for i, o in enumerate(objs):
        t = o.cross_section if kind == "section" else o
        H.eq(f"A{i}", t.A, x * s, scale=1000.0)
        if kind == "list":
            H.eq(f"I{i}", t.I, x * s, scale=1000.0)
        if kind == "list fun":
            H.eq(f"I{i}", t.I, 3 * x * s + 1, scale=1000.0)
        if kind == "section list":
            H.eq(f"I{i}", t.I, x * s - 2, scale=1000.0)
        if kind in ("one", "single fun arg", "list", "list fun"):
            H.same(f"other{i}", o.other, 7.0 + i)
    H.same("nothing to violate", v.discrete_violation(x), 0)
    H.check("every value allowed", v.is_allowed_value(x))


@job("O01", bounds="catalogues of up to five entries, any index, locked or not")
def index(H):
    vals = ["IPE80", "IPE100", "HEA200", "HEB300", "X"][:H.choice("n", [2, 3, 5])]
    o, o2 = Thing(profile=None), Thing(profile=None)
    v = IndexVariable("i", values=vals, target={"property": "profile", "objects": [o, o2]})
    H.same("bounds", (v.lb, v.ub), (0, len(vals) - 1))
    i = H.int("i", 0, len(vals) - 1)
    as_float = H.flag("float")
    v.substitute(i * 1.0 if as_float else i)
    k = int(i)
    H.same("profile", (o.profile, o2.profile), (vals[k], vals[k]))
    H.same("value", (int(v.value), int(v.idx)), (k, k))
    j = H.choice("j", range(len(vals)))
    v.lock()
    v.substitute(j)
    H.same("locked", (o.profile, int(v.idx)), (vals[k], k))
    v.unlock()
    v.lock(j)
    H.same("locked to value", (o.profile, int(v.idx)), (vals[j], j))


@job("O01", bounds="member and profile existence variables, both values")
def binary(H):
    sec = object()
    o = Thing(profile="old", active=True)
    v = BinaryVariable("b", section=sec, target={"property": H.choice("p", ["profile", "member"]), "objects": [o]})
    H.same("bounds", (v.lb, v.ub), (0, 1))
    x = H.choice("x", [0, 1])
    v.substitute(x)
    H.same("value", v.value, x)
    H.same("profile", o.profile is sec, x == 1 and v.target["property"] == "profile")
    H.same("member active", o.active, not (x == 0 and v.target["property"] == "member"))
    y = H.choice("then", [0, 1])
    v.substitute(y)
    H.same("member active again", o.active, y == 1 or v.target["property"] != "member")


@job("O01", params=[dict(kind=k, single=s) for k in ("CONTINUOUS", "DISCRETE", "INDEX") for s in (0, 1) if (k, s) != ("INDEX", 0)],
     bounds="one to three attributes of one or two objects, any bounds, any values within them")
def group(H, kind, single):
    n = 1 if single else H.choice("attributes", [1, 2, 3])
    objs = [Thing(A=0.0, B=0.0, C=0.0) for _ in range(H.choice("objects", [1, 2]))]
    attrs = ["A", "B", "C"][:n]
    T = VariableTypeEnum[kind]
    kw = dict(objects=objs) if len(objs) > 1 or H.flag("as list") else dict(object=objs[0])
    kw.update(dict(attribute="A") if single else dict(attributes=attrs))
    lo = [H.real(f"lo{i}", -5.0, 0.0) for i in range(n)]
    hi = [H.real(f"hi{i}", 0.5, 7.0) for i in range(n)]
    vals = [[lo[i], 0.25, hi[i]] for i in range(n)]
    if kind == "CONTINUOUS":
        g = VariableGroup(name="g", var_type=T, lower_bounds=lo, upper_bounds=hi, **kw)
    elif kind == "DISCRETE":
        g = VariableGroup(name="g", var_type=T, values=vals, **kw)
    else:
        g = VariableGroup(name="g", var_type=T, values=["a", "b", "c"], value=0, **kw)
    H.same("variables", len(g.variables), n)
    cls = {"CONTINUOUS": Variable, "DISCRETE": DiscreteVariable, "INDEX": IndexVariable}[kind]
    for v in g.variables:
        H.same("kind", type(v), cls)
    if kind == "INDEX":
        k = H.int("k", 0, 2)
        g.variables[0].substitute(k)
        for o in objs:
            H.same("target", (o.A, o.B, o.C), (["a", "b", "c"][int(k)], 0.0, 0.0))
        return
    x = [H.real(f"x{i}", -5.0, 7.0) for i in range(n)]
    for i, v in enumerate(g.variables):
        H.eq(f"lower {i}", v.lb, lo[i])
        H.eq(f"upper {i}", v.ub, hi[i])
        if kind == "DISCRETE":
            H.same(f"values {i}", len(v.values), 3)
        v.substitute(x[i])
    for o in objs:
        for i, a in enumerate("ABC"):
            H.eq(f"target {a}", getattr(o, a), x[i] if i < n else 0.0)


@job("O01", bounds="variables and constraints added in any of the ways, removed and replaced; any coefficients")
def managing(H):
    vs = [Variable(f"v{i}", -4.0, 4.0) for i in range(3)]
    P = OptimizationProblem("p")
    way = H.choice("variables", ["one by one", "list", "setter", "add", "constructor"])
    if way == "one by one":
        for v in vs:
            P.add_variable(v)
    elif way == "list":
        P.add_variables(vs)
    elif way == "setter":
        P.add(Variable("old", 0.0, 1.0))
        P.vars = vs
    elif way == "add":
        for v in vs + vs[:1]:
            P.add(v)
    else:
        P = OptimizationProblem("p", variables=vs)
    H.same("variables", P.all_vars, vs)
    c = [H.real(f"c{i}", -5.0, 5.0) for i in range(3)]
    b = H.real("b", -5.0, 5.0)
    types = [H.choice("type0", ["<", ">", "="]), "=", "<"]
    fun = lambda X: X[0] - b
    how = H.choice("constraints", ["one by one", "list", "factory"])
    if how == "factory":
        cons = [P.linear_constraint(c, b, types[0], "g0"), P.non_linear_constraint(fun, types[1], "g1"), P.non_linear_constraint(fun, types[2], "g2")]
    else:
        cons = [LinearConstraint(c, b, types[0], "g0"), NonLinearConstraint(fun, types[1], "g1"), NonLinearConstraint(fun, types[2], "g2")]
        if how == "list":
            P.add_constraints(cons)
        else:
            for k in cons:
                P.add_constraint(k)
    H.same("constraints", P.cons, cons)
    H.same("their problem", [k.problem is P for k in cons], [True] * 3)
    x = [H.real(f"x{i}", -2.0, 2.0) for i in range(3)]
    lin = sum(ci * xi for ci, xi in zip(c, x)) - b
    g = [lin, x[0] - b, x[0] - b]
    H.eqs("values", P.eval_cons(x), g)
    H.eqs("equalities", P.eval_eq_con(x), [gi for gi, t in zip(g, types) if t == "="])
    # satisfied inequalities are not negative
    H.eqs("inequalities", P.eval_ineq_con(x), [gi if t == ">" else -gi for gi, t in zip(g, types) if t != "="])
    H.eqs("nonlinear", P.eval_nonlin_cons(x), g[1:])
    H.same("nonlinear constraints", P.nnonlincons(), 2)
    ob = ObjectiveFunction("f", lambda X: 2.0 * X[1])
    if H.flag("replaced"):
        P.add(ObjectiveFunction("old", lambda X: 0.0))
    P.add(ob)
    H.same("objective", (P.obj is ob, ob.problem is P), (True, True))
    H.eq("value of the objective", P.obj(x), 2.0 * x[1])
    P.del_var(vs[1])
    H.same("removed", P.all_vars, [vs[0], vs[2]])
    P.clear_vars()
    H.same("cleared", P.all_vars, [])


def three(H, discrete=False, locked=True, box=10.0):
    """three variables with targets; any of the first two may be locked"""
    objs = [Thing(A=0.0) for _ in range(3)]
    lo = [H.real(f"lb{i}", -box, -1.0) for i in range(2)] + [-2.0]
    hi = [H.real(f"ub{i}", 1.0, box) for i in range(2)] + [3.0]
    vs = [Variable(f"v{i}", lo[i], hi[i], target={"property": "A", "objects": [objs[i]]}) for i in range(3)]
    P = OptimizationProblem("p", variables=vs)
    fix = [H.flag(f"lock{i}") if locked else False for i in range(2)] + [False]
    lv = [0.25, -0.75, None]
    for i in range(2):
        if fix[i]:
            vs[i].lock(lv[i])
    return P, vs, objs, fix, lv, lo, hi


@job("O01", bounds="three variables, any of two locked, points up to ten times outside the bounds")
def problem(H):
    P, vs, objs, fix, lv, lo, hi = three(H)
    free = [i for i in range(3) if not fix[i]]
    H.same("free variables", P.vars, [vs[i] for i in free])
    H.same("locked variables", P.locked_vars, [vs[i] for i in range(3) if fix[i]])
    H.same("all variables", P.all_vars, vs)
    H.same("number", P.nvars(), len(free))
    H.same("fixed values", [x is None for x in P.fixed_vals], [not f for f in fix])
    P.add(vs[0])
    H.same("added once", P.all_vars, vs)
    x = [H.real(f"x{i}", -30.0, 30.0) for i in free]
    P.substitute_variables(x)
    for k, i in enumerate(free):
        H.check(f"within bounds {i}", (vs[i].value >= lo[i]) & (vs[i].value <= hi[i]))
        H.check(f"given value {i}", (x[k] < lo[i]) | (x[k] > hi[i]) | (vs[i].value == x[k]), f"{x[k]} {vs[i].value}")
        H.check(f"at lower bound {i}", (x[k] >= lo[i]) | (vs[i].value == lo[i]))
        H.check(f"at upper bound {i}", (x[k] <= hi[i]) | (vs[i].value == hi[i]))
        H.eq(f"target {i}", objs[i].A, vs[i].value)
        H.eq(f"stored {i}", P.X[k], vs[i].value)
        H.eq(f"initial {i}", P.x0[k], vs[i].value)
    first = [vs[i].value for i in free]
    for i in range(3):
        if fix[i]:
            H.eq(f"locked value {i}", vs[i].value, lv[i])
            H.eq(f"locked target {i}", objs[i].A, lv[i])
            H.eq(f"fixed value {i}", P.fixed_vals[i], lv[i])
    P.substitute_variables([0.5] * len(free))
    for k, i in enumerate(free):
        H.eq(f"second value {i}", vs[i].value, 0.5)
        H.eq(f"initial kept {i}", P.x0[k], first[k])
    H.eqs("bounds", P.var_bounds(), [[lo[i] for i in free], [hi[i] for i in free]])
    H.eqs("lower bounds", P.xlb(), [lo[i] for i in free])
    H.eqs("upper bounds", P.xub(), [hi[i] for i in free])
    H.eqs("values", P.var_values(), [0.5] * len(free))
    # a variable can be unlocked and moves again
    for i in range(3):
        if fix[i]:
            vs[i].unlock()
    H.same("all free again", P.vars, vs)


class Rng:
    """random numbers are symbolic"""
    def __init__(self, H):
        self.H, self.n = H, 0

    def random(self, size=None):
        if size is not None:
            return np.array([self.random() for _ in range(size)])
        self.n += 1
        return self.H.real(f"rand{self.n}", 0.0, 0.999999)

    def integers(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        self.n += 1
        return self.H.int(f"rint{self.n}", lo, hi - 1)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        self.n += 1
        return lo + (hi - lo) * self.H.real(f"runi{self.n}", 0.0, 1.0)


@job("O01", bounds="every random number the generator can give, for four kinds of variables")
def random_values(H):
    vals = [4.5, 11.2, 5.4, 7.23]
    vs = [Variable("c", -2.0, 5.0), IntegerVariable("i", 2, 6), DiscreteVariable("d", values=vals), IndexVariable("x", values=["a", "b", "c"])]
    P = OptimizationProblem("p", variables=vs)
    with mock.patch.object(np.random, "default_rng", lambda *a: Rng(H)):
        x = P.random_values()
    H.between("continuous", -2.0, x[0], 5.0)
    H.check("integer", vs[1].is_allowed_value(x[1]))
    H.between("integer", 2, x[1], 6)
    H.check("discrete", (x[2] == 4.5) | (x[2] == 11.2) | (x[2] == 5.4) | (x[2] == 7.23))
    H.check("index", (x[3] == 0) | (x[3] == 1) | (x[3] == 2))


# ---------------------------------------------------------------------- O02
@job("O02", params=[dict(kind=k) for k in ("nonlinear", "linear", "objective", "linear objective")],
     bounds="three variables, any of two locked, coefficients up to 10, designs within the bounds")
def full_vector(H, kind):
    P, vs, objs, fix, lv, lo, hi = three(H, box=4.0)
    free = [i for i in range(3) if not fix[i]]
    c = [H.real("c0", -10.0, 10.0), -3.0, 5.0]
    b = H.real("b", -5.0, 5.0)
    seen = []

    def fun(X):
        seen.append(list(X))
        return sum(ci * xi for ci, xi in zip(c, X)) - b
    x = [H.real(f"x{i}", -1.0, 1.0) for i in free]
    full = [lv[i] if fix[i] else x[free.index(i)] for i in range(3)]
    val = sum(ci * xi for ci, xi in zip(c, full)) - b
    if "objective" in kind:
        typ = H.choice("type", ["MIN", "MAX", "min", "max"])
        ob = ObjectiveFunction("f", fun, typ) if kind == "objective" else LinearObjective("f", c, typ)
        if kind != "objective":
            val = val + b
        P.add(ob)
        s = -1.0 if typ.upper() == "MAX" else 1.0
        H.eq("value", P.obj(x), s * val, scale=50.0)
        H.eq("negative", P.obj.neg_call(x), -s * val, scale=50.0)
    else:
        typ = H.choice("type", ["<", ">", "="])
        as_var = kind == "linear" and H.flag("rhs is a variable")
        if kind == "linear":
            con = LinearConstraint(c, vs[2] if as_var else b, typ, "g")
            if as_var:
                val = val + b - full[2]
        else:
            con = NonLinearConstraint(fun, typ, "g")
        P.add(con)
        P.add(con)
        H.same("added once", P.cons, [con])
        H.eq("value", con(x), val, scale=50.0)
        g = con(x)
        if typ == "<":
            H.check("potentially active", con.potential if (g >= -0.25) else not con.potential)
        if typ == ">":
            H.check("potentially active", con.potential if (g <= 0.25) else not con.potential)
        H.eq("negative", con.neg_call(x), -val, scale=50.0)
        if kind == "linear":
            fc = con.free_copy()
            Q = OptimizationProblem("q", variables=[Variable("w", -4.0, 4.0) for _ in free])
            Q.add(fc)
            H.eq("in terms of the free variables", fc(x), val, scale=50.0)
            H.check("own problem", con.problem is P)
    if kind in ("nonlinear", "objective"):
        for i in range(3):
            H.eq(f"full vector {i}", seen[-1][i], full[i])
    for i in range(3):
        H.eq(f"design {i}", objs[i].A if not fix[i] else lv[i], full[i])


class Structure:
    """its response is a function of the design at the last analysis"""
    def __init__(self, objs):
        self.objs, self.res, self.n = objs, {}, 0

    def calculate(self, load_id=None, **kw):
        self.n += 1
        self.res[load_id] = 2 * self.objs[0].A - self.objs[1].A


@job("O02", params=[dict(order=o) for o in ("cc", "co", "oc", "ccb", "ocl")], bounds="two designs and back, two load cases, designs within the bounds")
def analysis(H, order):
    objs = [Thing(A=0.0), Thing(A=0.0)]
    vs = [Variable(f"v{i}", -5.0, 5.0, target={"property": "A", "objects": [objs[i]]}) for i in range(2)]
    S = Structure(objs)
    P = OptimizationProblem("p", variables=vs, structure=S)
    c1 = NonLinearConstraint(lambda X: S.res["ALL"], "<", "g", fea_required=True)
    c2 = NonLinearConstraint(lambda X: S.res[1] + S.res[2], "<", "h", fea_required=True, load_ids=[1, 2])
    ob = ObjectiveFunction("f", lambda X: 3 * S.res["ALL"] + X[0], fea_required=True)
    for o in (c1, c2, ob):
        P.add(o)
    P.substitute_variables([0.0, 0.0])
    pts = [[H.real(f"a{i}", -5.0, 5.0) for i in range(2)], [H.real(f"b{i}", -5.0, 5.0) for i in range(2)]]
    pts.append(pts[0])
    if order == "ocl":
        vs[0].lock(1.5)
        pts = [[p[1]] for p in pts]
    for k, x in enumerate(pts):
        a = [1.5, x[0]] if order == "ocl" else x
        r = 2 * a[0] - a[1]
        seq = order if k < 2 else order[::-1]
        for j, ch in enumerate(seq):
            if ch == "c":
                H.eq(f"constraint {k}{j}", c1(x), r, scale=10.0)
            elif ch == "b":
                H.eq(f"two load cases {k}{j}", c2(x), 2 * r, scale=10.0)
            elif ch == "o":
                H.eq(f"objective {k}{j}", ob(x), 3 * r + a[0], scale=10.0)
            else:
                H.eq(f"two load cases {k}{j}", P.eval_cons(x)[1], 2 * r, scale=10.0)
    H.same("analyses counted", P.num_fem_analyses, S.n)


# ---------------------------------------------------------------------- O03
class Solver(OptSolver):
    """moves by arbitrary actions"""
    def __init__(self, actions):
        super().__init__()
        self.actions, self.step_length, self.step_factor = list(actions), 1.0, 0.0

    def take_action(self):
        return self.actions.pop(0)


def sense_ok(t, g, tol=1e-4):
    if t == "<":
        return g <= tol
    if t == ">":
        return g >= -tol
    return (g <= tol) & (g >= -tol)


def all_of(cs):
    r = True
    for c in cs:
        r = c if r is True else (r & c)
    return r


def not_(c):
    return c.negate() if hasattr(c, "negate") else not c


@job("O03", bounds="two constraints of any type with any values")
def feasible(H):
    P = OptimizationProblem("p", variables=[Variable("v", -1.0, 1.0)])
    types = [H.choice(f"type{i}", ["<", ">", "="]) for i in range(2)]
    g = [H.real(f"g{i}", -1.0, 1.0) for i in range(2)]
    for i in range(2):
        P.add(NonLinearConstraint(lambda X, i=i: g[i], types[i], f"g{i}"))
    ok = all_of([sense_ok(t, v) for t, v in zip(types, g)])
    P.substitute_variables([0.5])
    via = H.choice("via", ["problem", "problem stored", "solver", "solver stored"])
    if via.startswith("problem"):
        r = P.feasible([0.5]) if via == "problem" else P.feasible()
    else:
        s = OptSolver()
        s.problem = P
        if via == "solver":
            r = s.is_feasible([0.5])
        else:
            s.calc_constraints([0.5])
            r = s.is_feasible()
    H.check("feasible means that every constraint holds", ok if r else not_(ok))


@job("O03", bounds="three constraints of any type with any values")
def values(H):
    P = OptimizationProblem("p", variables=[Variable("v", -1.0, 1.0)])
    types = [H.choice(f"type{i}", ["<", ">", "="]) for i in range(3)]
    g = [H.real(f"g{i}", -1.0, 1.0) for i in range(3)]
    for i in range(3):
        P.add(NonLinearConstraint(lambda X, i=i: g[i], types[i], f"g{i}"))
    H.eqs("all", P.eval_cons([0.5]), g)
    H.eqs("nonlinear", P.eval_nonlin_cons([0.5]), g)
    H.eqs("equalities", P.eval_eq_con([0.5]), [v for v, t in zip(g, types) if t == "="])
    H.eqs("inequalities", P.eval_ineq_con([0.5]), [v if t == ">" else -v for v, t in zip(g, types) if t != "="])
    s = OptSolver()
    s.problem = P
    H.eqs("solver", s.calc_constraints([0.5]), g)
    H.eqs("solver equalities", [c([0.5]) for c in s._create_eqcons()], [v for v, t in zip(g, types) if t == "="])
    H.eqs("solver inequalities", [c([0.5]) for c in s._create_ieqcons()], [v if t == ">" else -v for v, t in zip(g, types) if t != "="])


@job("O03", params=[dict(n=1, t=t) for t in "<>="] + [dict(n=2, t=t) for t in "<>="], thorough_params=[dict(n=3, t=t) for t in "<>="],
     bounds="one variable, up to two (thorough three) arbitrary steps, a linear objective of either sign, one constraint of every type")
def best(H, n, t):
    vs = [Variable("v", -2.0, 3.0)]
    P = OptimizationProblem("p", variables=vs)
    s = H.choice("sense", [1.0, -2.0])
    P.add(ObjectiveFunction("f", lambda X: s * X[0] + 1))
    b = H.real("b", -1.0, 2.0)
    P.add(NonLinearConstraint(lambda X: 2 * X[0] - b, t, "g"))
    x0 = H.real("x0", -1.9, 2.9)
    acts = [H.real(f"d{i}", -6.0, 6.0) for i in range(n)]
    x = [x0]
    for d in acts:
        # away from steps so short that the solver stops
        H.assume((d > 0.01) | (d < -0.01))
    S = Solver([np.array([d]) for d in acts])
    S.stopping_criterion = lambda *a, **k: False
    start = np.array([x0])
    f, xb = S.solve(P, x0=start, maxiter=n)
    H.eq("starting point", start[0], x0)
    H.same("iterates", len(S.xvals), n + 1)
    xs = [v[0] for v in S.xvals]
    H.eq("first iterate", xs[0], x0)
    for i in range(n):
        raw = xs[i] + acts[i]
        H.check(f"iterate {i} within bounds", (xs[i + 1] >= -2.0) & (xs[i + 1] <= 3.0))
        H.check(f"iterate {i} as stepped", (raw < -2.0) | (raw > 3.0) | (abs(xs[i + 1] - raw) <= 1e-9))
        H.eq(f"history {i}", P.states[i][0], xs[i + 1])
        H.eq(f"objective history {i}", S.fvals[i + 1], s * xs[i + 1] + 1)
        H.eq(f"constraint history {i}", P.gvals[i][0], 2 * xs[i + 1] - b)
    feas = [sense_ok(t, 2 * v - b) for v in xs[1:]]
    some = False
    for c in feas:
        some = c if some is False else some | c
    H.eq("best value", f, s * xb[0] + 1)
    if S.feasible:
        H.check("best is feasible", sense_ok(t, 2 * xb[0] - b, 1.0001e-4))
        for i in range(n):
            H.check(f"best is not worse than iterate {i}", not_(feas[i]) | (f <= s * xs[i + 1] + 1 + 1e-9))
        hit = False
        for v in xs[1:]:
            c = abs(xb[0] - v) <= 1e-9
            hit = c if hit is False else hit | c
        H.check("best is an iterate", hit)
    else:
        H.check("no feasible iterate", not_(some))


# ---------------------------------------------------------------------- O04
def penal(H, box=3.0, pairs=False, unb=None):
    if pairs:
        types = H.choice("types", [("<", "="), (">", "<"), ("=", ">")])
    else:
        types = [H.choice(f"type{i}", ["<", ">", "="]) for i in range(2)]
    g = [H.real(f"g{i}", -2.0, 2.0) for i in range(2)]
    unb = unb or H.choice("bounds", ["both", "lower", "upper", "none"])
    lb = -1.0 if unb in ("both", "lower") else None
    ub = 1.5 if unb in ("both", "upper") else None
    k = {}
    if lb is not None:
        k["lb"] = lb
    if ub is not None:
        k["ub"] = ub
    v = Variable("v", **k)
    P = OptimizationProblem("p", variables=[v])
    for i in range(2):
        P.add(NonLinearConstraint(lambda X, i=i: g[i], types[i], f"g{i}"))
    x = H.real("x", -box, box)
    P.add(ObjectiveFunction("f", lambda X: 7.0))
    viol = [pos(v) if t == "<" else pos(-v) if t == ">" else absv(v) for t, v in zip(types, g)]
    if lb is not None:
        viol.append(pos(lb - x))
    if ub is not None:
        viol.append(pos(x - ub))
    return P, v, types, g, x, viol, lb, ub


def pos(v):
    return v if v > 0 else 0.0


def absv(v):
    return v if v > 0 else -v


@job("O04", bounds="two constraints of any type and value, points inside and outside the bounds, penalty factors 0.1..1000")
def exact(H):
    P, v, types, g, x, viol, lb, ub = penal(H)
    R = H.real("R", 0.1, 1000.0)
    F = P.exact_penalty_fun(R)([x])
    H.eq("sum of violations", F, R * sum(viol), scale=1e3)
    H.ge("never negative", F, 0.0)
    H.check("zero exactly at feasible points", (F == 0) if not isinstance(sum(viol), float) and False else implied(all_zero(viol), F <= 1e-12))


def all_zero(viol):
    r = True
    for a in viol:
        c = a == 0
        if c is True or c is np.True_:
            continue
        r = c if r is True else (r & c)
    return r


@job("O04", bounds="two inequality constraints of any value, points inside and outside the bounds, penalty factors 0.1..1000")
def exterior(H):
    P, v, types, g, x, viol, lb, ub = penal(H)
    R = H.real("R", 0.1, 1000.0)
    F = P.exterior_penalty_fun(R, 2)([x])
    ref, eqs = 7.0, 0.0
    for i, a in enumerate(viol):
        if i < 2 and types[i] == "=":
            ref = ref + a * a
        else:
            ref = ref + R * a * a
    H.eq("penalty", F, ref, scale=1e3)
    H.ge("at least the objective", F, 7.0)


@job("O04", params=[dict(kind=k) for k in ("log", "inverse")], bounds="two satisfied inequality constraints, points inside the bounds, barrier factors 0.1..1000")
def barrier(H, kind):
    types = [H.choice(f"type{i}", ["<", ">"]) for i in range(2)]
    m = [H.real(f"m{i}", 0.01, 2.0) for i in range(2)]
    v = Variable("v", -1.0, 1.5)
    P = OptimizationProblem("p", variables=[v])
    for i in range(2):
        P.add(NonLinearConstraint(lambda X, i=i: -m[i] if types[i] == "<" else m[i], types[i], f"g{i}"))
    P.add(ObjectiveFunction("f", lambda X: 7.0))
    x, R = H.real("x", -0.9, 1.4), H.real("R", 0.1, 1000.0)
    F = P.barrier_fun(R, kind)([x])
    ref = 7.0
    for a in m:
        ref = ref + ((1 / a) / R if kind == "inverse" else -np.log(a) / R)
    ref = ref + 1 / R / (x + 1.0) + 1 / R / (1.5 - x)
    H.eq("barrier", F, ref, scale=100.0)


@job("O04", params=[dict(what=w, bounds=b) for w in ("function", "update") for b in ("both", "lower", "upper", "none")], bounds="two constraints of any type and value, multipliers 0..5, points inside and outside the bounds, penalty factors 0.5..50")
def lagrangian(H, what, bounds):
    P, v, types, g, x, viol, lb, ub = penal(H, pairs=True, unb=bounds)
    R, Re = H.real("R", 0.5, 50.0), H.real("Re", 0.5, 50.0)
    mu = [H.real(f"mu{i}", 0.0, 5.0) for i in range(2)] + [H.real("mul", 0.0, 5.0), H.real("muu", 0.0, 5.0)]
    for c, m in zip(P.cons, mu):
        c.mult = m
    v.lb_mult, v.ub_mult = mu[2], mu[3]
    terms = []
    for i in range(2):
        if types[i] != "=":
            terms.append((mu[i], g[i] if types[i] == "<" else -g[i], P.cons[i], "mult"))
    if lb is not None:
        terms.append((mu[2], lb - x, v, "lb_mult"))
    if ub is not None:
        terms.append((mu[3], x - ub, v, "ub_mult"))
    if what == "function":
        F = P.augmented_lagrangian(R, Re)([x])
        ref = 7.0
        for i in range(2):
            if types[i] == "=":
                ref = ref - mu[i] * g[i] + Re * g[i] * g[i]
        for m, val, _, _ in terms:
            t = pos(0.5 * m / R + val)
            ref = ref + R * t * t
        H.eq("augmented Lagrangian", F, ref, scale=1e3)
    else:
        P.update_lag_mult([x], R, Re)
        for i in range(2):
            if types[i] == "=":
                H.eq(f"equality multiplier {i}", P.cons[i].mult, mu[i] - 2 * Re * g[i], scale=100.0)
        for k, (m, val, o, at) in enumerate(terms):
            H.eq(f"multiplier {k}", getattr(o, at), pos(m + 2 * R * val), scale=100.0)
        if lb is None:
            H.eq("no lower bound", v.lb_mult, mu[2])
        if ub is None:
            H.eq("no upper bound", v.ub_mult, mu[3])


# ---------------------------------------------------------------------- O05
@job("O05", params=[dict(grad=False, fix=f) for f in (0, 1, 2)] + [dict(grad=True, fix=0)],
     bounds="a quadratic objective and constraint, a linear constraint and one whose right hand side is a variable; points within the bounds, none or one of three variables locked")
def linearise(H, grad, fix):
    objs = [Thing(A=0.0) for _ in range(3)]
    vs = [Variable(f"v{i}", -3.0, 3.0, target={"property": "A", "objects": [objs[i]]}) for i in range(3)]
    P = OptimizationProblem("p", variables=vs)
    if fix:
        vs[fix - 1].lock(0.75)
    free = [i for i in range(3) if not vs[i].locked]
    c = [H.real("c0", -5.0, 5.0), H.real("c1", -5.0, 5.0)]
    typ = H.choice("type", ["<", ">", "="])
    P.add(ObjectiveFunction("f", lambda X: c[0] * X[0] * X[1] + X[2] * X[2] - X[0]))
    P.add(NonLinearConstraint(lambda X: X[0] * X[0] + c[1] * X[1] * X[2] - 2, typ, "g"))
    P.add(LinearConstraint([1.5, c[0], -2.0], 0.5, typ, "l"))
    P.add(LinearConstraint([1.0, 2.0, 3.0], vs[1], typ, "r"))
    x = [H.real(f"x{i}", -2.9, 2.9) if i < 2 else H.choice("x2", [1.5, -0.5]) for i in free]
    full = [0.75 if vs[i].locked else x[free.index(i)] for i in range(3)]
    X, Y, Z = full
    df_ref = [c[0] * Y - 1, c[0] * X, 2 * Z]
    if grad:
        P.grad = lambda x: np.array([c[0] * x[1] - 1, c[0] * x[0], 2 * x[2]])
    A, B, df, fx = P.linearize(np.array(x))
    H.eq("objective", fx, c[0] * X * Y + Z * Z - X, scale=50.0)
    rows = [[2 * X, c[1] * Z, c[1] * Y], [1.5, c[0], -2.0], [1.0, 1.0, 3.0]]
    val = [X * X + c[1] * Y * Z - 2, 1.5 * X + c[0] * Y - 2 * Z - 0.5, X + Y + 3 * Z]
    H.same("shape", A.shape, (3, len(free)))
    for k, i in enumerate(free):
        H.eq(f"objective gradient {i}", df[k], df_ref[i], abs_=1e-4)
        for r in range(3):
            H.eq(f"constraint gradient {r}{i}", A[r][k], rows[r][i], abs_=1e-4)
        H.eq(f"design restored {i}", objs[i].A, full[i])
        H.eq(f"value restored {i}", vs[i].value, full[i])
    for r in range(3):
        # a x - B is the value of the constraint at the point
        H.eq(f"right hand side {r}", sum(A[r][k] * x[k] for k in range(len(free))) - B[r], val[r], scale=50.0)


@job("O05", params=[dict(grad=False), dict(grad=True)], bounds="an objective and constraints that need structural analysis, points within the bounds")
def linearise_structure(H, grad):
    objs = [Thing(A=0.0), Thing(A=0.0)]
    vs = [Variable(f"v{i}", -3.0, 3.0, target={"property": "A", "objects": [objs[i]]}) for i in range(2)]
    S = Structure(objs)
    P = OptimizationProblem("p", variables=vs, structure=S)
    P.add(NonLinearConstraint(lambda X: X[0] * S.res["ALL"], "<", "g", fea_required=True))
    P.add(NonLinearConstraint(lambda X: S.res[1] + S.res[2], "<", "h", fea_required=True, load_ids=[1, 2]))
    P.add(ObjectiveFunction("f", lambda X: X[0] + X[1]))
    if grad:
        P.grad = lambda x: np.array([1.0, 1.0])
    x = np.array([H.real("x0", -2.9, 2.9), H.choice("x1", [1.25, -2.0])])
    A, B, df, fx = P.linearize(x.copy())
    for i, (a, b) in enumerate(zip([4 * x[0] - x[1], -x[0]], [4.0, -2.0])):
        H.eq(f"gradient {i}", A[0][i], a, abs_=1e-4)
        H.eq(f"gradient, two load cases {i}", A[1][i], b, abs_=1e-4)
    H.eq("constraint afterwards", P.cons[0](x), x[0] * (2 * x[0] - x[1]), scale=20.0)
    H.eq("constraint afterwards, two load cases", P.cons[1](x), 4 * x[0] - 2 * x[1], scale=20.0)


@job("O05", bounds="three constraints of any type, points within the bounds")
def potential_only(H):
    P = OptimizationProblem("p", variables=[Variable("v", -3.0, 3.0)])
    P.add(ObjectiveFunction("f", lambda X: X[0]))
    types = [H.choice(f"type{i}", ["<", ">"]) for i in range(2)]
    b = [H.real(f"b{i}", -3.0, 3.0) for i in range(2)]
    for i in range(2):
        P.add(NonLinearConstraint(lambda X, i=i: (i + 1) * X[0] - b[i], types[i], f"g{i}"))
    x = H.real("x", -2.9, 2.9)
    A, B, df, fx = P.linearize(np.array([x]), True)
    k = 0
    for i in range(2):
        g = (i + 1) * x - b[i]
        H.assume((g > 0.2501) | (g < 0.2499))
        H.assume((g > -0.2499) | (g < -0.2501))
        near = (g >= -0.25) if types[i] == "<" else (g <= 0.25)
        if near:
            H.eq(f"row {i}", A[k][0], i + 1.0, abs_=1e-4)
            H.eq(f"right hand side {i}", A[k][0] * x - B[k], g, abs_=1e-6)
            k += 1
    H.same("rows", len(A), k)


@job("O05", bounds="points and gradients of either sign, asymptotes up to 5 away from the point")
def approximations(H):
    n = 2
    xk = np.array([H.real(f"xk{i}", 0.5, 5.0) for i in range(n)])
    d = np.array([H.real(f"d{i}", -10.0, 10.0) for i in range(n)])
    fk = H.real("fk", -20.0, 20.0)
    kind = H.choice("kind", ["conlin", "mma", "class"])
    x = np.array([xk[0] + H.real("s0", -0.4, 0.4), xk[1] + H.real("s1", -0.4, 0.4)])
    if kind == "conlin":
        f = of.conlin_fun(xk, fk, d)
        ref = fk
        for i in range(n):
            ref = ref + (d[i] * (x[i] - xk[i]) if d[i] >= 0 else d[i] * xk[i] / x[i] * (x[i] - xk[i]))
        H.eq("value at the point", f(xk), fk, scale=100.0)
        H.eq("value", f(x), ref, scale=100.0)
        H.eq("again", f(xk), fk, scale=100.0)
        return
    L = np.array([xk[i] - H.real(f"dl{i}", 0.5, 5.0) for i in range(n)])
    U = np.array([xk[i] + H.real(f"du{i}", 0.5, 5.0) for i in range(n)])
    f = of.mma_fun(xk, fk, d, L, U) if kind == "mma" else of.MMAFunction(xk, fk, d, L, U)
    H.eq("value at the point", f(xk), fk, scale=100.0)
    ref = fk
    for i in range(n):
        if d[i] >= 0:
            ref = ref + (U[i] - xk[i]) ** 2 * d[i] * (1 / (U[i] - x[i]) - 1 / (U[i] - xk[i]))
        else:
            ref = ref - (xk[i] - L[i]) ** 2 * d[i] * (1 / (x[i] - L[i]) - 1 / (xk[i] - L[i]))
    H.eq("value", f(x), ref, scale=1000.0)
    if kind == "class":
        gr = f.grad(xk)
        for i in range(n):
            H.eq(f"gradient {i}", gr[i], d[i], scale=100.0)


@job("O05", bounds="a quadratic function, points up to 5, given or numerical gradient")
def gradients(H):
    c = [H.real("c0", -5.0, 5.0), H.real("c1", -5.0, 5.0)]
    x = [H.real("x0", -5.0, 5.0), H.real("x1", -5.0, 5.0)]

    def f(X):
        return c[0] * X[0] * X[0] + c[1] * X[0] * X[1]
    ref = [2 * c[0] * x[0] + c[1] * x[1], c[1] * x[0]]
    H.eqs("numerical", of.NumGrad(f, x), ref, abs_=1e-3)
    H.eq("point kept", x[0] + 0 * x[1], x[0])
    a, b, cc = of.Linearize(f, np.array(x), None if H.flag("numerical") else (lambda X: np.array([2 * c[0] * X[0] + c[1] * X[1], c[1] * X[0]])))
    H.eqs("slope", a, ref, abs_=1e-3)
    H.eq("value", b, f(x), scale=100.0)
    H.eq("offset", cc, ref[0] * x[0] + ref[1] * x[1], abs_=1e-2)


@job("O05", params=[dict(kind=k, fix=f) for k in ("conlin", "mma") for f in (False, True)],
     bounds="a quadratic objective, one quadratic and one linear constraint; points inside the bounds")
def subproblem(H, kind, fix):
    vs = [Variable(f"v{i}", 0.2, 6.0) for i in range(3)]
    P = OptimizationProblem("p", variables=vs)
    c = H.real("c", -3.0, 3.0)
    if fix:
        vs[1].lock(1.25)
    else:
        vs[1].lock(1.25)
        vs[1].unlock()
    free = [i for i in range(3) if not vs[i].locked]
    fobj = ObjectiveFunction("f", lambda X: X[0] * X[0] + c * X[2])
    P.add(fobj)
    g = NonLinearConstraint(lambda X: X[0] * X[2] - X[1] * 2, "<", "g")
    l = LinearConstraint([1.0, c, -1.0], 2.0, ">", "l")
    P.add(g)
    P.add(l)
    x = np.array([H.real("x0", 0.5, 5.0), 2.0, 1.5] if not fix else [H.real("x0", 0.5, 5.0), 1.5])
    full = [x[0], 1.25 if fix else 2.0, 1.5]
    if kind == "conlin":
        Q = P.conlin(x)
        lo, hi = [0.2] * len(free), [6.0] * len(free)
    else:
        L = np.array([xi - 1.0 for xi in x])
        U = np.array([xi + 2.0 for xi in x])
        Q = P.mma(x, U, L)
    H.same("constraints", [con.type for con in Q.cons], ["<", ">"])
    H.check("original constraints keep their problem", g.problem is P and l.problem is P and len(P.cons) == 2)
    H.eq("objective", Q.obj(x), x[0] * x[0] + c * 1.5, scale=50.0)
    H.eq("constraint", Q.cons[0](x), full[0] * full[2] - full[1] * 2, scale=50.0)
    H.eq("linear constraint", Q.cons[1](x), full[0] + c * full[1] - full[2] - 2.0, scale=50.0)
    for k in range(len(free)):
        v = Q.vars[k]
        H.check(f"bounds {k}", (v.lb >= 0.2) & (v.ub <= 6.0) & (v.lb <= x[k]) & (v.ub >= x[k]))
        if kind == "mma":
            H.check(f"inside asymptotes {k}", (v.lb > L[k]) & (v.ub < U[k]))
    H.eq("original constraint unchanged", g(x), full[0] * full[2] - full[1] * 2, scale=50.0)
