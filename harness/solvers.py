"""Optimization solvers: discrete variables and branch and bound, subproblems, swarms (O06-O08)."""
import contextlib
import itertools
import math
import sys
import types
from unittest import mock

import numpy as np
import scipy.optimize
from ortools.linear_solver import pywraplp

from symx.registry import job
import metku.structures.steel.steel_member
from metku.optimization.variables import Variable, IntegerVariable, IndexVariable, DiscreteVariable
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
import metku.optimization.solvers.bnb as bnb
import metku.optimization.solvers.lp as lp
import metku.optimization.solvers.slp as slp
import metku.optimization.solvers.mislp as mislp
import metku.optimization.solvers.slsqp as slsqp
import metku.optimization.solvers.trust_region as tr
import metku.optimization.solvers.pso as pso
import metku.optimization.solvers.ga as ga
from harness.optim import Rng, Thing, sense_ok, all_of, not_


# ---------------------------------------------------------------------- O06
@job("O06", bounds="any value between -3 and 8 for an integer variable with bounds -2 and 6")
def integers(H):
    v = IntegerVariable("i", -2, 6)
    x = H.real("x", -3.0, 8.0)
    # away from the tolerance itself
    k = H.choice("k", range(-3, 9))
    H.assume((x >= k - 0.5) & (x <= k + 0.5))
    d = x - k
    H.assume((d > 1.01e-4) | (d < 0.99e-4))
    H.assume((d > -0.99e-4) | (d < -1.01e-4))
    H.assume((d < 0.4999) & (d > -0.4999))
    near = (d < 1e-4) & (d > -1e-4)
    inside = (x >= -2) & (x <= 6)
    ok = v.is_allowed_value(x)
    H.check("allowed", (near & inside) if ok else not_(near & inside))
    viol = v.discrete_violation(x)
    H.check("violation is zero at integers", not_(near) | (viol == 0))
    H.check("violation is the distance to the nearest integer", near | (abs(viol - abs(d)) <= 1e-9))
    s, l = v.smaller_discrete_value(x), v.larger_discrete_value(x)
    H.check("smaller", (s < x) & (s >= x - 1))
    H.check("larger", (l > x) & (l <= x + 1))
    H.same("integers", (float(s).is_integer(), float(l).is_integer()), (True, True))


@job("O06", bounds="any value strictly between the smallest and largest of five unevenly spaced values")
def discretes(H):
    vals = [4.5, 11.2, 5.4, 13.4, 7.23]
    v = DiscreteVariable("d", values=vals)
    H.same("bounds", (v.lb, v.ub), (4.5, 13.4))
    x = H.real("x", 4.51, 13.39)
    for a in vals:
        for tol in (1e-4, 1e-3):
            H.assume((x > a + 1.01 * tol) | (x < a + 0.99 * tol))
            H.assume((x < a - 1.01 * tol) | (x > a - 0.99 * tol))
    ok, viol = v.is_allowed_value(x), v.discrete_violation(x)
    near4 = near3 = False
    for a in vals:
        c4, c3 = abs(x - a) < 1e-4, abs(x - a) <= 1e-3
        near4 = c4 if near4 is False else near4 | c4
        near3 = c3 if near3 is False else near3 | c3
        H.check(f"violation at most the distance to {a}", viol <= abs(x - a))
    H.check("allowed", near4 if ok else not_(near4))
    hit = near3
    for a in vals:
        hit = hit | (abs(viol - abs(x - a)) <= 1e-9)
    H.check("violation is a distance", hit)
    H.check("violation is zero near a value", not_(near3) | (viol == 0))
    s, l = v.smaller_discrete_value(x), v.larger_discrete_value(x)
    H.check("smaller", s < x)
    H.check("larger", l > x)
    H.same("values", (s in vals, l in vals), (True, True))
    for a in vals:
        H.check(f"no value between {a}", (a <= s) | (a >= l) | (abs(a - x) <= 1e-9))


@job("O06", params=[dict(k=1), dict(k=2), dict(k=3)], bounds="any point for a discrete, an integer and a continuous variable")
def neighborhood(H, k):
    vals = [4.5, 11.2, 5.4, 7.23]
    vs = [DiscreteVariable("d", values=vals), IntegerVariable("i", 1, 5), Variable("c", 0.0, 9.0)]
    P = OptimizationProblem("p", variables=vs)
    x = [H.real("x0", 4.5, 11.2), H.real("x1", 1.0, 5.0), H.real("x2", 0.0, 9.0)]
    N = list(P.discrete_neighborhood(x, k))
    H.same("points", len(N), k * k)
    H.same("different points", len({(float(a[0]), float(a[1])) for a in N}), k * k)
    for j, allv in enumerate([vals, [1, 2, 3, 4, 5]]):
        got = {float(a[j]) for a in N}
        H.check(f"allowed {j}", all(any(abs(g - a) < 1e-12 for a in allv) for g in got))
        for a in allv:
            if a not in got:
                for g in got:
                    H.check(f"nearest {j} {a} {g}", abs(x[j] - g) <= abs(x[j] - a))
    for a in N:
        H.eq("continuous variable kept", a[2], x[2])


@job("O06", params=[dict(t=t, kind=k) for t in "<>=" for k in ("ii", "dc", "ic")], bounds="one linear constraint of any type with coefficients 0.2..3 of either sign, any feasible point")
def tightening(H, t, kind):
    vals = [-1.5, 0.25, 2.0, 3.0]
    mk = dict(i=lambda n: IntegerVariable(n, -2, 3), d=lambda n: DiscreteVariable(n, values=vals), c=lambda n: Variable(n, -2.0, 3.0))
    vs = [mk[k](f"v{j}") for j, k in enumerate(kind)] + [Variable("locked", -1.0, 1.0)]
    P = OptimizationProblem("p", variables=vs)
    vs[2].lock(0.5)
    P.add(ObjectiveFunction("f", lambda X: X[0]))
    a = [H.choice("s0", [-1.0, 1.0]) * H.real("a0", 0.2, 3.0), H.choice("a1", [-0.75, 1.0, 0.0]), 0.5]
    pt = [H.choice(f"p{j}", [-2, 0, 3]) if k == "i" else H.choice(f"p{j}", vals) if k == "d" else H.real(f"p{j}", -2.0, 3.0) for j, k in enumerate(kind)]
    g = a[0] * pt[0] + a[1] * pt[1] + 0.25
    m = H.real("m", 0.0, 4.0) if t != "=" else 0.0
    P.add(LinearConstraint(a, g + m if t == "<" else g - m, t, "l"))
    B = bnb.BnB(P)
    B.feasibility_tightening()
    for j in range(2):
        H.check(f"feasible point kept {j}", (vs[j].lb <= pt[j] + 1e-6) & (vs[j].ub >= pt[j] - 1e-6), f"{vs[j].lb} {pt[j]} {vs[j].ub}")
        H.check(f"bounds not widened {j}", (vs[j].lb >= (-1.5 if kind[j] == "d" else -2.0)) & (vs[j].ub <= 3.0))


@job("O06", params=[dict(kind="i"), dict(kind="d"), dict(kind="both")], bounds="any solution of the relaxation with a violation")
def branching(H, kind):
    vals = [0.5, 1.25, 3.0, 4.0]
    vi, vd, vc = IntegerVariable("i", 0, 4), DiscreteVariable("d", values=vals), Variable("c", 0.0, 5.0)
    vs = dict(i=[vc, vi], d=[vd, vc], both=[vi, vd])[kind]
    P = OptimizationProblem("p", variables=vs)
    P.add(ObjectiveFunction("f", lambda X: X[0]))
    B = bnb.BnB(P)
    B.add_node(bnb.BnBNode(flb=1.0), "Root", "root")
    root = B.select_node()
    x = [H.real(f"x{j}", 0.5 if v is vd else 0.0, 4.0) for j, v in enumerate(vs)]
    for j, v in enumerate(vs):
        # the variables that must be discrete are clearly not
        if v is vi:
            H.assume((abs(x[j] - 0) > 0.01) & (abs(x[j] - 1) > 0.01) & (abs(x[j] - 2) > 0.01) & (abs(x[j] - 3) > 0.01) & (abs(x[j] - 4) > 0.01))
        elif v is vd:
            H.assume((abs(x[j] - 0.5) > 0.01) & (abs(x[j] - 1.25) > 0.01) & (abs(x[j] - 3.0) > 0.01) & (abs(x[j] - 4.0) > 0.01))
    root.data.xR = np.array(x)
    root.data.lb = 1.0
    B.branch(root)
    H.same("two nodes", len(B.nodes), 2)
    boxes = []
    for _ in range(2):
        B.select_node()
        boxes.append([(v.lb, v.ub) for v in vs])
    sets = [[0, 1, 2, 3, 4] if v is vi else vals if v is vd else [0.0, 2.5, 5.0] for v in vs]
    for p in itertools.product(*sets):
        inside = [all(l <= a <= u for a, (l, u) in zip(p, b)) for b in boxes]
        H.check("every discrete point is in one branch", any(inside), f"{p} {boxes}")
        if all(v is not vc for v in vs):
            H.check("and only one", sum(inside) == 1, f"{p} {boxes}")
    for b in boxes:
        out = False
        for xx, (l, u) in zip(x, b):
            c = (xx < l) | (xx > u)
            out = c if out is False else out | c
        H.check("the relaxed solution is in neither branch", out)
    H.check("the largest violation is branched", all(b[j] == (v.lb, v.ub) or v is not vc for b in boxes for j, v in enumerate(vs)))


class Relaxation:
    """a valid relaxation of a problem given by a table: any point of the box, any lower bound"""
    def __init__(self, H, f, ok):
        self.H, self.f, self.ok, self.n, self.feasible = H, f, ok, 0, True
        self.result = types.SimpleNamespace(success=True)

    def solve(self, problem, x0=None, verb=False):
        H, self.n = self.H, self.n + 1
        free = problem.vars
        if not free:
            # a single point, given by the locked variable
            k = int(problem.all_vars[0].value)
            self.feasible = bool(self.ok[k])
            self.result.success = self.feasible
            return self.f[k], []
        v = free[0]
        pts = [k for k in self.f if v.lb <= k <= v.ub]
        x = H.real(f"relaxed{self.n}", 0.0, 3.0)
        H.assume((x >= v.lb) & (x <= v.ub))
        low = H.real(f"lower{self.n}", -10.0, 10.0)
        for k in pts:
            # the relaxation bounds every feasible design, and is exact at feasible ones
            if self.ok[k]:
                H.assume(low <= self.f[k])
            for e in (1e-3,):
                H.assume((x == k) | (x > k + e) | (x < k - e))
        for k in pts:
            if x == k:
                if self.ok[k]:
                    H.assume(low == self.f[k])
                else:
                    raise_infeasible(H)
        self.feasible = self.result.success = True
        return low, np.array([x])


def raise_infeasible(H):
    H.assume(False)


@job("O06", params=[dict(n=3, ok=o) for o in range(1, 8)], thorough_params=[dict(n=4, ok=o) for o in range(1, 16)],
     bounds="an arbitrary objective over three (thorough four) values with any feasible set, any valid relaxation")
def branch_and_bound(H, n, ok):
    f = {k: H.real(f"f{k}", -9.0, 9.0) for k in range(n)}
    oks = {k: bool(ok >> k & 1) for k in range(n)}
    v = IntegerVariable("i", 0, n - 1)
    P = OptimizationProblem("p", variables=[v])
    P.add(ObjectiveFunction("f", lambda X: f[int(X[0])]))
    P.add(NonLinearConstraint(lambda X: -1.0 if oks[int(X[0])] else 1.0, "<", "g"))
    B = bnb.BnB(P, lb_solver=Relaxation(H, f, oks))
    with mock.patch.object(lp.LP, "solve", lambda self, *a, **k: None):
        fb, xb = B.solve(P)
    x = int(xb[0])
    H.check("feasible", oks[x])
    H.eq("objective at the best design", fb, f[x], scale=10.0)
    for k in range(n):
        if oks[k]:
            H.le(f"optimum {k}", fb, f[k], scale=10.0)
    H.same("bounds restored", (v.lb, v.ub), (0, n - 1))
    H.same("unlocked", v.locked, False)


@job("O06", params=[dict(kind="ii"), dict(kind="id")], thorough_params=[dict(kind="ii", n=3), dict(kind="dd"), dict(kind="di", n=3)],
     bounds="a separable quadratic over two discrete variables of three (thorough four) values with any minimum point, exact relaxation")
def branch_and_bound_two(H, kind, n=2):
    vals = [0.5, 1.25, 3.0]
    mk = dict(i=lambda s: IntegerVariable(s, 0, n), d=lambda s: DiscreteVariable(s, values=vals))
    vs = [mk[k](f"v{j}") for j, k in enumerate(kind)]
    P = OptimizationProblem("p", variables=vs)
    t = [H.real(f"t{j}", -0.5, 3.5) for j in range(2)]
    P.add(ObjectiveFunction("f", lambda X: (X[0] - t[0]) ** 2 + 2 * (X[1] - t[1]) ** 2))

    class Exact:
        feasible, result = True, types.SimpleNamespace(success=True)

        def solve(self, problem, x0=None, verb=False):
            x = []
            for v in problem.vars:
                tj = t[vs.index(v)]
                x.append(v.lb if tj < v.lb else v.ub if tj > v.ub else tj)
            return P.obj(x), np.array(x)
    for j, k in enumerate(kind):
        for a in (range(n + 1) if k == "i" else vals):
            H.assume((t[j] > a + 2e-3) | (t[j] < a - 2e-3))
    B = bnb.BnB(P, lb_solver=Exact())
    with mock.patch.object(lp.LP, "solve", lambda self, *a, **k: None):
        fb, xb = B.solve(P)
    sets = [range(n + 1) if k == "i" else vals for k in kind]
    f = lambda a, b: (a - t[0]) ** 2 + 2 * (b - t[1]) ** 2
    hit = False
    for a, b in itertools.product(*sets):
        H.le(f"optimum {a} {b}", fb, f(a, b), scale=10.0, abs_=1e-6)
        c = (abs(xb[0] - a) <= 1e-4) & (abs(xb[1] - b) <= 1e-4)
        hit = c if hit is False else hit | c
    H.check("discrete design", hit)
    H.eq("objective at the best design", fb, f(xb[0], xb[1]), scale=10.0)


# ---------------------------------------------------------------------- O07
class Expr:
    __array_ufunc__ = None

    def __init__(self, c=None, k=0.0):
        self.c, self.k = dict(c or {}), k

    def __add__(self, o):
        if isinstance(o, Expr):
            c = dict(self.c)
            for v, a in o.c.items():
                c[v] = c.get(v, 0.0) + a
            return Expr(c, self.k + o.k)
        return Expr(self.c, self.k + o)
    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        return Expr({v: a * o for v, a in self.c.items()}, self.k * o)
    __rmul__ = __mul__

    def __le__(self, o):
        return ("<", self - o)

    def __ge__(self, o):
        return (">", self - o)

    def __eq__(self, o):
        return ("=", self - o)
    __hash__ = object.__hash__

    def at(self, y):
        r = self.k
        for v, a in self.c.items():
            r = r + a * y[v]
        return r


class LPVar(Expr):
    def __init__(self, owner, lb, ub, name, binary=False):
        super().__init__()
        self.n, self.lbd, self.ubd, self.nm, self.binary, self.owner = len(owner.vs), lb, ub, name, binary, owner
        self.c = {self.n: 1.0}

    def solution_value(self):
        return self.owner.value(self)

    x = property(solution_value)
    lb, ub = property(lambda s: s.lbd), property(lambda s: s.ubd)
    varName = property(lambda s: s.nm)


class Recorder:
    """stands in for a linear solver: records the program; the solution is whatever `values` gives"""
    CLP_LINEAR_PROGRAMMING = CBC_MIXED_INTEGER_PROGRAMMING = GLOP_LINEAR_PROGRAMMING = 0
    OPTIMAL, FEASIBLE, INFEASIBLE = 0, 1, 2
    H, last, status = None, None, 0
    values = None

    def __init__(self, *a, **k):
        self.vs, self.cons, self.objective, self.sense = [], [], None, None
        Recorder.last = self

    @staticmethod
    def CreateSolver(*a, **k):
        return Recorder()

    def NumVar(self, lb, ub, name=""):
        v = LPVar(self, lb, ub, name)
        self.vs.append(v)
        return v

    def BoolVar(self, name=""):
        v = LPVar(self, 0, 1, name, binary=True)
        self.vs.append(v)
        return v

    def IntVar(self, lb, ub, name=""):
        v = LPVar(self, lb, ub, name, binary=True)
        self.vs.append(v)
        return v

    def Sum(self, xs):
        r = Expr()
        for a in xs:
            r = r + a
        return r

    def Add(self, con, name=""):
        self.cons.append(con)
        return con

    def Minimize(self, e):
        self.objective, self.sense = e, "min"

    def Maximize(self, e):
        self.objective, self.sense = e, "max"

    def Solve(self, *a):
        return Recorder.status

    def variables(self):
        return self.vs

    def infinity(self):
        return 1e30

    def value(self, v):
        return Recorder.values(self, v)


class GModel(Recorder):
    """gurobi's names for the same"""
    def addVar(self, lb=0.0, ub=1e30, obj=0.0, vtype=None, name=""):
        return self.NumVar(lb, ub, name)

    def setObjective(self, e, sense=1):
        self.objective, self.sense = e, ("min" if sense == 1 else "max")

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        self.Add({"<": lhs <= rhs, ">": lhs >= rhs, "=": lhs == rhs}[sense])

    addConstr = addLConstr

    def update(self):
        pass

    def setParam(self, *a):
        pass

    def optimize(self, *a):
        pass

    def getVars(self):
        return self.vs

    Status = property(lambda self: 2 if Recorder.status == 0 else 3)


def fake_gurobi():
    g = types.ModuleType("gurobipy")
    g.Model = GModel
    g.GRB = types.SimpleNamespace(CONTINUOUS="C", BINARY="B", INTEGER="I", MINIMIZE=1, MAXIMIZE=-1, LESS_EQUAL="<", GREATER_EQUAL=">", EQUAL="=", OPTIMAL=2, INFEASIBLE=3)

    def lin(c, x):
        r = Expr()
        for a, b in zip(c, x):
            r = r + a * b
        return r
    g.LinExpr = lin
    g.quicksum = lambda xs: sum(xs, Expr())
    return g


@contextlib.contextmanager
def recording(values, status=0):
    Recorder.values, Recorder.status = staticmethod(values), status
    with mock.patch.object(pywraplp, "Solver", Recorder), mock.patch.dict(sys.modules, {"gurobipy": fake_gurobi()}):
        yield


def admits(cons, y, tol):
    """every recorded constraint holds at y by at least -tol"""
    r = True
    for s, e in cons:
        v = e.at(y)
        c = (v <= tol) if s == "<" else (v >= -tol) if s == ">" else (v <= tol) & (v >= -tol)
        r = c if r is True else (r & c)
    return r


def same_sets(H, name, rec, ref):
    """two lists of (sense, value) of constraints admit the same point"""
    H.same(name + " senses", sorted(s for s, _ in rec), sorted(s for s, _ in ref))
    H.check(name + " admits every point of the problem", not_(all_of([sense_ok(s, v, 0.0) for s, v in ref])) | all_of([sense_ok(s, v, 1e-5) for s, v in rec]))
    H.check(name + " admits no other point", not_(all_of([sense_ok(s, v, 0.0) for s, v in rec])) | all_of([sense_ok(s, v, 1e-5) for s, v in ref]))


def as_float(v):
    """float() that lets symbolic values through"""
    return v if hasattr(v, "n") else float(v)


def lin_problem(H, lock, rhs=True):
    objs = [Thing(A=0.0) for _ in range(3)]
    vs = [Variable(f"v{i}", -2.0 + i, 3.0 + i, target={"property": "A", "objects": [objs[i]]}) for i in range(3)]
    P = OptimizationProblem("p", variables=vs)
    if lock:
        vs[lock - 1].lock(1.25)
    types_ = H.choice("types", [("<", ">"), (">", "="), ("=", "<")])
    c = [H.real("c0", -3.0, 3.0), 1.5, -0.5]
    a = [[1.0, -2.0, H.real("a0", -3.0, 3.0)], [0.5, 1.0, 1.0]]
    b = [H.real("b0", -2.0, 2.0), 0.75]
    P.add(LinearConstraint(a[0], b[0], types_[0], "l"))
    return P, vs, types_, c, a, b


@job("O07", params=[dict(lock=k) for k in (0, 1, 3)], bounds="a linear program of three variables, none or one locked, two constraints of any type, both solvers, either sense, any candidate point")
def linear_program(H, lock):
    P, vs, ts, c, a, b = lin_problem(H, lock)
    P.add(LinearConstraint(a[1], vs[1] if H.flag("rhs variable") else b[1], ts[1], "m"))
    rv = P.cons[1].b is vs[1]
    typ = H.choice("type", ["MIN", "MAX"])
    P.add(LinearObjective("f", c, typ))
    free = [i for i in range(3) if not vs[i].locked]
    y = {k: H.real(f"y{k}", vs[i].lb, vs[i].ub) for k, i in enumerate(free)}
    full = [1.25 if vs[i].locked else y[free.index(i)] for i in range(3)]
    S = lp.LP(H.choice("algorithm", ["gurobi", "ortools"]))
    status = H.choice("status", [0, 2])
    with recording(lambda s, v: y[v.n], status):
        if status == 0:
            S.solve(P)
        else:
            with contextlib.suppress(Exception):
                S.solve(P)
    R = Recorder.last
    H.same("solution found", bool(S.feasible), status == 0)
    H.eqs("bounds", [(v.lbd, v.ubd) for v in R.vs], [(vs[i].lb, vs[i].ub) for i in free])
    same_sets(H, "program", [(s, e.at(y)) for s, e in R.cons],
              [(ts[0], sum(p * q for p, q in zip(a[0], full)) - b[0]), (ts[1], sum(p * q for p, q in zip(a[1], full)) - (full[1] if rv else b[1]))])
    zero = {k: 0.0 for k in y}
    H.eq("objective", (R.objective.at(y) - R.objective.at(zero)) * (1.0 if (R.sense == "min") == (typ == "MIN") else -1.0), sum(c[i] * y[k] for k, i in enumerate(free)), scale=20.0)
    if status == 0:
        H.eqs("solution", S.X, [y[k] for k in range(len(free))])


@job("O07", params=[dict(solver=s, lock=k, mode=m) for s in ("slp", "mislp") for k, m in ((1, "range"), (2, "relative"))],
     bounds="linear and linearised constraints of any type, points within the bounds, any step the subproblem allows, move limits 0.1..0.5")
def sequential(H, solver, lock, mode):
    P, vs, ts, c, a, b = lin_problem(H, lock)
    P.add(NonLinearConstraint(lambda X: sum(p * q for p, q in zip(a[1], X)) - b[1], ts[1], "m"))
    P.add(ObjectiveFunction("f", lambda X: sum(p * q for p, q in zip(c, X))))
    free = [i for i in range(3) if not vs[i].locked]
    ml = (H.real("down", 0.1, 0.5), 0.25)
    x = np.array([H.real(f"x{i}", vs[i].lb + 0.1, vs[i].ub - 0.1) if i == free[0] else 0.75 * vs[i].lb + 0.25 * vs[i].ub + 0.1 for i in free])
    kw = dict(beta=2.0) if solver == "slp" else {}
    S = slp.SLP(move_limits=ml, gamma=0.0, move_limit_type=mode, **kw) if solver == "slp" else mislp.MISLP(move_limits=ml, gamma=0.0, move_limit_type=mode)
    C = S.C
    y = {k: H.real(f"y{k}", vs[i].lb, vs[i].ub) for k, i in enumerate(free)}
    beta = H.choice("slack", [0.0, 0.5])
    S.problem, S.X = P, x.copy()
    P.substitute_variables(x)

    def value(s, v):
        return y[v.n] if v.n in y else beta
    with recording(value), mock.patch.object(mislp, "float", as_float, create=True):
        d = S.take_action()
    R = Recorder.last
    nb = len(free)
    H.same("variables", len(R.vs), nb + 1)
    for k, i in enumerate(free):
        rng = vs[i].ub - vs[i].lb if mode == "range" else abs(x[k])
        lo, hi = x[k] - ml[0] * rng, x[k] + ml[1] * rng
        H.check(f"lower move limit {i}", (abs(R.vs[k].lbd - lo) <= 1e-6) & (lo >= vs[i].lb - 1e-6) | (abs(R.vs[k].lbd - vs[i].lb) <= 1e-6) & (lo <= vs[i].lb + 1e-6))
        H.check(f"upper move limit {i}", (abs(R.vs[k].ubd - hi) <= 1e-6) & (hi <= vs[i].ub + 1e-6) | (abs(R.vs[k].ubd - vs[i].ub) <= 1e-6) & (hi >= vs[i].ub - 1e-6))
    full = [1.25 if vs[i].locked else y[free.index(i)] for i in range(3)]
    ref = [(ts[j], sum(p * q for p, q in zip(a[j], full)) - b[j]) for j in range(2)]
    y0 = dict(y)
    y0[nb] = 0.0
    rec = [(s, e.at(y0)) for s, e in R.cons]
    # two opposite inequalities are an equality
    strict = all_of([sense_ok(s, v, 1e-5) for s, v in rec])
    loose = all_of([sense_ok(s, v, 2e-3) for s, v in rec])
    H.check("subproblem admits the points of the problem", not_(all_of([sense_ok(s, v, 0.0) for s, v in ref])) | loose)
    H.check("subproblem admits no other points", not_(strict) | all_of([sense_ok(s, v, 2e-3) for s, v in ref]))
    # relaxed by the slack variable, which costs C
    y1 = dict(y0)
    y1[nb] = 0.5
    zero = {k: 0.0 for k in y0}
    H.eq("objective", R.objective.at(y0) - R.objective.at(zero), sum(c[i] * y[k] for k, i in enumerate(free)), scale=20.0, abs_=1e-3)
    H.eq("slack is penalised", R.objective.at(y1) - R.objective.at(y0), 0.5 * C, abs_=1e-3)
    H.same("minimised", R.sense, "min")
    if "=" not in ts:
        ref1 = all_of([sense_ok(s, v, 0.5) for s, v in ref])
        H.check("slack relaxes every constraint", not_(ref1) | all_of([sense_ok(s, e.at(y1), 2e-3) for s, e in R.cons]))
    if solver == "slp":
        X, _, _, _ = S.step(d)
        for k, i in enumerate(free):
            H.eq(f"new iterate {i}", X[k], y[k], scale=10.0)
            H.between(f"within bounds {i}", vs[i].lb, X[k], vs[i].ub)
            H.eq(f"design {i}", vs[i].target["objects"][0].A, X[k])
    else:
        for k in range(nb):
            H.eq(f"action {k}", d[k], y[k] - x[k], scale=10.0)


@job("O07", params=[dict(cur=k) for k in range(4)], bounds="a catalogue of four values, any current value, any solution of the subproblem")
def discrete_subproblem(H, cur):
    vals = [0.5, 1.2345, 3.0, 4.5]
    vs = [Variable("c", 0.0, 5.0), DiscreteVariable("d", values=vals), DiscreteVariable("e", values=[1.0, 2.0])]
    P = OptimizationProblem("p", variables=vs)
    P.add(ObjectiveFunction("f", lambda X: X[0] + X[1] - X[2]))
    b = H.real("b", -2.0, 2.0)
    P.add(LinearConstraint([1.0, 1.0, 1.0], b, ">", "l"))
    k, cur = cur, vals[cur]
    x = np.array([H.real("x0", 0.1, 4.9), cur, 1.0])
    ml = H.choice("move", [0.02, 0.3])
    S = mislp.MISLP(move_limits=(ml, ml), gamma=0.0)
    S.problem, S.X = P, x.copy()
    P.substitute_variables(x)
    sol = {}

    def value(s, v):
        if not sol:
            # any point that the recorded program allows
            for w in s.vs:
                if w.binary:
                    sol[w.n] = H.int(f"bin{w.n}", 0, 1)
                elif w.n in (1, 2):
                    sol[w.n] = H.choice(f"sol{w.n}", [0.5, 1.2345, 3.0, 4.5, 0.9] if w.n == 1 else [1.0, 2.0, 1.6])
                else:
                    sol[w.n] = H.real(f"sol{w.n}", 0.0, 5.0)
                H.assume((sol[w.n] >= w.lbd - 1e-9) & (sol[w.n] <= w.ubd + 1e-9))
            H.assume(admits(s.cons, sol, 1e-9))
        return sol[v.n]
    with recording(value), mock.patch.object(mislp, "float", as_float, create=True):
        d = S.take_action()
    X = [x[i] + d[i] for i in range(3)]
    R = Recorder.last
    H.check("discrete values", vs[1].is_allowed_value(X[1]) and vs[2].is_allowed_value(X[2]), f"{X}")
    H.between("continuous variable within its bounds", 0.0, X[0], 5.0)
    # neighbouring values can always be reached
    for j in (k - 1, k + 1):
        if 0 <= j < len(vals):
            H.check(f"neighbour {j - k} reachable", (R.vs[1].lbd <= vals[j] + 1e-9) & (R.vs[1].ubd >= vals[j] - 1e-9))
    H.check("constraint in the subproblem", any(s == ">" for s, e in R.cons))


@contextlib.contextmanager
def stub_minimize(fun):
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(scipy.optimize, "minimize", fun))
        for m in (slsqp, tr):
            if hasattr(m, "minimize"):
                st.enter_context(mock.patch.object(m, "minimize", fun))
        yield


@job("O07", params=[dict(solver="slsqp"), dict(solver="trust")], bounds="three variables, none or one locked, linear and nonlinear constraints of any type, any candidate point and solver outcome")
def scipy_solvers(H, solver):
    lock = H.choice("lock", [0, 2])
    vs = [Variable(f"v{i}", -2.0 + i, 3.0 + i) for i in range(3)]
    P = OptimizationProblem("p", variables=vs)
    if lock:
        vs[lock - 1].lock(1.25)
    ts = [H.choice("t0", ["<", ">", "="]), H.choice("t1", ["<", ">", "="])]
    b = H.real("b1", -2.0, 2.0)
    P.add(LinearConstraint([1.0, -2.0, 0.5], 0.75, ts[0], "l"))
    P.add(NonLinearConstraint(lambda X: X[0] * X[1] + X[2] - b, ts[1], "g"))
    P.add(ObjectiveFunction("f", lambda X: X[0] - X[2] + 2 * X[1], H.choice("type", ["MIN", "MAX"])))
    free = [i for i in range(3) if not vs[i].locked]
    y = [H.real(f"y{i}", vs[i].lb, vs[i].ub) for i in free]
    full = [1.25 if vs[i].locked else y[free.index(i)] for i in range(3)]
    s = 1.0 if P.obj.obj_type == "MIN" else -1.0
    rec, ok = {}, H.flag("success")

    def fake(fun, x0, **k):
        rec.update(k, fun=fun, x0=list(x0))
        return types.SimpleNamespace(x=np.array(y), fun=fun(y), success=ok, constr_violation=0.0 if ok else 1.0)
    S = slsqp.SLSQP() if solver == "slsqp" else tr.TrustRegionConstr()
    with stub_minimize(fake):
        f, x = S.solve(P)
    H.eq("objective", rec["fun"](y), s * (full[0] - full[2] + 2 * full[1]), scale=20.0)
    H.eq("best value", f, s * (full[0] - full[2] + 2 * full[1]), scale=20.0)
    H.eqs("best design", x, y)
    H.same("feasible", bool(S.feasible), ok)
    bn = rec["bounds"]
    bn = list(zip(bn.lb, bn.ub)) if hasattr(bn, "lb") else bn
    H.eqs("bounds", bn, [(vs[i].lb, vs[i].ub) for i in free])
    ref = [(ts[0], full[0] - 2 * full[1] + 0.5 * full[2] - 0.75), (ts[1], full[0] * full[1] + full[2] - b)]
    got = []
    for con in rec["constraints"]:
        if isinstance(con, dict):
            got.append(("=" if con["type"] == "eq" else ">", con["fun"](y)))
        else:
            v = con.fun(y) if hasattr(con, "fun") else sum(p * q for p, q in zip(np.asarray(con.A).reshape(-1), y))
            lo, hi = float(np.asarray(con.lb).reshape(-1)[0]), float(np.asarray(con.ub).reshape(-1)[0])
            got.append(("=", v - lo) if lo == hi else ("<", v - hi) if math.isfinite(hi) else (">", v - lo))
    H.check("constraints admit the points of the problem", not_(all_of([sense_ok(t, v, 0.0) for t, v in ref])) | all_of([sense_ok(t, v, 1e-6) for t, v in got]))
    H.check("constraints admit no other points", not_(all_of([sense_ok(t, v, 0.0) for t, v in got])) | all_of([sense_ok(t, v, 1e-6) for t, v in ref]))


# ---------------------------------------------------------------------- O08
@job("O08", params=[dict(j=0), dict(j=1), dict(j=2)], bounds="positions within the bounds, velocities up to 10, three kinds of variables")
def particle(H, j):
    vals = [0.5, 1.25, 3.0, 4.5]
    vs = [Variable("c", -1.0, 5.0), DiscreteVariable("d", values=vals), IntegerVariable("i", 1, 4)]
    P = OptimizationProblem("p", variables=vs)
    x = np.array([H.real("x0", -1.0, 5.0), H.choice("x1", vals), H.choice("x2", [1.0, 2.0, 4.0])])
    v = np.array([H.real(f"v{i}", -10.0, 10.0) if i == j else 0.25 for i in range(3)])
    p = pso.Particle(x.copy(), v.copy())
    p.move(P.xlb(), P.xub(), P)
    raw = [x[i] + v[i] for i in range(3)]
    H.between("continuous", -1.0, p.x[0], 5.0)
    H.check("moved by its velocity", (raw[0] < -1.0) | (raw[0] > 5.0) | (abs(p.x[0] - raw[0]) <= 1e-9))
    near = False
    for a in vals:
        c = abs(p.x[1] - a) <= 1e-9
        near = c if near is False else near | c
        H.check(f"nearest value {a}", (raw[1] < 0.5) | (raw[1] > 4.5) | (abs(p.x[1] - raw[1]) <= abs(raw[1] - a) + 1e-9))
    H.check("discrete", near)
    near = False
    for a in range(1, 5):
        c = abs(p.x[2] - a) <= 1e-9
        near = c if near is False else near | c
    H.check("integer", near)
    H.eqs("previous position kept as the best", p.best, x)


@job("O08", bounds="any sequence of three evaluations with any objective values and violations")
def personal_best(H):
    P = OptimizationProblem("p", variables=[Variable("c", 0.0, 5.0)])
    cur = {}
    P.add(ObjectiveFunction("f", lambda X: cur["f"]))
    S = pso.PSO(pop_size=1)
    S.problem = P
    S.penalty = lambda x: cur["v"]
    p = pso.Particle(np.array([0.0]))
    seen = []
    for k in range(3):
        ok = H.flag(f"feasible{k}")
        cur["f"], cur["v"] = H.real(f"f{k}", -5.0, 5.0), 0.0 if ok else H.real(f"v{k}", 0.01, 5.0)
        p.x = np.array([float(k)])
        S.eval_particle(p)
        seen.append((ok, cur["f"], cur["v"], float(k)))
        feas = [q for q in seen if q[0]]
        if feas:
            H.le(f"best is feasible {k}", p.best_scv, 0.0)
            for q in feas:
                H.check(f"best of the feasible positions {k}", p.best_f <= q[1])
            H.check(f"best position {k}", any_of([(p.best[0] == q[3]) & (p.best_f == q[1]) for q in feas]))
        else:
            for q in seen:
                H.check(f"least violation {k}", p.best_scv <= q[2])
            H.check(f"best position {k}", any_of([(p.best[0] == q[3]) & (p.best_scv == q[2]) for q in seen]))


def any_of(cs):
    r = False
    for c in cs:
        r = c if r is False else r | c
    return r


@job("O08", params=[dict(t=t, s=s, pop=1, crazy=True) for t in "<>" for s in (1.0, -1.0)], bounds="swarms of one, one step, every random number; a linear objective and one constraint")
def swarm(H, t, s, pop, crazy):
    P = OptimizationProblem("p", variables=[Variable("c", -1.0, 3.0)])
    seen = []

    def f(X):
        seen.append(X[0])
        return s * X[0]
    P.add(ObjectiveFunction("f", f))
    b = H.choice("b", [0.5, 10.0 if t == ">" else -10.0]) if pop == 1 else 0.5
    P.add(NonLinearConstraint(lambda X: X[0] - b, t, "g"))
    S = pso.PSO(pop_size=pop, crazy_prob=0.1 if crazy else -1.0)
    with mock.patch.object(np.random, "default_rng", lambda *a, _r=Rng(H): _r):
        fb, xb = S.solve(P, maxiter=1)
    for q in seen:
        H.between("visited designs within bounds", -1.0, q, 3.0)
    for part in S.swarm:
        H.between("velocity limits", -0.8, part.v[0], 0.8)
    H.same("evaluations", len(seen), 2 * pop)
    ok = [(q <= b) if t == "<" else (q >= b) for q in seen]
    if abs(b) < 5:
        if S.best_scv <= 1e-8:
            H.check("best is feasible", (xb[0] <= b + 1e-6) if t == "<" else (xb[0] >= b - 1e-6))
            H.eq("best value", fb, s * xb[0])
            for q, k in zip(seen, ok):
                H.check("best of the visited feasible designs", not_(k) | (fb <= s * q + 1e-9))
            H.check("best was visited", any_of([abs(xb[0] - q) <= 1e-9 for q in seen]))
        else:
            H.check("no feasible design visited", not_(any_of(ok)))
    else:
        H.check("nothing feasible", S.best_scv > 1.0)


@job("O08", bounds="three individuals, any objective values and constraint values of any type, one locked variable or none")
def genetic(H):
    vs = [IntegerVariable("a", 0, 2), IntegerVariable("i", 0, 3)]
    P = OptimizationProblem("p", variables=vs)
    lock = H.flag("locked")
    if lock:
        vs[0].lock(1)
    inds = [0, 2, 3]
    f = {k: H.real(f"f{k}", -5.0, 5.0) for k in inds}
    t = H.choice("type", ["<", ">", "="])
    g = {k: H.choice(f"g{k}", [-0.5, 0.0, 0.5]) for k in inds}
    P.add(ObjectiveFunction("f", lambda X: f[int(X[1])]))
    P.add(NonLinearConstraint(lambda X: g[int(X[1])], t, "g"))
    S = ga.GA(pop_size=3)
    S.problem = P
    vals = []
    for k in inds:
        r, = S.eval_individual([k] if lock else [1, k])
        viol = max(0.0, g[k]) if t == "<" else max(0.0, -g[k]) if t == ">" else abs(g[k])
        H.eq(f"fitness {k}", r, f[k] + 2e6 * viol * viol, rel=1e-9, abs_=1e-3)
        vals.append(r)
    for r in vals:
        H.check("best fitness", S.best_f <= r)
    H.check("best individual", any_of([(S.best_f == r) & (int(S.best_x[-1]) == k) for r, k in zip(vals, inds)]))
    P.substitute_variables(S.best_x)
    H.eq("best design", vs[1].value, S.best_x[-1])
