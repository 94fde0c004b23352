"""Local search, ants and moving asymptotes (O10)."""
import contextlib
import itertools
from unittest import mock

import numpy as np

from symx.registry import job
import metku.structures.steel.steel_member
from metku.optimization.variables import Variable, IndexVariable, DiscreteVariable
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
import metku.optimization.opt_functions as of
import metku.optimization.solvers.vns as vns
import metku.optimization.solvers.mma as mma
import metku.optimization.solvers.aco as aco
from harness.optim import not_
from harness.ec3_member import mx, mn


def problem(H, n=2, last=2, second=False):
    """any objective and constraint values at every point of a grid"""
    P = OptimizationProblem("p", variables=[IndexVariable(f"x{i}", values=[10.0 * k for k in range(last + 1)]) for i in range(n)])
    f, g = {}, {}

    def val(tab, nm, lo, hi):
        def fun(X):
            k = tuple(int(x) for x in X)
            if k not in tab:
                tab[k] = H.real(nm + "_".join(map(str, k)), lo, hi)
            return tab[k]
        return fun
    P.add(ObjectiveFunction("f", val(f, "f", -10.0, 10.0)))
    P.add(NonLinearConstraint(val(g, "g", -1.0, 1.0), "<", "g"))
    if second:
        h = H.real("h", -1.0, 1.0)
        P.add(NonLinearConstraint(lambda X: h, "<", "h"))
        return P, f, g, h
    return P, f, g


@job("O10", bounds="a step of -2..2 in two variables of three values, any objective values, two constraints of any values, any best value so far")
def step(H):
    P, f, g, h = problem(H, second=True)
    S = vns.DiscreteVNS(step_length=2)
    S.problem, S.X = P, np.array([H.choice("x0", [0, 1, 2]), 1])
    S.calc_constraints()
    best = S.best_fval = H.real("best", -10.0, 10.0)
    a = np.array([H.choice("a0", [-2, -1, 1]), H.choice("a1", [-2, 0, 1])])
    X, r, d, _ = S.step(a)
    exp = tuple(min(2, max(0, int(p + q))) for p, q in zip(S.X, a))
    H.same("new point", tuple(int(x) for x in X), exp)
    H.same("variables", [v.value for v in P.vars], list(exp))
    better = (f[exp] < best) & (g[exp] <= 0) & (h <= 0)
    H.check("step accepted", better if r > 0 else not_(better))
    H.eq("best value", S.best_fval, f[exp] if r > 0 else best)


class Clock:
    """time runs out after some draws"""
    def __init__(self, n):
        self.n = n

    def time(self):
        self.n -= 1
        return 0.0 if self.n > 0 else 1e9


@job("O10", params=[dict(calls=k) for k in (3, 4)], bounds="up to three draws of a step in two variables of three values, any objective and constraint values; the time runs out after them")
def neighbourhood(H, calls):
    P, f, g = problem(H)
    S = vns.DiscreteVNS(step_length=1)
    n = [0]

    def draw(lo, hi, k):
        n[0] += 1
        return np.array([H.choice(f"d{n[0]}", [-1, 1]), 1 if n[0] % 2 else -1])
    visited = [(1, 1)]
    real = S.step

    def record(a, X=[]):
        out = real(a, X)
        visited.append(tuple(int(x) for x in out[0]))
        return out
    with mock.patch.object(np.random, "randint", draw), mock.patch.object(vns, "time", Clock(calls)), mock.patch.object(S, "step", record):
        fopt, xopt = S.solve(P, x0=np.array([1, 1]), maxtime=10)
    x = tuple(int(v) for v in xopt)
    H.same("result was visited", x in visited, True)
    H.eq("value of the result", fopt, f[x])
    # feasible designs better than the fixed start value of 10000 are all of them here
    for q in visited[1:]:
        H.check("no visited feasible design is better", (g[q] > 0) | (f[x] <= f[q]))
    if x != (1, 1):
        H.check("result is feasible", g[x] <= 0)


# ------------------------------------------------------------------ ants
class Bar:
    def __init__(self, length, rho):
        self.length, self.rho = length, rho


class Structure:
    def __init__(self, members):
        self.members = members


def colony(H, ants, top, bars=2):
    A = [100.0, 250.0, 400.0]
    P = OptimizationProblem("p", variables=[DiscreteVariable(f"A{i}", values=A) for i in range(bars)])
    f, g = {}, {}

    def val(tab, nm, lo, hi):
        def fun(X):
            k = tuple(float(x) for x in X)
            if k not in tab:
                tab[k] = H.real(nm + "_".join(f"{x:.0f}" for x in k), lo, hi)
            return tab[k]
        return fun
    P.add(ObjectiveFunction("f", val(f, "f", 1.0, 10.0)))
    P.add(NonLinearConstraint(val(g, "g", -1.0, 1.0), "<", "g"))
    P.structure = Structure({i: Bar(1000.0 * (i + 1), 7.85e-6) for i in range(bars)})
    S = aco.AntColonyOptimizer(pop_size=ants, number_of_top_ants=top, penalty_factor=100.0, rho=0.8, xi=0.75, alpha=1, beta=1)
    return A, P, f, g, S


@contextlib.contextmanager
def draws(H, seen):
    n = [0]

    def pick(r, p=None):
        n[0] += 1
        seen.append(list(p))
        return H.choice(f"j{n[0]}", [0, 1, 2])
    with mock.patch.object(np.random, "choice", pick):
        yield


@job("O10", params=[dict(ants=a, it=i) for a, i in ((1, 1), (2, 1), (1, 2))], bounds="one or two ants with two bars of three areas, one or two rounds, any objective and constraint values")
def ants(H, ants, it):
    A, P, f, g, S = colony(H, ants, 1)
    seen, paths = [], []
    ev = S.eval_ant

    def record(ant, x):
        paths.append(tuple(float(v) for v in x))
        return ev(ant, x)
    with draws(H, seen), mock.patch.object(S, "eval_ant", record):
        fb, xb = S.solve(P, maxiter=it)
    H.same("number of designs", len(paths), ants * it)
    for p in seen:
        H.eq("probabilities", p[0] + p[1] + p[2], 1.0)
        for q in p:
            H.ge("probability", q, 0.0)
    fit = {p: f[p] + 100.0 * mx(g[p], 0.0) for p in paths}
    x = tuple(float(v) for v in xb)
    H.same("best was visited", x in fit, True)
    H.eq("best fitness", fb, fit[x])
    for p in fit:
        H.le("best of all", fb, fit[p], scale=1.0)


@job("O10", bounds="pheromone of every edge 0.1..10, fitness 1..100 of three ants; the two best leave a trail")
def pheromone(H):
    A, P, f, g, S = colony(H, 3, 2)
    S.problem = P
    S.initialize()
    m = P.structure.members
    base = 1 / sum(b.length * b.rho * A[0] for b in m.values())
    for i, b in m.items():
        for j, a in enumerate(A):
            H.eq(f"heuristic {i}{j}", S.heuristic_matrix[i][j], 1 / (b.length * b.rho * a))
            H.eq(f"start {i}{j}", S.pheromone_matrix[i][j], base)
            H.eq(f"probability {i}{j}", S.probability_matrix[i][j], base / (b.length * b.rho * a))
    t = np.array([[H.real(f"t{i}{j}", 0.1, 10.0) for j in range(3)] for i in range(2)], dtype=object)
    S.pheromone_matrix = t.copy()
    S.update_probabilities()
    for i, b in m.items():
        for j, a in enumerate(A):
            H.eq(f"attraction {i}{j}", S.probability_matrix[i][j], t[i][j] / (b.length * b.rho * a))
    L = []
    for k, choice in enumerate(((0, 1), (2, 1), (1, 0))):
        ant = aco.Ant(m)
        ant.x_index_and_value = [[j, A[j]] for j in choice]
        ant.fval, ant.penalty = H.real(f"f{k}", 1.0, 50.0), H.real(f"p{k}", 0.0, 50.0)
        L.append(ant)
    ref = t.copy()
    S.local_pheromone_update(L[0])
    for i, j in enumerate((0, 1)):
        ref[i][j] = ref[i][j] * 0.75
    S.global_pheromone_update(L)
    F = [a.fval + a.penalty for a in L]
    # away from ties
    for p, q in itertools.combinations(F, 2):
        H.assume((p > q + 1e-3) | (p < q - 1e-3))
    order = []
    for k in range(3):
        order.append(sum(1 for q in range(3) if F[q] < F[k]))
    for k, choice in enumerate(((0, 1), (2, 1), (1, 0))):
        if order[k] < 2:
            for i, j in enumerate(choice):
                ref[i][j] = ref[i][j] + 0.8 * (2 - order[k]) / F[k]
    for i in range(2):
        H.eqs(f"pheromone {i}", list(S.pheromone_matrix[i]), list(ref[i]))


# ------------------------------------------------------------------ moving asymptotes
class Stop(Exception):
    pass


@job("O10", params=[dict(first=f) for f in (True, False)], bounds="two variables with bounds -1..3 and 2..7, any last three iterates within them, any asymptotes 0.2..2 ranges from the previous iterate")
def asymptotes(H, first):
    lb, ub = [-1.0, 2.0], [3.0, 7.0]
    P = OptimizationProblem("p", variables=[Variable(f"x{i}", lb[i], ub[i]) for i in range(2)])
    P.add(ObjectiveFunction("f", lambda X: X[0] + X[1]))
    S = mma.MMA()
    S.problem = P
    D = [4.0, 5.0]
    i = H.choice("variable", [0, 1])
    mid = [1.0, 4.0]

    def pt(nm):
        return np.array([H.real(nm, lb[j], ub[j]) if j == i else mid[j] for j in range(2)], dtype=object)
    X = [pt("x2")] if first else [pt("x0"), pt("x1"), pt("x2")]
    S.xvals = list(X)
    x = X[-1]
    if not first:
        S.L = [X[-2] - np.array([H.real("l", 0.2, 2.0) * D[j] if j == i else 0.5 * D[j] for j in range(2)], dtype=object)]
        S.U = [X[-2] + np.array([H.real("u", 0.2, 2.0) * D[j] if j == i else 0.5 * D[j] for j in range(2)], dtype=object)]
    got = []

    def sub(P_, x, U, L):
        got.append((x, U, L))
        raise Stop()
    with mock.patch.object(mma, "MMAProblem", sub):
        try:
            S.take_action()
        except Stop:
            pass
    H.same("one subproblem", len(got), 1)
    y, U, L = got[0]
    H.eqs("approximated at the iterate", list(y), list(x))
    H.check("stored", len(S.L) == (1 if first else 2))
    for j in range(2):
        H.ge(f"iterate inside {j}", x[j] - L[j], 0.0099 * D[j])
        H.ge(f"iterate below {j}", U[j] - x[j], 0.0099 * D[j])
        H.le(f"near below {j}", x[j] - L[j], 10.001 * D[j], scale=1.0)
        H.le(f"near above {j}", U[j] - x[j], 10.001 * D[j], scale=1.0)
        if first:
            H.eqs(f"first {j}", [L[j], U[j]], [x[j] - 0.5 * D[j], x[j] + 0.5 * D[j]])
        elif j == i:
            d1, d2 = X[2][j] - X[1][j], X[1][j] - X[0][j]
            w = d1 * d2
            H.assume((w > 1e-3) | (w < -1e-3))
            k = 1.2 if w > 0 else 0.7
            dl, du = k * (X[1][j] - S.L[0][j]), k * (S.U[0][j] - X[1][j])
            H.eqs(f"moved {j}", [L[j], U[j]], [x[j] - dl, x[j] + du])


@job("O10", bounds="variable 0..4 at any iterate 0.5..3.5, asymptotes 0.3..3 away; a square and a linear constraint")
def subproblem(H):
    """bounds of the subproblem keep the iterate and stay between the asymptotes; the functions agree to first order"""
    P = OptimizationProblem("p", variables=[Variable("a", 0.0, 4.0), Variable("b", -2.0, 2.0)])
    c, s = H.real("c", -3.0, 3.0), H.real("s", -3.0, 3.0)
    P.add(ObjectiveFunction("f", lambda X: c * X[0] + X[1]))
    P.grad = lambda X: np.array([c, 1.0])
    g = NonLinearConstraint(lambda X: s * X[0] - X[1] - 1.0, "<", "g")
    g.grad = lambda X: np.array([s, -1.0])
    P.add(g)
    P.add(LinearConstraint(a=np.array([1.0, 2.0]), b=5.0, con_type="<"))
    x0 = H.choice("x", [0.5, 2.0, 3.5])
    x = np.array([x0, 0.5])
    k = H.choice("side", ["L", "U"])
    l, u = (H.real("l", 0.3, 3.0), 0.8) if k == "L" else (0.8, H.real("u", 0.3, 3.0))
    L, U = np.array([x0 - l, -1.0], dtype=object), np.array([x0 + u, 2.5], dtype=object)
    Q = mma.MMAProblem(P, x, U, L)
    v = Q.vars
    H.eqs("bounds", [v[0].lb, v[0].ub], [mx(mx(0.0, x0 - 0.9 * l), x0 - 2.0), mn(mn(4.0, x0 + 0.9 * u), x0 + 2.0)])
    H.eqs("bounds of the other", [v[1].lb, v[1].ub], [max(-2.0, -1.0 + 0.15, 0.5 - 2.0), min(2.0, 2.5 - 0.2, 2.5)])
    H.eqs("start", [v[0].value, v[1].value], [x0, 0.5])
    H.same("constraints", len(Q.cons), 2)
    fk, gk = c * x0 + 0.5, s * x0 - 1.5
    H.eqs("values", [Q.obj(x), Q.cons[0](x), Q.cons[1](x)], [fk, gk, x0 + 1.0 - 5.0], abs_=1e-9)
    H.eqs("values of the problem", [P.obj(x), P.cons[0](x)], [fk, gk])
    h = 1e-3
    for nm, F, d in (("objective", Q.obj, (c, 1.0)), ("constraint", Q.cons[0], (s, -1.0))):
        for j in range(2):
            e = np.array([0.0, 0.0])
            e[j] = h
            slope = (F(x + e) - F(x - e)) / (2 * h)
            H.eq(f"slope of the {nm} {j}", slope, d[j], abs_=1e-3)


# ------------------------------------------------------------------ binary form of index variables
class Member:
    def __init__(self, s):
        self.cross_section = s


class Profile:
    """a profile of a catalogue: area and depth"""
    def __init__(self, A, H):
        self.A, self.H = A, H


CAT = [[(503.0, 50.0), (940.25, 80.0), (1440.123, 100.0)], [(900.5, 60.0), (700.75, 90.0)]]


def binaries(H, kind):
    cats = [[Profile(*x) for x in c] for c in CAT]
    members = [Member(cats[0][0]), Member(cats[0][0]), Member(cats[1][0])]
    P = OptimizationProblem("p", variables=[Variable("c", 0.0, 5.0, value=1.0)])
    start = H.choice("start", [(0, 1), (2, 0)])
    for k, objs in enumerate((members[:2], members[2:])):
        P.add(IndexVariable(f"i{k}", values=cats[k], target={"property": "cross_section", "objects": objs}, value=start[k]))
    Q, packs = of.index2binary(P, ["A", "H"], kind)
    return cats, members, start, Q, packs


@job("O11", params=[dict(kind=k) for k in ("continuous", "discrete")], bounds="two groups of members with three and two profiles; any relaxed selection, any violation of at least 0.001")
def index_to_binary(H, kind):
    """the constraints hold exactly at the points that mean a selection of profiles"""
    cats, members, start, Q, packs = binaries(H, kind)
    V = Q.vars
    H.same("variables", (len(V), sum(isinstance(v, IndexVariable) for v in V), V[0].name, len(packs)), (1 + 2 * 2 + 5, 0, "c", 2))
    X, who = {id(V[0]): H.real("c", 0.0, 5.0)}, []
    for k, pk in enumerate(packs):
        n = len(cats[k])
        H.same(f"group {k}", (len(pk["props"]), len(pk["binary"]), [b.section for b in pk["binary"]]), (2, n, cats[k]))
        H.same(f"bounds of the choices {k}", [(b.lb, b.ub) for b in pk["binary"]], [(0, 1)] * n)
        H.same(f"start {k}", [b.value for b in pk["binary"]], [int(j == start[k]) for j in range(n)])
        b = [H.real(f"b{k}{j}", 0.0, 1.0 / (n - 1)) for j in range(n - 1)]
        b.append(1.0 - sum(b))
        for v, x in zip(pk["binary"], b):
            X[id(v)] = x
            who.append(v)
        for v, (nm, col) in zip(pk["props"], (("A", 0), ("H", 1))):
            vals = [c[col] for c in CAT[k]]
            H.eqs(f"range of {nm}{k}", [v.lb, v.ub], [min(vals), max(vals)])
            H.eq(f"start of {nm}{k}", v.value, vals[start[k]])
            H.same(f"target of {nm}{k}", (v.target["property"], v.target["objects"]), (nm, members[:2] if k == 0 else members[2:]))
            X[id(v)] = sum(x * a for x, a in zip(b, vals))
            who.append(v)
    x = np.array([X[id(v)] for v in V], dtype=object)
    H.same("number of rows", len(Q.cons), 6)
    for i, c in enumerate(Q.cons):
        H.same(f"type of row {i}", c.type, "=")
        H.eq(f"row {i}", c(x), 0.0, scale=1e3)
    w = who[H.choice("disturbed", range(len(who)))]
    d = H.real("d", 0.001, 0.5) * H.choice("sign", [1, -1])
    # the rows themselves: evaluating a constraint moves values to their bounds first
    y = np.array([X[id(v)] + (d if v is w else 0.0) for v in V], dtype=object)
    big = False
    for c in Q.cons:
        r = np.dot(c.a, y) - c.b
        e = (r > 5e-4) | (r < -5e-4)
        big = e if big is False else big | e
    H.check("disturbed point violates a row", big)


@job("O11", bounds="any values of the properties of two groups of members")
def binary_substitution(H):
    cats, members, start, Q, packs = binaries(H, "continuous")
    val = {}
    x = []
    for v in Q.vars:
        t = [(k, j) for k, pk in enumerate(packs) for j, p in enumerate(pk["props"]) if p is v]
        if t:
            k, j = t[0]
            lo, hi = v.lb, v.ub
            val[k, j] = H.real(f"v{k}{j}", lo, hi)
            x.append(val[k, j])
        else:
            x.append(float(v.value))
    Q.substitute_variables(x)
    for i, m in enumerate(members):
        k = 0 if i < 2 else 1
        H.eqs(f"member {i}", [m.cross_section.A, m.cross_section.H], [val[k, 0], val[k, 1]])
    for c, ref in zip(cats, CAT):
        H.same("catalogue unchanged", [(p.A, p.H) for p in c], ref)


@job("O11", bounds="three constraints of the three types with any values")
def nearly_active(H):
    P = OptimizationProblem("p", variables=[Variable("c", 0.0, 5.0, value=1.0)])
    g = [H.real(f"g{i}", -1.0, 1.0) for i in range(3)]
    for i, t in enumerate("<>="):
        P.add(NonLinearConstraint(lambda X, i=i: g[i], t, f"g{i}"))
    got = of.potentially_active_constraints(P, [1.0])
    ok = [g[0] > -0.25, g[1] < 0.25, None]
    for i, c in enumerate(P.cons):
        inside = any(q is c for q in got)
        H.check(f"constraint {i}", inside if i == 2 else ok[i] if inside else not_(ok[i]))
