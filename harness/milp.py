"""Linear and mixed-integer linear formulations of minimum weight truss design (O09)."""
import warnings
from math import sqrt, floor

import numpy as np

from symx.registry import job
import metku.structures.steel.steel_member
from metku.frame2d.frame2d import PointLoad, XYHingedSupport, XHingedSupport, YHingedSupport
from metku.frame2d.simple_truss import SimpleTruss
from metku.optimization.problems.truss_optimization import truss_lp, truss_milp
from metku.optimization.problems.truss_milp import TrussMILP
from metku.sections.steel import SHS, RHS

warnings.simplefilter("ignore")
E = 210e3
# nodes, members, supported directions by node, loaded nodes
TRUSSES = {
    "three": ([(0, 0), (-1500, 2000), (0, 2000), (2000, 1500)], [(0, 1), (0, 2), (0, 3)], {1: "xy", 2: "xy", 3: "xy"}, [0]),
    "square": ([(0, 0), (0, 3000), (4000, 0), (4000, 3000)], [(0, 2), (1, 3), (2, 3), (0, 3), (2, 1)], {0: "xy", 1: "xy"}, [2, 3]),
    "roller": ([(0, 0), (3000, 4000), (6000, 0)], [(0, 1), (2, 1), (0, 2)], {0: "xy", 2: "y"}, [1, 2]),
}
SUPP = {"xy": XYHingedSupport, "x": XHingedSupport, "y": YHingedSupport}


class Model:
    def __init__(self, name, loads):
        """loads: for every load case {node: (Fx, Fy)}"""
        self.nodes, self.mems, self.supp, _ = TRUSSES[name]
        X = [list(map(float, p)) for p in self.nodes]
        t = SimpleTruss(X, self.mems, ["SHS 100x100x5.0"] * len(self.mems))
        for n, s in self.supp.items():
            t.add(SUPP[s](X[n]))
        for k, lc in enumerate(loads):
            for n, F in lc.items():
                t.add(PointLoad(X[n], [F[0], F[1], 0.0], load_id=k + 2, name=f"P{k}{n}"))
        t.generate()
        t.f.nodal_dofs()
        self.t = t
        # number of every free displacement: (node, direction)
        free = sorted(set(range(t.f.dofs)) - set(t.f.supp_dofs))
        self.dofs = []
        for d in free:
            for nd in t.f.nodes:
                for c in range(2):
                    if nd.dofs[c] == d:
                        n = min(range(len(X)), key=lambda i: abs(X[i][0] - nd.coord[0]) + abs(X[i][1] - nd.coord[1]))
                        self.dofs.append((n, c))
        self.geo = []
        for a, b in self.mems:
            d = (X[b][0] - X[a][0], X[b][1] - X[a][1])
            L = sqrt(d[0] ** 2 + d[1] ** 2)
            self.geo.append((a, b, (d[0] / L, d[1] / L), L))

    def elongation(self, i, u):
        """of member i for the displacements {(node, direction): value}"""
        a, b, e, _ = self.geo[i]
        return sum(e[c] * (u.get((b, c), 0.0) - u.get((a, c), 0.0)) for c in range(2))

    def resisting(self, N, dof):
        """load that the axial forces N balance at a free displacement"""
        n, c = dof
        r = 0.0
        for i, (a, b, e, _) in enumerate(self.geo):
            if n == b:
                r = r + e[c] * N[i]
            elif n == a:
                r = r - e[c] * N[i]
        return r


def residual(con, x):
    return sum((float(ai) * xi for ai, xi in zip(con.a, x) if float(ai) != 0.0), 0.0) - con.b


def holds(con, x, tol):
    r = residual(con, x)
    if con.type == "<":
        return r <= tol
    if con.type == ">":
        return r >= -tol
    return (r <= tol) & (r >= -tol)


def everything(cs):
    r = True
    for c in cs:
        r = c if r is True else r & c
    return r


def forces(H, M, nlc, scale=1e5):
    """loads in equilibrium with arbitrary member forces; returns the forces"""
    Ns = [[H.real(f"N{k}_{i}", -scale, scale) for i in range(len(M.mems))] for k in range(nlc)]
    return Ns


def loads_of(M, Ns):
    out = []
    for N in Ns:
        lc = {}
        for n in range(len(M.nodes)):
            f = [M.resisting(N, (n, c)) if (n, c) in M.dofs else 0.0 for c in range(2)]
            if any((n, c) in M.dofs for c in range(2)):
                lc[n] = f
        out.append(lc)
    return out


@job("O09", params=[dict(truss=t, nlc=n) for t in TRUSSES for n in (1, 2)],
     bounds="three trusses, one or two load cases, member forces up to 100 kN, areas in [1,1e4] mm2, any yield strengths given or from the material")
def linear(H, truss, nlc):
    M0 = Model(truss, [{TRUSSES[truss][3][0]: (1.0, 1.0)}] * nlc)
    N = forces(H, M0, nlc)
    M = Model(truss, loads_of(M0, N))
    n = len(M.mems)
    A = [H.real(f"A{i}", 1.0, 1e4) for i in range(n)]
    s = H.choice("strength", [None, (200.0, 300.0)])
    lp = truss_lp(M.t, 1.0, 1e4) if s is None else truss_lp(M.t, 1.0, 1e4, slb=s[0], sub=s[1])
    lo, hi = (355.0, 355.0) if s is None else s
    H.same("number of variables", lp.nvars(), n + nlc * n)
    x = A + [v for Nk in N for v in Nk]
    for v, a in zip(lp.all_vars[:n], A):
        H.same("bounds of the areas", (float(v.lb), float(v.ub)), (1.0, 1e4))
    # forces in equilibrium satisfy the equations; any change of one of them does not
    ok = [(c, residual(c, x)) for c in lp.cons]
    eq = [r for c, r in ok if c.type == "="]
    H.same("equations of equilibrium", len(eq), nlc * len(M.dofs))
    for r in eq:
        H.between("equilibrium", -1e-3, r, 1e-3)
    d = H.real("change", -1e5, 1e5)
    H.assume((d > 10.0) | (d < -10.0))
    j = H.choice("changed", range(nlc * n))
    y = list(x)
    y[n + j] = y[n + j] + d
    a, b, e, _ = M.geo[j % n]
    if (a, 0) in M.dofs or (b, 0) in M.dofs or (a, 1) in M.dofs:
        if any(abs(e[c]) > 1e-9 and (m, c) in M.dofs for m in (a, b) for c in range(2)):
            H.check("another force is not in equilibrium", ~everything([(residual(c, y) <= 1e-3) & (residual(c, y) >= -1e-3) for c in lp.cons if c.type == "="]))
    # strength: exactly the forces between the compressive and the tensile resistance
    ins = everything([holds(c, x, 0.0) for c in lp.cons if c.type != "="])
    out = everything([holds(c, x, 1e-3) for c in lp.cons if c.type != "="])
    phys = everything([(Nk[i] <= hi * A[i]) & (Nk[i] >= -lo * A[i]) for Nk in N for i in range(n)])
    tight = everything([(Nk[i] <= hi * A[i] - 1e-2) & (Nk[i] >= -lo * A[i] + 1e-2) for Nk in N for i in range(n)])
    wide = everything([(Nk[i] <= hi * A[i] + 1e-2) & (Nk[i] >= -lo * A[i] - 1e-2) for Nk in N for i in range(n)])
    H.check("strong enough members are accepted", ~tight | out)
    H.check("weak members are rejected", ~ins | wide)
    c = lp.obj.c
    H.eq("volume", sum(float(ci) * xi for ci, xi in zip(c, x)), sum(g[3] * a for g, a in zip(M.geo, A)))


PROFILES = [(60, 4), (80, 5), (100, 3)]


def profiles(n):
    return [SHS(*p) for p in PROFILES[:n]]


class Discrete:
    """one of the two mixed-integer formulations and the meaning of its variables"""
    def __init__(self, H, M, form, nlc, nprof, umax, problem="sizing", groups=None, member_profiles=None, scale=None):
        n = len(M.mems)
        P = profiles(nprof)
        self.n, self.nlc, self.P = n, nlc, P
        self.av = [list(range(nprof)) for _ in range(n)]
        if form == "function":
            self.p = truss_milp(M.t, P, ulb=-umax, uub=umax)
            self.sN, self.su = 1e-3, 1e-1
            vs = self.p.all_vars
            m = n * nprof
            self.y = [vs[i * nprof:(i + 1) * nprof] for i in range(n)]
            self.N = [[vs[m + k * m + i * nprof:m + k * m + (i + 1) * nprof] for i in range(n)] for k in range(nlc)]
            d = len(M.dofs)
            self.u = [vs[m + nlc * m + k * d:m + nlc * m + (k + 1) * d] for k in range(nlc)]
            self.extra = []
        else:
            self.sN, self.su = scale or (1.0, 1.0)
            self.F = F = TrussMILP("truss", M.t, P, ulb=-umax, uub=umax, scaling={"N": self.sN, "u": self.su}, groups=groups, member_profiles=member_profiles)
            F.create_milp(problem)
            self.p = F.milp
            for g in member_profiles or []:
                self.av[g["member"]] = g["profiles"]
            for g in groups or []:
                for i in g["members"]:
                    self.av[i] = g["profiles"]
            self.y = F.vars["profile"]
            self.N = [[F.vars["force"][i][k] for i in range(n)] for k in range(nlc)]
            self.u = F.vars["disp"]
            self.extra = [F.vars["member"], F.vars["node"], F.vars["group"]]
        self.index = {id(v): j for j, v in enumerate(self.p.all_vars)}
        self.M = M
        M.t.f  # the truss
        self.res = []
        for i, mem in M.t.members.items():
            r = []
            for j in self.av[i]:
                mem.profile = P[j]
                r.append((floor(P[j].NRd), min(floor(P[j].NRd), floor(mem.NbRd[0]))))
            self.res.append(r)

    def vector(self, vals):
        """vals: list of (variables, values)"""
        x = [0.0] * len(self.p.all_vars)
        for vs, ws in vals:
            for v, w in zip(vs, ws):
                x[self.index[id(v)]] = w
        return x


CASES = [dict(truss="three", nlc=2, form="function"), dict(truss="square", nlc=1, form="function"), dict(truss="roller", nlc=2, form="function"),
         dict(truss="three", nlc=2, form="class"), dict(truss="square", nlc=1, form="class"), dict(truss="roller", nlc=2, form="class"),
         dict(truss="three", nlc=1, form="scaled"), dict(truss="square", nlc=2, form="scaled"), dict(truss="square", nlc=1, form="members"), dict(truss="three", nlc=2, form="members")]


@job("O09", params=CASES, bounds="three trusses, one or two load cases, three profiles, every choice of the profile of one member, displacements within the bounds of 20 mm: the true response of the chosen truss satisfies all constraints but the strength of overloaded members")
def response(H, truss, nlc, form):
    umax = 20.0
    M0 = Model(truss, [{TRUSSES[truss][3][0]: (1.0, 1.0)}] * nlc)
    n = len(M0.mems)
    mp = [dict(member=0, profiles=[2, 0])] if form == "members" else None
    av = [[2, 0] if mp and i == 0 else [0, 1, 2] for i in range(n)]
    first = H.choice("profile of the first member", range(len(av[0])))
    pick = [first] + [(i + first) % len(av[i]) for i in range(1, n)]
    P = profiles(3)
    u = [{d: H.real(f"u{k}_{d[0]}{d[1]}", -umax, umax) for d in M0.dofs} for k in range(nlc)]
    # forces of the chosen members and the loads that they balance
    N = [[E * P[av[i][pick[i]]].A / M0.geo[i][3] * M0.elongation(i, u[k]) for i in range(n)] for k in range(nlc)]
    M = Model(truss, loads_of(M0, N))
    D = Discrete(H, M, "function" if form == "function" else "class", nlc, 3, umax, member_profiles=mp, scale=(1e-3, 0.1) if form == "scaled" else None)
    vals = []
    for i in range(n):
        vals.append((D.y[i], [1.0 if j == pick[i] else 0.0 for j in range(len(av[i]))]))
        for k in range(nlc):
            vals.append((D.N[k][i], [N[k][i] * D.sN if j == pick[i] else 0.0 for j in range(len(av[i]))]))
    for k in range(nlc):
        vals.append((D.u[k], [u[k][d] * D.su for d in M.dofs]))
    x = D.vector(vals)
    tol = 2.0 * D.sN
    strong = []
    for k in range(nlc):
        for i in range(n):
            t, c = D.res[i][pick[i]]
            strong.append((N[k][i] <= t - 1.0) & (N[k][i] >= -c + 1.0))
    for v, w in zip(D.p.all_vars, x):
        H.between("within the bounds of the variable", v.lb - tol, w, v.ub + tol)
    # everything but the strength of the chosen members
    yN = {D.index[id(v)] for k in range(nlc) for i in range(n) for v in D.N[k][i]}
    for c in D.p.cons:
        inv = [j for j in range(len(x)) if float(c.a[j]) != 0.0]
        forces_in = [j for j in inv if j in yN]
        disp_in = [j for j in inv if any(D.index[id(v)] == j for uk in D.u for v in uk)]
        if c.type != "=" and len(forces_in) == 1 and not disp_in:
            continue
        H.check("constraint holds", holds(c, x, tol), c.name)
    H.check("strong enough truss is accepted", ~everything(strong) | everything([holds(c, x, tol) for c in D.p.cons]))
    weak = [(N[k][i] > D.res[i][pick[i]][0] + 3.0) | (N[k][i] < -D.res[i][pick[i]][1] - 3.0) for k in range(nlc) for i in range(n)]
    bad = weak[0]
    for w in weak[1:]:
        bad = bad | w
    H.check("overloaded truss is rejected", ~bad | ~everything([holds(c, x, 0.5 * tol) for c in D.p.cons]))
    W = sum(P[av[i][pick[i]]].weight() * M.geo[i][3] for i in range(n))
    H.eq("weight", sum(float(ci) * xi for ci, xi in zip(D.p.obj.c, x)), W)


@job("O09", params=[dict(truss=t, form=f) for t in TRUSSES for f in ("function", "class", "scaled")],
     bounds="two load cases, two profiles, two choices of profiles: any forces and displacements that the constraints accept are those of the chosen truss")
def exact(H, truss, form):
    umax, nlc = 20.0, 2
    F = [[(H.real(f"F{k}x", -1e5, 1e5), H.real(f"F{k}y", -1e5, 1e5)) for _ in TRUSSES[truss][3][:1]] for k in range(nlc)]
    loads = [{TRUSSES[truss][3][0]: F[k][0]} for k in range(nlc)]
    M = Model(truss, loads)
    n = len(M.mems)
    D = Discrete(H, M, "function" if form == "function" else "class", nlc, 2, umax, scale=(1e-3, 0.1) if form == "scaled" else None)
    flip = H.choice("profiles", [0, 1])
    pick = [(i + flip) % 2 for i in range(n)]
    k = H.choice("load case", range(nlc))
    vals = []
    Nv = {}
    uv = {}
    for i in range(n):
        vals.append((D.y[i], [1.0 if j == pick[i] else 0.0 for j in range(2)]))
        for q in range(nlc):
            Nv[q, i] = [H.real(f"N{q}_{i}_{j}", -1e7, 1e7) for j in range(2)]
            vals.append((D.N[q][i], [w * D.sN for w in Nv[q, i]]))
    for q in range(nlc):
        uv[q] = {d: H.real(f"u{q}_{d[0]}{d[1]}", -umax, umax) for d in M.dofs}
        vals.append((D.u[q], [uv[q][d] * D.su for d in M.dofs]))
    x = D.vector(vals)
    tol = 0.1 * D.sN
    for c in D.p.cons:
        H.assume(holds(c, x, tol))
    for i in range(n):
        H.between(f"no force in a profile that is not chosen {i}", -1.0, Nv[k, i][1 - pick[i]], 1.0)
        N = Nv[k, i][pick[i]]
        H.between(f"force of the chosen profile {i}", -5.0, N - E * D.P[pick[i]].A / M.geo[i][3] * M.elongation(i, uv[k]), 5.0)
        H.between(f"strength {i}", -D.res[i][pick[i]][1] - 5.0, N, D.res[i][pick[i]][0] + 5.0)
    tot = [Nv[k, i][0] + Nv[k, i][1] for i in range(n)]
    for d in M.dofs:
        H.between(f"equilibrium {d}", -5.0, M.resisting(tot, d) - loads[k].get(d[0], (0.0, 0.0))[d[1]], 5.0)


@job("O09", params=[dict(truss=t, form=f) for t in TRUSSES for f in ("function", "class")], bounds="every value of the profile variables: only one profile for every member")
def one_profile(H, truss, form):
    M = Model(truss, [{TRUSSES[truss][3][0]: (1e4, 1e4)}])
    D = Discrete(H, M, form, 1, 3, 20.0)
    y = [[H.int(f"y{i}_{j}", 0, 1) for j in range(3)] for i in range(D.n)]
    x = D.vector([(D.y[i], y[i]) for i in range(D.n)])
    eqs = [c for c in D.p.cons if c.type == "=" and all(float(c.a[D.index[id(v)]]) == 0.0 for uk in D.N[0] for v in uk)]
    ok = everything([holds(c, x, 1e-9) for c in eqs])
    ref = everything([(sum(y[i]) >= 1) & (sum(y[i]) <= 1) for i in range(D.n)])
    H.check("one profile each is accepted", ~ref | ok)
    H.check("anything else is rejected", ~ok | ref)


@job("O09", params=[dict(truss=t, grouped=g) for t in TRUSSES for g in (False, True)],
     bounds="every combination of the existence variables of members, nodes and groups and of the profile variables")
def topology(H, truss, grouped):
    M = Model(truss, [{TRUSSES[truss][3][0]: (1e4, 1e4)}])
    groups = [dict(members=[0, 1], profiles=[0, 1])] if grouped else None
    D = Discrete(H, M, "class", 1, 2, 20.0, problem="topology", groups=groups)
    n = D.n
    order = range(n)
    few = [i for i in order if grouped and i < 2] if grouped else list(order)
    y = [[H.int(f"y{i}_{j}", 0, 1) for j in range(2)] if i in few else [0, 0] for i in range(n)]
    Y = [H.int(f"Y{i}", 0, 1) if i in few or not grouped else 0 for i in range(n)]
    z = [H.int(f"z{i}", 0, 1) for i in range(len(M.nodes))] if not grouped else [0] * len(M.nodes)
    w = [H.int(f"w{j}", 0, 1) for j in range(2)] if grouped else []
    # node variables follow the numbers of the nodes of the model
    num = [min(range(len(M.nodes)), key=lambda i: abs(M.nodes[i][0] - nd.coord[0]) + abs(M.nodes[i][1] - nd.coord[1])) for nd in M.t.f.nodes]
    x = D.vector([(D.y[i], y[i]) for i in range(n)] + [(D.extra[0], Y), (D.extra[1], [z[i] for i in num]), (D.extra[2], w)])
    state = {D.index[id(v)] for i in range(n) for v in D.N[0][i]} | {D.index[id(v)] for v in D.u[0]}
    zs = {D.index[id(v)] for v in D.extra[1]}
    cons = [c for c in D.p.cons if not any(float(c.a[j]) != 0.0 for j in state)]
    if grouped:
        # nodes aside: they are judged without groups
        cons = [c for c in cons if not any(float(c.a[j]) != 0.0 for j in zs)]
    ok = everything([holds(c, x, 1e-9) for c in cons])
    ref = [(Y[i] <= sum(y[i])) & (Y[i] >= sum(y[i])) for i in few]
    if not grouped:
        at = [[i for i, (a, b) in enumerate(M.mems) if q in (a, b)] for q in range(len(M.nodes))]
        for q in range(len(M.nodes)):
            ref += [Y[i] <= z[q] for i in at[q]]
            ref.append(sum(Y[i] for i in at[q]) >= (1 if q in M.supp else 2) * z[q])
        ref.append(sum(Y) >= 2 * sum(z) - sum(len(s) * z[q] for q, s in M.supp.items()))
        ref.append(sum(z[q] for q in M.supp) >= 2)
    else:
        ref += [w[0] + w[1] <= 1]
        ref += [y[i][j] <= w[j] for i in range(2) for j in range(2)]
        ref += [w[j] <= y[0][j] + y[1][j] for j in range(2)]
    ref = everything(ref)
    H.check("sound designs are accepted", ~ref | ok)
    H.check("others are rejected", ~ok | ref)


@job("O09", params=[dict(form=f) for f in ("function", "class", "topology")], bounds="all choices of profiles, after any other choice; members may vanish and come back")
def substitute(H, form):
    M = Model("three", [{0: (1e4, 1e4)}])
    D = Discrete(H, M, "function" if form == "function" else "class", 1, 3, 20.0, problem="topology" if form == "topology" else "sizing")
    for step in range(2):
        pick = [H.choice(f"member {i} step {step}", range(3)) for i in range(2)] + [step]
        gone = H.choice(f"vanishes {step}", [None, 0, 1]) if form == "topology" else None
        vals = [(D.y[i], [1.0 if j == pick[i] and i != gone else 0.0 for j in range(3)]) for i in range(3)]
        if form == "topology":
            vals += [(D.extra[0], [0.0 if i == gone else 1.0 for i in range(3)]), (D.extra[1], [1.0] * 4)]
        u = [H.real(f"u{step}{j}", -1.0, 1.0) for j in range(2)]
        vals.append((D.u[0], u))
        x = D.vector(vals)
        (D.F.substitute_design if form != "function" else D.p.substitute_variables)(x)
        for i, mem in M.t.members.items():
            if i != gone:
                H.same(f"profile {i}", (mem.cross_section.H, mem.cross_section.T), PROFILES[pick[i]])
            if form == "topology":
                H.same(f"active {i}", bool(mem.active), i != gone)
