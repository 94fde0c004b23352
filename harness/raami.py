"""Raami frames: analysis of the frame model (R01), load combinations (R02), self-weight (R03), moved nodes (R04),
design of members (R05), choice of profiles (R06)."""
import contextlib
from unittest import mock

import numpy as np

from symx.registry import job
import metku.raami.frame_member as fm
import metku.structures.steel.steel_member
from metku.raami.raami import Raami
from metku.raami.frame_node import FrameNode
from metku.raami.frame_member import SteelFrameMember, FrameMember, MemberGroup
from metku.raami.frame_loads import PointLoad, LineLoad, PWLineLoad, LoadCase, LoadCombination
from metku.raami.frame_supports import FixedSupport, XYHingedSupport, XHingedSupport, YHingedSupport, Support
from metku.sections.steel.ISection import IPE, HEA, HEB
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS
from harness.fem import beam_forces, comps, clamped, rot, unrot, HINGE

E = 210e3
SUPP = {"fix": FixedSupport, "pin": XYHingedSupport, "x": XHingedSupport, "y": YHingedSupport}
DOFS = {"fix": (0, 1, 2), "pin": (0, 1), "x": (0,), "y": (1,)}
IPE300, HEA200 = (lambda: IPE(300)), (lambda: HEA(200))
# nodes; members: (start, end, section, type, elements, hinges); supports
MODELS = {
    "beam": dict(nodes=[(0, 0), (6000, 0)], mem=[(0, 1, 0, "beam", 3, (0, 0))], supp=[(0, "pin"), (1, "y")]),
    "cantilever": dict(nodes=[(0, 0), (3000, 4000)], mem=[(1, 0, 0, "column", 1, (0, 0))], supp=[(0, "fix")]),
    "propped": dict(nodes=[(0, 0), (-4000, 3000)], mem=[(0, 1, 0, "beam", 2, (0, 1))], supp=[(0, "fix"), (1, "fix")]),
    "portal": dict(nodes=[(0, 0), (0, 3000), (4000, 6000), (4000, 0)],
                   mem=[(0, 1, 1, "column", 2, (0, 0)), (1, 2, 0, "beam", 2, (1, 0)), (3, 2, 1, "column", 1, (0, 0))],
                   supp=[(0, "fix"), (3, "pin")]),
    "hinged beam": dict(nodes=[(0, 0), (0, 4000), (5000, 4000), (5000, 0)],
                        mem=[(0, 1, 1, "column", 1, (0, 0)), (1, 2, 0, "beam", 1, (1, 1)), (2, 3, 1, "column", 2, (0, 0))],
                        supp=[(0, "fix"), (3, "fix")]),
    "truss": dict(nodes=[(0, 0), (4000, 0), (0, 3000)],
                  mem=[(0, 1, 1, "bottom_chord", 1, (1, 0)), (1, 2, 0, "brace", 1, (0, 0)), (0, 2, 1, "top_chord", 2, (0, 0))],
                  supp=[(0, "fix"), (1, "y")]),
    "braced": dict(nodes=[(0, 0), (3000, 4000), (6000, 0), (6000, 4000)],
                   mem=[(0, 1, 0, "brace", 1, (0, 0)), (2, 1, 0, "bar", 1, (0, 0)), (3, 1, 1, "beam", 2, (0, 0))],
                   supp=[(0, "pin"), (2, "pin"), (3, "x"), (3, "y")]),
}
KH = {0: None, 1: 0}


@contextlib.contextmanager
def no_extremes():
    """the largest force of a member is not what these jobs are about (see R05): without
    this, every order of the forces along every member would be a path of its own"""
    with mock.patch.object(fm, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(fm, "max", lambda *a, **k: 0.0, create=True):
        yield


def analyse(f, lc, method="REM"):
    with no_extremes():
        f.structural_analysis(lc, support_method=method, design=False)


def build(name):
    m = MODELS[name]
    f = Raami(name)
    for x, y in m["nodes"]:
        f.add(FrameNode([float(x), float(y)]))
    secs = [IPE(300), HEA(200)]
    for a, b, s, t, n, h in m["mem"]:
        f.add(SteelFrameMember([f.nodes[a], f.nodes[b]], secs[s], mem_type=t, nel=n, hinges=[bool(h[0]), bool(h[1])]))
    for i, k in m["supp"]:
        f.add(SUPP[k](f.nodes[i]))
    return f, m


def beams(m):
    return [i for i, e in enumerate(m["mem"]) if e[3] not in ("bar", "brace")]


def geom(m, i):
    (x0, y0), (x1, y1) = m["nodes"][m["mem"][i][0]], m["nodes"][m["mem"][i][1]]
    L = ((x1 - x0) ** 2 + (y1 - y0) ** 2) ** 0.5
    return ((x1 - x0) / L, (y1 - y0) / L), L


def solved(H, tag, f, m, lines, points, lc):
    """displacements and forces reported for the members of the frame solve it;
    lines: (member, direction, coordinates, [load at the ends of each element]), points: (node, v)"""
    R = {}
    fixed = {(("n", i), j) for i, k in m["supp"] for j in DOFS[k]}
    U = {}
    size = 1e5
    for i, (a, b, s, t, n, h) in enumerate(m["mem"]):
        mem = f.members[i]
        d, L = geom(m, i)
        Le = L / n
        keys = [("n", a)] + [(i, k) for k in range(1, n)] + [("n", b)]
        u, F = mem.nodal_displacements[lc], mem.nodal_forces[lc]
        H.same(f"{tag} number of results", [len(u)] + [len(F[k]) for k in ("N", "Vz", "My")], [n + 1] * 4)
        for k, x in zip(keys, u):
            if k in U:
                for j in range(3):
                    H.eq(f"{tag} displacement {k}{j} at members", x[j], U[k][j], scale=10.0)
            else:
                U[k] = x
        prof = mem.cross_section
        for e in range(n):
            ue = rot(d, list(u[e]) + list(u[e + 1]))
            if t in ("bar", "brace"):
                N = E * prof.A / Le * (ue[3] - ue[0])
                Q = (-N, 0.0, 0.0, N, 0.0, 0.0)
            else:
                q = [0.0] * 4
                for mi, dir_, coords, qs in lines:
                    if mi == i:
                        q = [x + y for x, y in zip(q, comps(d, dir_, coords, *qs[e]))]
                kj = (0 if h[0] and e == 0 else None, 0 if h[1] and e == n - 1 else None)
                kj = tuple(HINGE if k == 0 else k for k in kj)
                Q = beam_forces(E * prof.A, E * prof.I[0], Le, ue, kj, clamped(Le, *q))
            for nm, j0, v0, j1, v1, sc in (("N", 0, -Q[0], 3, Q[3], 1), ("Vz", 1, Q[1], 4, -Q[4], 1), ("My", 2, -Q[2], 5, Q[5], 6000)):
                H.eq(f"{tag} {nm} {i}{e}", F[nm][e], v0, scale=size * sc)
                if e == n - 1:
                    H.eq(f"{tag} {nm} {i} end", F[nm][n], v1, scale=size * sc)
            Q = unrot(d, Q)
            for k, o in ((keys[e], 0), (keys[e + 1], 3)):
                r = R.setdefault(k, [0.0] * 3)
                for j in range(3):
                    r[j] = r[j] + Q[o + j]
    P = {}
    for i, v in points:
        P[i] = [x + y for x, y in zip(P.get(i, [0.0] * 3), v)]
    for k, r in R.items():
        ext = P.get(k[1], [0.0] * 3) if k[0] == "n" else [0.0] * 3
        for j in range(3):
            if (k, j) in fixed:
                H.eq(f"{tag} support {k}{j}", U[k][j], 0.0, scale=10.0)
            else:
                H.eq(f"{tag} equilibrium {k}{j}", r[j], ext[j], scale=size * (6000 if j == 2 else 1))


def ramp(q1, q2, n):
    return [(q1 + (q2 - q1) * i / n, q1 + (q2 - q1) * (i + 1) / n) for i in range(n)]


def put_lines(H, f, m, sid, tag="", fac=1.0, **k):
    out = []
    for c, i in enumerate(beams(m)):
        for dir_, coords in (("y", "global"), ("x", "local")) if c % 2 == 0 else (("x", "global"), ("y", "local")):
            q1, q2 = H.real(f"q1_{i}{dir_}{tag}", -100, 100), H.real(f"q2_{i}{dir_}{tag}", -100, 100)
            f.add(LineLoad(f.members[i], [q1, q2], dir_, sid, f=fac, coord_sys=coords, **k))
            out.append((i, dir_, coords, [(fac * a, fac * b) for a, b in ramp(q1, q2, m["mem"][i][4])]))
    return out


def put_points(H, f, m, sid, tag="", fac=1.0, **k):
    out = []
    for i in range(len(m["nodes"])):
        v = [H.real(f"P{i}{c}{tag}", -1e4, 1e4) for c in "xy"] + [H.real(f"M{i}{tag}", -1e7, 1e7)]
        if all(e[3] in ("bar", "brace") or e[5][0 if e[0] == i else 1] for e in m["mem"] if i in e[:2]):
            v[2] = 0.0
        f.add(PointLoad(f.nodes[i], v, sid, f=fac, **k))
        out.append((i, [fac * x for x in v]))
    return out


@job("R01", params=[dict(name=n, method=s) for n in MODELS for s in ("ZERO", "REM")],
     bounds="7 frames of IPE 300 and HEA 200, line loads in [-100,100] N/mm, point loads in [-1e4,1e4] N and [-1e7,1e7] Nmm")
def frame_analysis(H, name, method):
    f, m = build(name)
    lines = put_lines(H, f, m, 3)
    points = put_points(H, f, m, 3)
    f.generate_fem()
    analyse(f, 3, method)
    solved(H, name, f, m, lines, points, 3)


@job("R01", params=[dict(name=n) for n in ("beam", "portal", "hinged beam")],
     bounds="as frame_analysis, two load cases, load factors -1.5 and 2, loads of several kinds with equal names")
def frame_cases(H, name):
    f, m = build(name)
    lines = put_lines(H, f, m, 3, "a", 2.0, name="q") + put_lines(H, f, m, 3, "b", -1.5, name="q")
    points = put_points(H, f, m, 3, "a", -1.5, name="q") + put_points(H, f, m, 3, "b", 2.0, name="q1")
    lines2 = put_lines(H, f, m, 8, "c", name="q")
    f.generate_fem()
    analyse(f, "all", "REM")
    solved(H, "case 3", f, m, lines, points, 3)
    solved(H, "case 8", f, m, lines2, [], 8)
    # the same model again
    f.generate_fem()
    analyse(f, 8, "ZERO")
    solved(H, "case 8 again", f, m, lines2, [], 8)


@job("R01", params=[dict(name=n, dir_=d, coords=c) for n in ("beam", "portal", "cantilever") for d, c in (("y", "global"), ("x", "local"))],
     bounds="piecewise constant loads in [-100,100] N/mm that step at a node of the member")
def stepped_loads(H, name, dir_, coords):
    f, m = build(name)
    lines = []
    for i in beams(m):
        n = m["mem"][i][4]
        k = H.choice(f"step{i}", list(range(n + 1)))
        q = [H.real(f"q{i}{j}", -100, 100) for j in range(2)]
        f.add(PWLineLoad(f.members[i], q, k / n, dir_, 3, coord_sys=coords))
        lines.append((i, dir_, coords, [(q[0 if e < k else 1],) * 2 for e in range(n)]))
    f.generate_fem()
    analyse(f, 3, "REM")
    solved(H, name, f, m, lines, [], 3)


# ---------------------------------------------------------------------------
# R02 load combinations
# ---------------------------------------------------------------------------
PSI = {"LIVE": 0.7, "SNOW": 0.7, "WIND": 0.6}


def factors(cases, typ):
    """load factor of each case (a list of load types), in order"""
    lead = next((i for i, c in enumerate(cases) if c != "DEAD"), None)
    out = []
    for i, c in enumerate(cases):
        if c == "DEAD":
            out.append(1.15 if typ == "ULS" else 1.0)
        else:
            out.append((1.5 if typ == "ULS" else 1.0) * (1.0 if i == lead else PSI[c]))
    return out


ORDERS = [("DEAD", "SNOW", "WIND"), ("DEAD", "WIND", "LIVE", "SNOW"), ("LIVE", "DEAD", "SNOW"), ("DEAD",), ("WIND",), ("SNOW", "LIVE")]


def superposed(H, tag, f, cid, ids, fac):
    """the results of the combination are the factored sum of those of its cases"""
    for i, mem in f.members.items():
        for k, x in enumerate(mem.nodal_displacements[cid]):
            for j in range(3):
                H.eq(f"{tag} displacement {i}{k}{j}", x[j], sum(g * mem.nodal_displacements[c][k][j] for c, g in zip(ids, fac)), scale=10.0)
        for nm, sc in (("N", 1e5), ("Vz", 1e5), ("My", 1e8)):
            for k, x in enumerate(mem.nodal_forces[cid][nm]):
                H.eq(f"{tag} {nm} {i}{k}", x, sum(g * mem.nodal_forces[c][nm][k] for c, g in zip(ids, fac)), scale=sc)


@job("R02", params=[dict(order=o, typ=t, how=h) for o in ORDERS for t in ("ULS", "SLS") for h in ("frame", "case", "later")],
     bounds="portal frame, up to four load cases in any listed order, loads in [-100,100] N/mm and [-1e4,1e4] N, load scaling factors")
def combinations(H, order, typ, how):
    f, m = build("portal")
    ids, cases = [5 + 3 * i for i in range(len(order))], []
    if how == "later":
        cases = [LoadCase(c) for c in ids]
        for c in cases:
            f.add(c)
        comb = LoadCombination(40, typ, list(cases))
    for i, (c, lt) in enumerate(zip(ids, order)):
        fac = (1.0, -0.5, 2.0, 1.0)[i]
        ld = [LineLoad(f.members[1], [H.real(f"q1{i}", -100, 100), H.real(f"q2{i}", -100, 100)], "y", c, f=fac, ltype=lt.lower()),
              LineLoad(f.members[0], [H.real(f"w1{i}", -100, 100), H.real(f"w2{i}", -100, 100)], "x", c, ltype=lt.lower()),
              PointLoad(f.nodes[2], [H.real(f"P{i}", -1e4, 1e4), 0.0, H.real(f"M{i}", -1e7, 1e7)], c, ltype=lt.lower(), f=fac),
              PointLoad(f.nodes[1], [0.0, H.real(f"V{i}", -1e4, 1e4), 0.0], c, ltype=lt.lower())]
        if how == "frame":
            for l in ld:
                f.add(l)
            cases.append(f.load_cases[c])
        elif how == "later":
            for l in ld:
                cases[i].add(l)
                f.add(l)
        else:
            lc = LoadCase(c, ld)
            f.add(lc)
            cases.append(lc)
    f.add(comb if how == "later" else LoadCombination(40, typ, cases))
    f.generate_fem()
    analyse(f, "ALL", "REM")
    superposed(H, "combination", f, 40, ids, factors(order, typ))


@job("R02", params=[dict(typ=t) for t in ("ULS", "SLS")], bounds="portal frame, two or three combinations of the same cases, combined again after the loads changed")
def combined_again(H, typ):
    f, m = build("portal")
    q = [H.real(f"q{i}", -100, 100) for i in range(3)]
    ld = [LineLoad(f.members[1], [q[0], q[0]], "y", 1, ltype="dead"),
          LineLoad(f.members[1], [q[1], q[1]], "y", 2, ltype="snow"),
          LineLoad(f.members[0], [q[2], q[2]], "x", 3, ltype="wind")]
    for l in ld:
        f.add(l)
    c = f.load_cases
    combs = {10: ("SLS", [1, 2]), 11: (typ, [1, 2, 3]), 12: (typ, [1, 3, 2])}
    objs = {}
    for k, (t, ids) in combs.items():
        objs[k] = LoadCombination(k, t, [c[i] for i in ids])
        f.add(objs[k])
    types = {1: "DEAD", 2: "SNOW", 3: "WIND"}

    def run(tag):
        f.generate_fem()
        analyse(f, "ALL", "REM")
        for k, (t, ids) in combs.items():
            superposed(H, f"{tag} {k}", f, k, ids, factors([types[i] for i in ids], t))
    run("first")
    ld[1].values = np.array([H.real("r1", -100, 100), H.real("r2", -100, 100)])
    f.add(LineLoad(f.members[1], [H.real("s", -100, 100)] * 2, "y", 3, ltype="wind"))
    for k in (11, 10, 12):
        objs[k].combine_loads()
        H.same(f"loads of combination {k}", len(f.load_cases[k].loads), sum(len(c[i].loads) for i in combs[k][1]))
    run("again")
    H.same("loads", len(f.loads), 4 + 2 + 4 + 4)


# ---------------------------------------------------------------------------
# R03 self-weight
# ---------------------------------------------------------------------------
def vertical(f, m, lc):
    """vertical support reactions of the frame from the forces of the members at supported nodes"""
    tot = 0.0
    for i, (a, b, s, t, n, h) in enumerate(m["mem"]):
        (c, sn), L = geom(m, i)
        F = f.members[i].nodal_forces[lc]
        for node, k, sgn in ((a, 0, 1.0), (b, -1, -1.0)):
            if any(node == j and 1 in DOFS[kk] for j, kk in m["supp"]):
                # force of the node on the member
                tot = tot + sgn * (-F["N"][k] * sn + F["Vz"][k] * c)
    return tot


@job("R03", params=[dict(name=n) for n in ("beam", "cantilever", "portal", "hinged beam")], bounds="four frames, line loads in [-100,100] N/mm; steel profiles exchanged between analyses")
def self_weight(H, name):
    f, m = build(name)
    q = H.real("q", -100, 100)
    i = beams(m)[0]
    f.add(LineLoad(f.members[i], [q, q], "y", 1))
    sid = 100

    def weight():
        return sum(mem.cross_section.A * geom(m, k)[1] for k, mem in f.members.items()) * 7850e-9 * 9.81

    def check(tag, W):
        f.generate_fem()
        analyse(f, "ALL", "REM")
        H.eq(f"{tag} other load", vertical(f, m, 1), -q * geom(m, i)[1], scale=1e5)
        if W is None:
            H.check(f"{tag} no self-weight", not any(l.load_id == sid for l in f.loads.values()))
        else:
            H.eq(f"{tag} reaction", vertical(f, m, sid), W, scale=1e4)
    f.add_self_weight()
    check("added", weight())
    H.eq("weight of the frame", f.weight() * 9.81, weight(), scale=1e4)
    f.add_self_weight()
    check("added twice", weight())
    for mem in f.members.values():
        mem.cross_section = RHS(200, 100, 8)
    f.add_self_weight()
    check("after new sections", weight())
    f.remove_self_weight()
    check("removed", None)
    f.add_self_weight()
    check("added again", weight())


@job("R03", params=[dict(name=n, typ=t) for n in ("beam", "portal") for t in ("ULS", "SLS")],
     bounds="two frames, snow in [-100,100] N/mm, self-weight in a load combination, sections exchanged, self-weight added again and combined again")
def self_weight_combined(H, name, typ):
    f, m = build(name)
    q = H.real("q", -100, 100)
    i = beams(m)[0]
    f.add(LineLoad(f.members[i], [q, q], "y", 1, ltype="snow"))
    f.add_self_weight()
    comb = LoadCombination(7, typ, [f.load_cases[100], f.load_cases[1]])
    f.add(comb)
    g, s = (1.15, 1.5) if typ == "ULS" else (1.0, 1.0)

    def check(tag):
        f.generate_fem()
        analyse(f, "ALL", "REM")
        W = sum(mem.cross_section.A * geom(m, k)[1] for k, mem in f.members.items()) * 7850e-9 * 9.81
        H.eq(f"{tag} reaction", vertical(f, m, 7), g * W - s * q * geom(m, i)[1], scale=1e5)
    check("added")
    for mem in f.members.values():
        mem.cross_section = RHS(200, 100, 8)
    f.add_self_weight()
    comb.combine_loads()
    check("after new sections")
    f.remove_self_weight()
    f.add_self_weight()
    comb.combine_loads()
    check("added again")


# ---------------------------------------------------------------------------
# R04 geometry and moved nodes
# ---------------------------------------------------------------------------
def straight(H, tag, f, mem, a, b, n):
    """geometry of member from a to b"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = mem.length()
    H.eq(f"{tag} length", L * L, dx * dx + dy * dy, scale=1e6)
    H.ge(f"{tag} length is positive", L, 0.0)
    H.eq(f"{tag} length of the design member", mem.member.length, L)
    H.eq(f"{tag} weight", mem.weight(), mem.cross_section.A * L * 7850e-9)
    v, p = mem.dir_vector, mem.perpendicular
    for j, d in enumerate((dx, dy)):
        H.eq(f"{tag} direction {j}", v[j] * L, d, scale=1e3)
    H.eq(f"{tag} perpendicular", p[0] * dx + p[1] * dy, 0.0, scale=1e3)
    H.eq(f"{tag} unit perpendicular", p[0] * p[0] + p[1] * p[1], 1.0)
    t = H.real(f"t {tag}", 0.0, 1.0)
    g = mem.local_to_global(t)
    for j in range(2):
        H.eq(f"{tag} global coordinates {j}", g[j], a[j] + t * (b[j] - a[j]), scale=1e3)
    H.eq(f"{tag} local coordinate", mem.global_to_local(np.array(a) + t * (np.array(b) - np.array(a))), t)
    H.same(f"{tag} number of nodes", (len(mem.global_node_coords), len(mem.fem_nodes)), (n + 1, n + 1))
    for k in range(n + 1):
        for j in range(2):
            x = a[j] + (b[j] - a[j]) * k / n
            H.eq(f"{tag} node {k}{j}", mem.global_node_coords[k][j], x, scale=1e3)
            H.eq(f"{tag} finite element node {k}{j}", mem.fem_nodes[k].coord[j], x, scale=1e3)


@job("R04", params=[dict(integer=i, axis=a) for i in (False, True) for a in "xy"],
     bounds="two members meeting at a node that is moved once or twice in x or y, [-8000,8000] mm")
def moved_node(H, integer, axis):
    c = (lambda x: int(x)) if integer else float
    N = [FrameNode([c(0), c(0)]), FrameNode(c(3000), c(4000)), FrameNode([c(9000), c(1000)])]
    f = Raami()
    for n in N:
        f.add(n)
    f.add(SteelFrameMember([N[0], N[1]], IPE(300), nel=3))
    f.add(SteelFrameMember([N[2], N[1]], IPE(300), nel=1))
    j = "xy".index(axis)
    p = [3000.0, 4000.0]
    p[j] = H.real("before", -8000, 8000)
    setattr(N[1], axis, p[j])
    f.generate_fem()
    straight(H, "before", f, f.members[0], (0.0, 0.0), p, 3)
    p[j] = H.real("after", -8000, 8000)
    setattr(N[1], axis, p[j])
    H.eq("coordinate", getattr(N[1], axis), p[j])
    straight(H, "first", f, f.members[0], (0.0, 0.0), p, 3)
    straight(H, "second", f, f.members[1], (9000.0, 1000.0), p, 1)
    xr, yr = f.xrange(), f.yrange()
    for nm, r, k in (("x", xr, 0), ("y", yr, 1)):
        pts = [q for q in ((0.0, 0.0)[k], p[k], (9000.0, 1000.0)[k])]
        for q in pts:
            H.between(f"{nm} range", r[0], q, r[1])
        H.check(f"{nm} range is attained", ((r[0] - pts[0]) * (r[0] - pts[1]) * (r[0] - pts[2]) == 0)
                & ((r[1] - pts[0]) * (r[1] - pts[1]) * (r[1] - pts[2]) == 0))


@job("R04", params=[dict(name=n, move=k) for n, k in (("portal", (1, 1, 4000)), ("portal", (3, 0, 8500)), ("cantilever", (1, 0, 4000)), ("beam", (1, 0, 9000)),
                                                      ("beam", (1, 1, 4500)), ("hinged beam", (2, 1, 5000)), ("truss", (2, 0, 1500)))],
     bounds="seven moves of a node of a frame of integer coordinates, loads as in R01: the analysis is that of the moved frame")
def moved_frame(H, name, move):
    f, m = build(name)
    lines = put_lines(H, f, m, 3)
    points = put_points(H, f, m, 3)
    f.generate_fem()
    analyse(f, 3)
    i, j, v = move
    setattr(f.nodes[i], "xy"[j], float(v))
    nodes = [list(x) for x in m["nodes"]]
    nodes[i][j] = v
    m2 = dict(m, nodes=nodes)
    analyse(f, 3)
    solved(H, "moved", f, m2, lines, points, 3)
    f.generate_fem()
    analyse(f, 3, "ZERO")
    solved(H, "built again", f, m2, lines, points, 3)


@job("R04", bounds="symmetric frame: half width in [1000,9000], height, ridge and axis symbolic")
def symmetry(H):
    a, h, r, s = H.real("a", 1000, 9000), H.real("h", 2000, 5000), H.real("r", 500, 3000), H.real("s", -5000, 5000)
    f = Raami()
    for x, y in ((s - a, 0.0), (s - a, h), (s, h + r), (s + a, h), (s + a, 0.0)):
        f.add(FrameNode([x, y]))
    for p in ((0, 1), (1, 2), (2, 3), (4, 3), (1, 3)):
        f.add(SteelFrameMember([f.nodes[k] for k in p], IPE(300), nel=1))
    f.symmetry()
    idx = {id(n): k for k, n in enumerate(f.nodes)}
    H.same("nodes", [None if n.symmetry_node is None else idx[id(n.symmetry_node)] for n in f.nodes], [4, 3, None, 1, 0])
    H.same("members", [None if f.members[k].symmetry_pair is None else f.members[k].symmetry_pair.mem_id for k in range(5)], [3, 2, 1, 0, None])
    f.generate_fem()
    new = HEA(300)
    f.members[2].cross_section = new
    for k in range(5):
        mem = f.members[k]
        H.same(f"section of {k}", [x is new for x in (mem.cross_section, mem.member.profile, mem.fem_elements[0].section)], [k in (1, 2)] * 3)


# ---------------------------------------------------------------------------
# R05 design of members
# ---------------------------------------------------------------------------
@job("R05", params=[dict(which=w, nel=n, cases=c) for w in ("N", "Vz", "My") for n, c in ((1, (3, 8)), (2, (3,)), (2, (8,)))],
     thorough_params=[dict(which=w, nel=3, cases=(3,)) for w in ("N", "Vz", "My")],
     bounds="one force at two sections in two load cases, or at three sections in one of two load cases, any sign and order; the other forces concrete")
def extremes(H, which, nel, cases):
    f, m = build("beam")
    mem = f.members[0]
    mem.calc_nodal_coordinates(nel)
    f.generate_fem()
    KEY = {"N": "fx", "Vz": "fz", "My": "my"}
    V = {}
    for lc in (3, 8):
        for e in mem.fem_elements:
            e.fint[lc] = {k: [0.0, 0.0] for k in ("fx", "fy", "fz", "mx", "my", "mz")}
        for j, (nm, key) in enumerate(KEY.items()):
            sym = nm == which and lc in cases
            V[lc, nm] = [H.real(f"{nm}{lc}{i}", -100, 100) if sym else float((7 * i + 3 * lc + 5 * j) % 11 - 5) for i in range(nel + 1)]
            for i, e in enumerate(mem.fem_elements):
                e.fint[lc][key] = V[lc, nm][i:i + 2]
        f.load_ids.append(lc)
        mem.calc_nodal_forces(lc)
    big = {"N": mem.NEd, "Vz": mem.VzEd, "My": mem.MyEd}
    res = mem.get_max_forces()
    for nm in KEY:
        for lc in (3, 8):
            vals = V[lc, nm]
            H.same(f"number of {nm}", len(mem.nodal_forces[lc][nm]), nel + 1)
            for i, v in enumerate(vals):
                H.eq(f"{nm} {lc} at {i}", mem.nodal_forces[lc][nm][i], v)
                H.check(f"{nm} {lc} design value {i}", (big[nm][lc] >= abs(v)) | (-big[nm][lc] >= abs(v)))
            H.check(f"{nm} {lc} is a value", anyeq(big[nm][lc], vals))
        lo, hi = res["min " + nm], res["max " + nm]
        for lc in (3, 8):
            for i, v in enumerate(V[lc, nm]):
                H.between(f"{nm} extremes {lc}{i}", lo[nm], v, hi[nm])
        for w, r in (("min", lo), ("max", hi)):
            H.check(f"{w} {nm} is a value", anyeq(r[nm], V[r["load_id"], nm]))
            # the other forces are those of the same section
            ok = False
            for i in range(nel + 1):
                c = (r["N"] == V[r["load_id"], "N"][i]) & (r["Vz"] == V[r["load_id"], "Vz"][i]) & (r["My"] == V[r["load_id"], "My"][i])
                ok = c if ok is False else ok | c
            H.check(f"{w} {nm} forces of one section", ok)


def anyeq(x, vals):
    ok = False
    for v in vals:
        c = x == v
        ok = c if ok is False else ok | c
    return ok


def reference(mem, N, V, M, sway=False):
    """design of a steel member of the given forces"""
    from metku.structures.steel.steel_member import SteelMember
    s = SteelMember(mem.cross_section, mem.length(), Lcr=list(mem.lcr), mtype=mem.mtype)
    n = len(N)
    for i in range(n):
        s.add_section(loc=i / (n - 1), ned=N[i], myed=M[i], vzed=V[i])
    return s.design(sway=sway)


@job("R05", params=[dict(sec=s, sway=w, kind=k) for s in ("IPE", "RHS", "HEB") for w in (False, True) for k in ("N", "M")],
     bounds="beam of 2 elements, normal force in [-400,400] kN or uniform load in [-30,30] N/mm symbolic, the other fixed, two load cases; buckling lengths 0.7 and 1.2")
def design(H, sec, sway, kind):
    s = {"IPE": lambda: IPE(300), "RHS": lambda: RHS(200, 100, 8), "HEB": lambda: HEB(200)}[sec]()
    f = Raami()
    f.add(FrameNode([0.0, 0.0]))
    f.add(FrameNode([6000.0, 0.0]))
    f.add(SteelFrameMember(f.nodes[:2], s, nel=2, lcr=[0.7, 1.2], sway=sway))
    f.add(XYHingedSupport(f.nodes[0]))
    f.add(YHingedSupport(f.nodes[1]))
    mem = f.members[0]
    P, q = (H.real("P", -4e5, 4e5), -8.0) if kind == "N" else (-1.5e5, H.real("q", -30, 30))
    f.add(LineLoad(mem, [q, q], "y", 3))
    f.add(PointLoad(f.nodes[1], [P, 0, 0], 3))
    f.add(LineLoad(mem, [-4.0, -4.0], "y", 5))
    f.generate_fem()
    mem.allowable_utilization = 0.8
    f.structural_analysis("ALL", support_method="REM", design=True)
    # the forces of a simply supported beam
    L = 6000.0
    for lc, (p, w) in ((3, (P, q)), (5, (0.0, -4.0))):
        r = reference(mem, [p] * 3, [-w * L / 2, 0.0, w * L / 2], [0.0, -w * L * L / 8, 0.0], sway)
        H.eq(f"utilization {lc}", mem.utilization[lc], r)
    r = mem.utilization[5]
    H.check("check of the last case", (r <= 0.8) == bool(mem.resistance_check))
    f.structural_analysis(3, support_method="REM", design=True)
    r = mem.utilization[3]
    H.check("check of one case", (r <= 0.8 + 1e-9) if mem.resistance_check else (r > 0.8 - 1e-9))
    H.eq("utilization of the other case", mem.utilization[5], reference(mem, [0.0] * 3, [2 * L, 0.0, -2 * L], [0.0, L * L / 2, 0.0], sway))


# ---------------------------------------------------------------------------
# R06 choice of profiles
# ---------------------------------------------------------------------------
LISTS = {"IPE": ["IPE 100", "IPE 200", "IPE 300", "IPE 400"], "RHS": ["RHS 60X40X3.0", "RHS 100X50X4.0", "RHS 120X80X5.0", "RHS 200X100X8.0"],
         "HEA": ["HE 100 A", "HE 160 A", "HE 240 A"], "SHS": ["SHS 50X50X3.0", "SHS 100X100X5.0", "SHS 180X180X8.0"],
         "CHS": ["CHS 60.3X3.0", "CHS 114.3X5.0", "CHS 168.3X8.0"]}


def forces(mem, cases):
    mem.nodal_forces = {}
    for lc, (N, V, M) in cases.items():
        mem.nodal_forces[lc] = {"N": [N] * 2, "Vz": [V, -V], "My": [0.0, M]}


def admissible(mem, name, cases, sec_class=3, max_slenderness=5.0, bmin=10, bmax=1e5, max_utility=1.0, material="S355"):
    from metku.sections.steel.catalogue import make_section
    from metku.structures.steel.steel_member import SteelMember
    s = make_section(name)
    s.material = material
    s.Ned = -1
    if s.b < bmin or s.b > bmax or s.section_class() > sec_class:
        return False
    if any(SteelMember(s, mem.length(), Lcr=list(mem.lcr), mtype=mem.mtype).slenderness() > max_slenderness):
        return False
    for N, V, M in cases.values():
        t = SteelMember(s, mem.length(), Lcr=list(mem.lcr), mtype=mem.mtype)
        t.add_section(loc=0.0, ned=N, vzed=V, myed=0.0)
        t.add_section(loc=1.0, ned=N, vzed=-V, myed=M)
        if t.design(sway=mem.sway) > max_utility:
            return False
    return True


def one_member(fam):
    from metku.sections.steel.catalogue import make_section
    f = Raami()
    for x in (0.0, 4000.0, 8000.0):
        f.add(FrameNode([x, 0.0]))
    for k in range(2):
        f.add(SteelFrameMember([f.nodes[k], f.nodes[k + 1]], make_section(LISTS[fam][1]), nel=1, lcr=[1.0, 0.8]))
    f.load_ids += [3, 5]
    return f


@job("R06", params=[dict(fam=k, kind=c) for k in LISTS for c in ("tension", "bending", "compression")],
     bounds="lists of three or four profiles of each family, one force symbolic, two load cases; limits on class, slenderness, width and utilization",
     cost=2)
def smallest_profile(H, fam, kind):
    f = one_member(fam)
    mem = f.members[0]
    if kind == "tension":
        c = {3: (H.real("N", 0, 3e6), 0.0, 0.0), 5: (1e5, 0.0, 0.0)}
    elif kind == "bending":
        c = {3: (1.0, 1e4, H.real("M", 0, 2e8)), 5: (1.0, 1e4, 5e6)}
    else:
        c = {3: (-H.real("N", 1.0, 1e6), 0.0, 0.0), 5: (-2e4, 0.0, 0.0)}
    lim = H.choice("limits", [dict(), dict(max_slenderness=1.2), dict(bmin=60, bmax=150), dict(max_utility=0.7)])
    forces(mem, c)
    with mock.patch.object(fm, "profile_list", lambda *a, **k: list(LISTS[fam])):
        old = mem.cross_section
        changed = mem.optimum_design("CURRENT", False, **lim)
    got = mem.cross_section
    from metku.sections.steel.catalogue import make_section
    want = next((p for p in LISTS[fam] if admissible(mem, p, c, **lim)), None)
    if want is not None:
        H.same("profile", repr(got), repr(make_section(want)))
        H.check("utilization of the chosen profile", max(mem.utilization.values()) <= lim.get("max_utility", 1.0))
        H.same("change is reported", bool(changed), repr(old) != repr(got))
    H.check("member, design and profile agree", mem.member.profile is got)


@job("R06", params=[dict(fam=k) for k in ("IPE", "SHS")], bounds="group or symmetry pair of two members, one force symbolic, limits on slenderness and width")
def group_profile(H, fam):
    f = one_member(fam)
    f.nodes[2].x = 11000.0
    ms = [f.members[0], f.members[1]]
    N = H.real("N", 1.0, 6e5)
    c = [{3: (-N, 0.0, 0.0), 5: (-2e4, 0.0, 0.0)}, {3: (-2e4, 0.0, 0.0), 5: (-0.3 * N, 0.0, 0.0)}]
    for m, x in zip(ms, c):
        forces(m, x)
    pair = H.flag("pair")
    lim = H.choice("limits", [dict(), dict(max_utility=0.7)] if pair else [dict(), dict(max_slenderness=1.2), dict(bmin=60, bmax=250), dict(max_utility=0.7)])
    with mock.patch.object(fm, "profile_list", lambda *a, **k: list(LISTS[fam])):
        if pair:
            ms[0].symmetry_pair, ms[1].symmetry_pair = ms[1], ms[0]
            ms[0].optimum_design("CURRENT", False, **lim)
        else:
            g = MemberGroup([ms[0]])
            g.add_member(ms[1])
            g.optimum_design("CURRENT", False, **lim)
            H.same("other group is empty", len(MemberGroup().members), 0)
    from metku.sections.steel.catalogue import make_section
    want = next((p for p in LISTS[fam] if all(admissible(m, p, x, **lim) for m, x in zip(ms, c))), None)
    if want is not None:
        for k, m in enumerate(ms):
            H.same(f"profile {k}", repr(m.cross_section), repr(make_section(want)))
            H.check(f"utilization {k}", max(m.utilization.values()) <= lim.get("max_utility", 1.0))


@job("R06", params=[dict(fam=k) for k in ("IPE", "HEA", "HEB", "RHS", "SHS", "CHS")], bounds="every profile of the family, least wall thickness in [2,12] mm symbolic")
def families(H, fam):
    import metku.sections.steel.catalogue as cat
    sec = {"IPE": lambda: IPE(200), "HEA": lambda: HEA(200), "HEB": lambda: HEB(200), "RHS": lambda: RHS(200, 100, 8),
           "SHS": lambda: SHS(100, 5), "CHS": lambda: CHS(114.3, 5.0)}[fam]()
    T = H.real("T", 2.0, 12.0)
    full = {"IPE": cat.ipe_profiles, "HEA": cat.hea_profiles, "HEB": cat.heb_profiles, "RHS": cat.rhs_profiles, "SHS": cat.shs_profiles, "CHS": cat.chs_profiles}[fam]
    got = list(fm.profile_list(sec, "CURRENT", Tmin=T))
    H.same("profiles of the family", [k for k in got if k not in full], [])
    H.same("order", got, [k for k in full if k in set(got)])
    H.same("named list", list(fm.profile_list(IPE(100), fam, Tmin=T)), got)
    if fam in ("RHS", "SHS"):
        for k, v in full.items():
            s = cat.make_section(k)
            s.Ned = -1e5
            H.check(f"{k}", (k in got) == (bool(v["t"] >= T) and s.section_class() <= 3))
    for k in got:
        s, v = cat.make_section(k), full[k]
        H.same(f"type of {k}", type(s).__name__, fam)
        if "d" in v:
            H.same(f"size of {k}", (s.D, s.T), (v["d"], v["t"]))
        elif "t" in v:
            H.same(f"size of {k}", (s.H, s.B, s.T), (v["h"], v["b"], v["t"]))
        else:
            H.same(f"size of {k}", (s.h, s.b, s.tw, s.tf, s.r), (v["h"], v["b"], v["t_w"], v["t_f"], v["r"]))
