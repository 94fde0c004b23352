"""Pin-jointed trusses of both frame interfaces: the standard 3, 10 and 15 bar trusses and trusses given by lists (D04)."""
import contextlib
import math
from unittest import mock

from symx.registry import job
import metku.frame2d.frame2d as f2
import metku.frame2d.simple_truss as old
import metku.structures.steel.steel_member
import metku.raami.frame_member as fm
import metku.raami.raami_simple_truss as new
from metku.raami.frame_node import FrameNode
from metku.raami.frame_loads import PointLoad as NewLoad
from metku.raami.frame_supports import XYHingedSupport as NewPin, YHingedSupport as NewY
from metku.sections.steel.RHS import RHS, SHS

E = 210e3
FRAMES = {"frame2d": old, "raami": new}
OPT = {"frame2d": {}, "raami": dict(design=False)}


@contextlib.contextmanager
def quiet():
    """neither pictures, nor largest values (R05, D03)"""
    with mock.patch.object(old.SimpleTruss, "plot", lambda *a, **k: None), mock.patch.object(new.SimpleTruss, "plot", lambda *a, **k: None), \
            mock.patch.object(f2.FrameMember, "design", lambda *a, **k: None), \
            mock.patch.object(f2, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(f2, "max", lambda *a, **k: 0.0, create=True), \
            mock.patch.object(fm, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(fm, "max", lambda *a, **k: 0.0, create=True):
        yield


def ends(t, m, kind):
    if kind == "raami":
        return [(n.fem_node.coord[0], n.fem_node.coord[1]) for n in m.nodes], [n.fem_node for n in m.nodes]
    N = list(m.nodes.values())
    return [(n.coord[0], n.coord[1]) for n in N], N


def forces(m, lid, kind):
    if kind == "raami":
        F = m.nodal_forces[lid]
        return list(F["N"]), list(F["Vz"]) + list(F["My"])
    # the largest absolute value at each node is the subject of D02
    F, = [e.fint[lid] for e in m.elements.values()]
    return list(F["fx"]), list(F["fz"]) + list(F["my"])


def same_place(a, b):
    return abs(float(a[0]) - b[0]) < 0.5 and abs(float(a[1]) - b[1]) < 0.5


def judge(H, t, kind, lid, xy, bars, held, loads, area=None, tag=""):
    """bars: pairs of numbers of nodes; held: (node, direction); loads: {node: (Fx, Fy)}"""
    ms = list(t.members.values())
    H.same(f"{tag}number of bars", len(ms), len(bars))
    R = [[0.0, 0.0] for _ in xy]
    U = {}
    size = 1e5
    for k, (m, (a, b)) in enumerate(zip(ms, bars)):
        P, N = ends(t, m, kind)
        if not same_place(P[0], xy[a]):
            a, b = b, a
        H.same(f"{tag}bar {k} place", (same_place(P[0], xy[a]), same_place(P[1], xy[b]), len(P)), (True, True, 2))
        L = math.hypot(xy[b][0] - xy[a][0], xy[b][1] - xy[a][1])
        d = ((xy[b][0] - xy[a][0]) / L, (xy[b][1] - xy[a][1]) / L)
        u = [x.u[lid] for x in N]
        for n, x in ((a, u[0]), (b, u[1])):
            if n in U:
                H.eqs(f"{tag}displacement of node {n} at bar {k}", [x[0], x[1]], [U[n][0], U[n][1]], scale=10.0)
            U[n] = x
        A = area[k] if area else m.cross_section.A
        n_ = E * A / L * ((u[1][0] - u[0][0]) * d[0] + (u[1][1] - u[0][1]) * d[1])
        F, rest = forces(m, lid, kind)
        H.eqs(f"{tag}force of bar {k}", F, [n_, n_], scale=size, rel=1e-5)
        H.eqs(f"{tag}no bending of bar {k}", rest, [0.0] * len(rest), abs_=1e-9)
        for n, s in ((a, 1.0), (b, -1.0)):
            R[n] = [R[n][0] + s * F[0] * d[0], R[n][1] + s * F[0] * d[1]]
    for n, r in enumerate(R):
        P = loads.get(n, (0.0, 0.0))
        for j in (0, 1):
            if (n, j) in held:
                H.eq(f"{tag}node {n}{'xy'[j]} held", U[n][j], 0.0, scale=10.0)
            else:
                H.eq(f"{tag}node {n}{'xy'[j]} in equilibrium", r[j] + P[j], 0.0, scale=size, rel=1e-5)


def pins(*n):
    return {(i, j) for i in n for j in (0, 1)}


BOTH = [dict(kind=k) for k in FRAMES]


@job("D04", params=[dict(kind=k, nlc=n) for k in FRAMES for n in (1, 2)], bounds="loads of +-1000 kN, three lengths; one and two load cases")
def three_bars(H, kind, nlc):
    L = H.choice("L", [1000.0, 3000.0, 3048.0])
    F1, F2 = H.real("F1", -1e6, 1e6), H.real("F2", -1e6, 1e6)
    xy = [(0.0, 0.0), (-L, L), (0.0, L), (math.sqrt(3) * L, L)]
    with quiet():
        t = FRAMES[kind].three_bar_truss(L, F1, F2, nlc)
        cases = [(list(t.load_ids)[0], (F2, F1))] if nlc == 1 else [(2, (F2, 0.0)), (3, (0.0, F1))]
        H.same("load cases", list(t.load_ids), [c[0] for c in cases])
        if nlc == 2:
            t.calculate("ALL", support_method="REM", **OPT[kind])
    for k, (lid, P) in enumerate(cases):
        judge(H, t, kind, lid, xy, [(0, 1), (0, 2), (0, 3)], pins(1, 2, 3), {0: P}, tag=f"case {k}: ")


@job("D04", params=BOTH, bounds="loads of +-1000 kN, two lengths")
def ten_bars(H, kind):
    L = H.choice("L", [3000.0, 9144.0])
    F = H.real("F", -1e6, 1e6)
    xy = [(2 * L, L), (2 * L, 0.0), (L, L), (L, 0.0), (0.0, 0.0), (0.0, L)]
    bars = [(4, 2), (2, 0), (5, 3), (3, 1), (2, 3), (0, 1), (4, 3), (5, 2), (2, 1), (3, 0)]
    with quiet():
        t = FRAMES[kind].ten_bar_truss(L, F)
        if kind == "frame2d":
            t.calculate(support_method=H.choice("supports", ["REM", "ZERO"]))
    judge(H, t, kind, list(t.load_ids)[0], xy, bars, pins(4, 5), {1: (0.0, -F), 3: (0.0, -F)})


@job("D04", params=BOTH, bounds="loads of +-100 kN, two sizes")
def fifteen_bars(H, kind):
    L, h = H.choice("size", [(360.0, 120.0), (6000.0, 1500.0)])
    P = H.real("P", -1e5, 1e5)
    xy = [(L * i / 3, h) for i in range(4)] + [(L * i / 3, 0.0) for i in range(4)]
    bars = [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (5, 1), (6, 2), (7, 3), (0, 5), (4, 1), (1, 6), (5, 2), (2, 7), (6, 3)]
    with quiet():
        t = FRAMES[kind].fifteen_bar_truss(L, h, P)
    judge(H, t, kind, list(t.load_ids)[0], xy, bars, pins(0, 4), {7: (0.0, -P)})


XY = [(0.0, 0.0), (3000.0, 0.0), (6000.0, 500.0), (1500.0, 2000.0), (4500.0, 2500.0)]
BARS = [(0, 1), (1, 2), (0, 3), (3, 1), (1, 4), (4, 2), (3, 4)]


@job("D04", params=[dict(kind=k, mat=m) for k in FRAMES for m in ("general", "steel") if (k, m) != ("frame2d", "steel")],
     bounds="a truss of seven bars of different profiles given by lists, loads of +-100 kN on three nodes in two load cases")
def listed(H, kind, mat):
    P = {(c, n): (H.real(f"X{c}{n}", -1e5, 1e5), H.real(f"Y{c}{n}", -1e5, 1e5)) for c in (0, 1) for n in (1, 3, 4)}
    sz = [(50, 3.0), (60, 4.0), (70, 3.0), (80, 4.0), (90, 5.0), (100, 5.0), (120, 6.0)]
    method = H.choice("supports", ["REM", "ZERO"])
    with quiet():
        if kind == "frame2d":
            t = old.SimpleTruss([list(x) for x in XY], [list(b) for b in BARS], [f"SHS {a}x{a}x{s}" for a, s in sz])
            t.add(f2.XYHingedSupport(list(XY[0])))
            t.add(f2.YHingedSupport(list(XY[2])))
            for (c, n), v in P.items():
                t.add(f2.PointLoad(list(XY[n]), [v[0], v[1], 0], load_id=c + 2))
            t.generate()
        else:
            t = new.SimpleTruss([list(x) for x in XY], [list(b) for b in BARS], [SHS(a, s) for a, s in sz], name="t", truss_type=mat)
            t.add(NewPin(t.nodes[0]))
            t.add(NewY(t.nodes[2]))
            for (c, n), v in P.items():
                t.add(NewLoad(t.nodes[n], [v[0], v[1], 0], load_id=c + 2))
            t.generate_fem()
        for c in (0, 1):
            t.calculate(c + 2, support_method=method, **OPT[kind])
    for c in (0, 1):
        judge(H, t, kind, c + 2, XY, BARS, pins(0) | {(2, 1)}, {n: v for (k, n), v in P.items() if k == c}, tag=f"{c}: ")
    for k, (m, (a, s)) in enumerate(zip(t.members.values(), sz)):
        H.eq(f"profile {k}", m.cross_section.A, SHS(a, s).A)


@job("D04", params=BOTH, bounds="areas of 100..5000 mm2 of the bars, one free at a time; loads of 100 and -50 kN")
def areas(H, kind):
    """the bars of a three bar truss may be given areas directly"""
    L, F1, F2 = 3000.0, -1e5, 5e4
    i = H.choice("bar", [0, 1, 2])
    A = [400.0, 900.0, 600.0]
    A[i] = H.real("A", 100.0, 5000.0)
    xy = [(0.0, 0.0), (-L, L), (0.0, L), (math.sqrt(3) * L, L)]
    with quiet():
        t = FRAMES[kind].three_bar_truss(L, F1, F2, 1)
        for m, a in zip(t.members.values(), A):
            m.cross_section.A = a
        t.calculate(list(t.load_ids)[0], support_method="REM", **OPT[kind])
    judge(H, t, kind, list(t.load_ids)[0], xy, [(0, 1), (0, 2), (0, 3)], pins(1, 2, 3), {0: (F2, F1)}, area=A)
    with quiet():
        other = FRAMES[kind].three_bar_truss(L, F1, F2, 1)
    for k, m in enumerate(other.members.values()):
        H.eq(f"bar {k} of another truss", m.cross_section.A, SHS(50, 3).A)
