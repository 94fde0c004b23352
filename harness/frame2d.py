"""Frames of the frame2d interface: geometry and supports (D01), analysis (D02), design and profiles (D03)."""
import contextlib
import warnings
from unittest import mock

import numpy as np

from symx.registry import job
import metku.frame2d.frame2d as f2
from metku.frame2d.frame2d import (Frame2D, FrameMember, SteelBeam, SteelColumn, SteelFrameMember, PointLoad, LineLoad,
                                   FixedSupport, XHingedSupport, YHingedSupport, XYHingedSupport, Hinge, LoadIDs)
from metku.structures.steel.steel_member import SteelMember
from harness.fem import beam_forces, comps, clamped, rot, unrot, HINGE

warnings.simplefilter("ignore")
E = 210e3
SUPP = {"fix": FixedSupport, "pin": XYHingedSupport, "x": XHingedSupport, "y": YHingedSupport, "free": Hinge}
DOFS = {"fix": (0, 1, 2), "pin": (0, 1), "x": (0,), "y": (1,), "free": ()}
INF = float("inf")
# members: (start, end, class, elements, profile, (Sj1, Sj2) or hinges, places of further nodes)
MODELS = {
    "beam": dict(mem=[((0, 0), (6000, 0), "beam", 2, "IPE 300", (INF, INF), [0.25])], supp=[((0, 0), "pin"), ((6000, 0), "y")],
                 points=[(1500, 0)]),
    "two spans": dict(mem=[((0, 0), (8000, 6000), "beam", 2, "IPE 200", (1e9, INF), [0.75])],
                      supp=[((0, 0), "fix"), ((6000, 4500), "y"), ((8000, 6000), "x")], points=[]),
    "cantilever": dict(mem=[((3000, 4000), (0, 0), "member", 4, "HE 200 A", (0, 0), [0.4])], supp=[((0, 0), "fix")], points=[(1800, 2400)]),
    "portal": dict(mem=[((0, 0), (0, 3000), "column", 2, "HE 200 A", (INF, INF), []),
                        ((4000, 0), (4000, 6000), "column", 1, "HE 200 A", (INF, INF), []),
                        ((0, 3000), (4000, 6000), "beam", 2, "IPE 300", (5e9, 1e8), [0.2])],
                   supp=[((0, 0), "fix"), ((4000, 0), "pin")], points=[(800, 3600)]),
    "hinged": dict(mem=[((0, 0), (0, 4000), "column", 1, "HE 200 A", (INF, INF), []),
                        ((0, 4000), (5000, 4000), "member", 2, "IPE 300", (1, 1), []),
                        ((5000, 4000), (5000, 0), "column", 2, "IPE 300", (INF, INF), [])],
                   supp=[((0, 0), "fix"), ((5000, 0), "fix")], points=[]),
    "pinned beam": dict(mem=[((0, 0), (0, 4000), "column", 1, "HE 200 A", (INF, INF), []),
                             ((0, 4000), (5000, 4000), "beam", 1, "IPE 300", (0.0, 0.0), []),
                             ((5000, 0), (5000, 4000), "column", 1, "HE 200 A", (INF, INF), [])],
                        supp=[((0, 0), "fix"), ((5000, 0), "fix")], points=[]),
    "bars": dict(mem=[((0, 0), (4000, 0), "member", 2, "HE 200 A", (1, 0), [0.25]),
                      ((4000, 0), (0, 3000), "bar", 1, "IPE 100", (0, 0), [])],
                 supp=[((0, 0), "fix"), ((0, 3000), "pin")], points=[(1000, 0)]),
    "crossing": dict(mem=[((0, 0), (4000, 2000), "member", 1, "IPE 200", (0, 0), [0.375]),
                          ((0, 1500), (3000, 0), "member", 1, "IPE 300", (0, 0), [0.5])],
                     supp=[((0, 0), "fix"), ((3000, 0), "pin")], points=[(1500, 750)]),
}


def nodes_of(m, i):
    """places of the nodes along member i and their coordinates"""
    a, b, _, n, _, _, extra = m["mem"][i]
    locs = sorted(set([k / n for k in range(n + 1)] + extra))
    return locs, [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for t in locs]


def build(name, load=lambda f, ms: None):
    m = MODELS[name]
    f = Frame2D()
    ms = []
    for a, b, t, n, p, ends, _ in m["mem"]:
        c = [list(a), list(b)]
        if t == "beam":
            x = SteelBeam(c, profile=p, num_elements=n, Sj1=ends[0], Sj2=ends[1])
        elif t == "column":
            x = SteelColumn(c, profile=p, num_elements=n)
        else:
            x = FrameMember(c, profile=p, num_elements=n, mtype="" if t == "member" else t)
            for e in (0, 1):
                if t == "member" and ends[e]:
                    x.add_hinge(e)
        f.add(x)
        ms.append(x)
    for c, k in m["supp"]:
        f.add(SUPP[k](list(c)))
    return f, m, ms


@contextlib.contextmanager
def only_forces():
    """largest values and design are the subject of D03"""
    with mock.patch.object(f2, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(f2, "max", lambda *a, **k: 0.0, create=True), \
            mock.patch.object(FrameMember, "design", lambda *a, **k: None):
        yield


def geom(m, i):
    a, b = m["mem"][i][:2]
    L = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
    return ((b[0] - a[0]) / L, (b[1] - a[1]) / L), L


def key(c):
    return tuple(round(float(x), 1) for x in c)


def solved(H, tag, m, ms, lines, points, lc):
    """lines: (member, direction, coordinates, q0, q1) over the whole member; points: (coordinate, v)"""
    fixed = {(key(c), j) for c, k in m["supp"] for j in DOFS[k]}
    U, R, size = {}, {}, 1e5
    for i, mem in enumerate(ms):
        t, ends = m["mem"][i][2], m["mem"][i][5]
        d, L = geom(m, i)
        locs, xy = nodes_of(m, i)
        n = len(locs) - 1
        nodes = list(mem.nodes.values())
        H.same(f"{tag} nodes of {i}", [key(x.coord) for x in nodes], [key(c) for c in xy])
        u = list(mem.nodal_displacements[lc].values())
        els = list(mem.elements.values())
        H.same(f"{tag} number of results", (len(u), len(els)), (n + 1, n))
        S = mem.member.sections
        H.same(f"{tag} sections", [round(float(k), 2) for k in S], [round(x, 2) for x in locs])
        S = list(S.values())
        for k, c in enumerate(xy):
            c = key(c)
            if c in U:
                for j in range(3):
                    H.eq(f"{tag} displacement {c}{j} at members", u[k][j], U[c][j], scale=10.0)
            else:
                U[c] = u[k]
        A, I = mem.cross_section.A, mem.cross_section.I[0]
        for e in range(n):
            Le = (locs[e + 1] - locs[e]) * L
            ue = rot(d, list(u[e]) + list(u[e + 1]))
            if t == "bar":
                N = E * A / Le * (ue[3] - ue[0])
                Q = (-N, 0.0, 0.0, N, 0.0, 0.0)
            else:
                q = [0.0] * 4
                for mi, dir_, coords, q0, q1 in lines:
                    if mi == i:
                        a, b = q0 + (q1 - q0) * locs[e], q0 + (q1 - q0) * locs[e + 1]
                        q = [x + y for x, y in zip(q, comps(d, dir_, coords, a, b))]
                if t == "beam":
                    kj = [ends[0] if e == 0 else INF, ends[1] if e == n - 1 else INF]
                    kj = [None if k == INF else max(k, 1e-4) for k in kj]
                else:
                    kj = [HINGE if t == "member" and ends[s] and e == (0, n - 1)[s] else None for s in (0, 1)]
                Q = beam_forces(E * A, E * I, Le, ue, tuple(kj), clamped(Le, *q))
            for nm, fi, j0, v0, j1, v1, sc in (("N", "fx", 0, -Q[0], 3, Q[3], 1), ("Vz", "fz", 1, Q[1], 4, -Q[4], 1), ("My", "my", 2, -Q[2], 5, Q[5], 6000)):
                H.eq(f"{tag} {nm} {i}{e} start", els[e].fint[lc][fi][0], v0, scale=size * sc)
                H.eq(f"{tag} {nm} {i}{e} end", els[e].fint[lc][fi][1], v1, scale=size * sc)
                H.eq(f"{tag} design {nm} {i}{e}", S[e][nm], v0, scale=size * sc)
                if e == n - 1:
                    H.eq(f"{tag} design {nm} {i} end", S[n][nm], v1, scale=size * sc)
            Q = unrot(d, Q)
            for k, o in ((key(xy[e]), 0), (key(xy[e + 1]), 3)):
                r = R.setdefault(k, [0.0] * 3)
                for j in range(3):
                    r[j] = r[j] + Q[o + j]
    P = {}
    for c, v in points:
        P[key(c)] = [x + y for x, y in zip(P.get(key(c), [0.0] * 3), v)]
    for k, r in R.items():
        ext = P.get(k, [0.0] * 3)
        for j in range(3):
            if (k, j) in fixed:
                H.eq(f"{tag} support {k}{j}", U[k][j], 0.0, scale=10.0)
            else:
                H.eq(f"{tag} equilibrium {k}{j}", r[j], ext[j], scale=size * (6000 if j == 2 else 1))


def put_lines(H, f, m, ms, lc, tag="", fac=1.0, which=None):
    out = []
    for c, i in enumerate(range(len(ms))):
        if m["mem"][i][2] == "bar":
            continue
        for dir_, coords in (("y", "global"), ("x", "local")) if c % 2 == 0 else (("x", "global"), ("y", "local")):
            q0, q1 = H.real(f"q0_{i}{dir_}{tag}", -100, 100), H.real(f"q1_{i}{dir_}{tag}", -100, 100)
            f.add(LineLoad(ms[i], [q0, q1], dir_, lc, f=fac, coord_sys=coords))
            out.append((i, dir_, coords, fac * q0, fac * q1))
    return out


def put_points(H, f, m, ms, lc, tag="", fac=1.0):
    out = []
    for k, c in enumerate(m["points"] + [x[1] for x in m["mem"]]):
        v = [H.real(f"P{k}{x}{tag}", -1e4, 1e4) for x in "xy"] + [H.real(f"M{k}{tag}", -1e7, 1e7) if k < len(m["points"]) else 0.0]
        f.add(PointLoad(list(c), v, lc, f=fac))
        out.append((c, [fac * x for x in v]))
    return out


def analyse(f, lc, method):
    with only_forces():
        f.calculate(lc, method)


@job("D02", params=[dict(name=n, method=s) for n in MODELS for s in ("ZERO", "REM")],
     bounds="8 frames of rolled sections, linear line loads in [-100,100] N/mm on unevenly divided members, point loads in [-1e4,1e4] N and [-1e7,1e7] Nmm")
def frame2d_analysis(H, name, method):
    f, m, ms = build(name)
    lines = put_lines(H, f, m, ms, LoadIDs.ULS)
    points = put_points(H, f, m, ms, LoadIDs.ULS)
    f.generate()
    analyse(f, LoadIDs.ULS, method)
    solved(H, name, m, ms, lines, points, LoadIDs.ULS)


@job("D02", params=[dict(name=n) for n in ("beam", "portal", "hinged", "bars", "crossing")],
     bounds="as frame2d_analysis, two load cases with load factors -1.5 and 2, loads of equal names")
def frame2d_cases(H, name):
    f, m, ms = build(name)
    A, B = LoadIDs.SLS_Charasteristic, LoadIDs.ULS
    la = put_lines(H, f, m, ms, A, "a", 2.0)
    pb = put_points(H, f, m, ms, B, "b", -1.5)
    lb = put_lines(H, f, m, ms, B, "c", -1.5)
    pa = put_points(H, f, m, ms, A, "d", 2.0)
    f.generate()
    analyse(f, "all", "REM")
    for mem in ms:
        H.same("load cases", set(mem.load_ids), {A, B})
    analyse(f, A, "REM")
    solved(H, "first", m, ms, la, pa, A)
    analyse(f, B, "ZERO")
    solved(H, "second", m, ms, lb, pb, B)
    H.same("loads are kept", (len(f.line_loads), len(f.point_loads)), (len(la) + len(lb), len(pa) + len(pb)))


@job("D02", params=[dict(name=n) for n in ("beam", "cantilever", "portal")], bounds="density in [1e-6,1e-5], line load as frame2d_analysis")
def frame2d_self_weight(H, name):
    f, m, ms = build(name)
    lines = put_lines(H, f, m, ms, LoadIDs.ULS)
    points = put_points(H, f, m, ms, LoadIDs.ULS)
    W = 0.0
    rho = H.real("rho", 1e-6, 1e-5)
    for i, mem in enumerate(ms):
        mem.rho = rho
        w = mem.cross_section.A * rho
        H.eq(f"weight {i}", mem.weight, w * geom(m, i)[1])
        W = W + mem.weight
        lines.append((i, "y", "global", -10 * w, -10 * w))
    H.eq("weight", f.weight, W)
    f.generate(self_weight=True)
    analyse(f, LoadIDs.ULS, "REM")
    solved(H, name, m, ms, lines, points, LoadIDs.ULS)


# ---------------------------------------------------------------------------
# D01 geometry
# ---------------------------------------------------------------------------
def on(H, tag, mem, p):
    """p is a node of the member"""
    H.check(tag, any(bool(abs(c[0] - p[0]) <= 2e-3) and bool(abs(c[1] - p[1]) <= 2e-3) for c in mem.nodal_coordinates))


@job("D01", params=[dict(first=k, y2=y) for k in (0, 1) for y in (0.0, 3000.0)], bounds="two crossing members, one end anywhere in [2500,5500] mm")
def crossing_members(H, first, y2):
    x = H.real("x", 2500.0, 5500.0)
    a = FrameMember([[0.0, y2], [x, 3000.0 - y2]], num_elements=1)
    b = FrameMember([[0.0, 2000.0], [7000.0, 700.0]], num_elements=1)
    f = Frame2D()
    for m in ((a, b), (b, a))[first]:
        f.add(m)
    # a: y = y2 + s (3000 - 2 y2), x_ = s x; b: y = 2000 - 1300 x_/7000
    k, c = (3000.0 - 2 * y2) / x, -1300.0 / 7000.0
    px = (2000.0 - y2) / (k - c)
    py = 2000.0 + c * px
    H.assume((px <= 6999.0) & (px <= x - 1.0))
    f.add(FixedSupport([0.0, 2000.0]))
    f.generate()
    both = list(set(a.nodes) & set(b.nodes))
    H.same("one node for both", len(both), 1)
    H.same("elements", (len(a.elements), len(b.elements)), (2, 2))
    c = a.nodes[both[0]].coord
    H.check("at the crossing", (abs(c[0] - px) <= 2e-3) & (abs(c[1] - py) <= 2e-3))


@job("D01", params=[dict(k=k) for k in range(3)], bounds="members whose lines meet beyond their ends by 1 mm or more, one end anywhere in [3000,7499]")
def missing_members(H, k):
    x = H.real("x", 3000.0, 7499.0)
    a = FrameMember([[0.0, 0.0], [x, 0.0]], num_elements=1)
    b = FrameMember([[[7500.0, -1000.0], [7500.0, 1000.0]], [[-1.0, -100.0], [-1.0, 4000.0]], [[9500.0, -2000.0], [2000.0, 5500.0]]][k], num_elements=1)
    f = Frame2D()
    f.add(a)
    f.add(b)
    f.generate()
    H.same("no common node", len(set(a.nodes) & set(b.nodes)), 0)


@job("D01", params=[dict(i=i, n=n) for i in range(4) for n in (1, 2, 5)], bounds="a point load and a support anywhere inside a member of 1, 2 or 5 elements (0.1 to 0.9 of its length), four directions")
def divided_member(H, i, n):
    a, b = [((0.0, 0.0), (6000.0, 0.0)), ((0.0, 0.0), (4000.0, 3000.0)), ((1000.0, 5000.0), (1000.0, 0.0)), ((4000.0, 1000.0), (0.0, 4000.0))][i]
    t = H.real("t", 0.1, 0.9)
    for k in range(1, n):
        H.assume((t <= k / n - 1e-3) | (t >= k / n + 1e-3))
    c = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    m = FrameMember([list(a), list(b)], num_elements=n)
    L = m.length
    f = Frame2D()
    f.add(m)
    if H.flag("support"):
        f.add(XYHingedSupport(c))
    else:
        f.add(PointLoad(c, [1.0, 0.0, 0.0]))
    f.add(FixedSupport(list(b)))
    f.generate()
    H.same("nodes", (len(m.nodes), len(m.elements)), (n + 2, n + 1))
    xs = [x.coord for x in m.nodes.values()]
    H.check("starts and ends", (abs(xs[0][0] - a[0]) <= 1e-9) & (abs(xs[0][1] - a[1]) <= 1e-9) & (abs(xs[-1][0] - b[0]) <= 1e-9) & (abs(xs[-1][1] - b[1]) <= 1e-9))
    # elements follow each other and add up to the member
    for k, e in enumerate(m.elements.values()):
        for s in (0, 1):
            for j in (0, 1):
                H.eq(f"element {k}", e.nodes[s].coord[j], xs[k + s][j], scale=1e3)
    al = [((x[0] - a[0]) * (b[0] - a[0]) + (x[1] - a[1]) * (b[1] - a[1])) / L for x in xs]
    for k in range(n + 1):
        H.le(f"order {k}", al[k], al[k + 1] - 0.5)
    H.check("node at the place", any(bool((abs(x[0] - c[0]) <= 2e-3) & (abs(x[1] - c[1]) <= 2e-3)) for x in xs))


@job("D01", params=[dict(i=i) for i in range(4)], bounds="end anywhere in [500,20000], four members")
def member_geometry(H, i):
    x = H.int("x", 500, 20000)
    a, b = [((0, 0), (x, 0)), ((0, 0), (0, x)), ((0, 0), (x, 3000)), ((x, 0), (0, 3000))][i]
    m = FrameMember([list(a), list(b)], num_elements=2)
    L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    H.eq("length", m.length ** 2, L2)
    for j in (0, 1):
        H.eq(f"unit {j}", m.unit[j] * m.length, b[j] - a[j], scale=1e3)
        H.eq(f"point {j}", m.to_global(0.25)[j], a[j] + 0.25 * (b[j] - a[j]), scale=1e3)
    H.eq("perpendicular", m.perpendicular[0] * m.unit[0] + m.perpendicular[1] * m.unit[1], 0.0, scale=1.0)
    H.eq("weight", m.weight ** 2, (m.cross_section.A * 7850e-9) ** 2 * L2)


@job("D01", params=[dict(st=s, b=b, sup=k) for s in (1, 2, 3) for b in (1, 2) for k in ("FIXED", "XYHINGED", "xhinged", "YHinged")], bounds="1-3 storeys, 1-2 bays, storey height whole mm in [2000,6000], bay 3000 or 7500 mm")
def simple_frame(H, st, b, sup):
    h = H.int("h", 2000, 6000)
    L = H.choice("L", [3000, 7500])
    f = Frame2D(simple=[st, b, h, L], num_elements=1, supports=sup)
    H.same("members", (len(f.columns), len(f.beams), len(f.members)), ((b + 1) * st, b * st, (2 * b + 1) * st))
    cols = sorted((k % (b + 1), k // (b + 1)) for k in range((b + 1) * st))
    for (i, j), m in zip(cols, sorted(f.columns, key=lambda m: m.mem_id)):
        (x0, y0), (x1, y1) = m.coordinates
        for nm, v, r in (("x0", x0, i * L), ("x1", x1, i * L), ("y0", y0, j * h), ("y1", y1, (j + 1) * h)):
            H.eq(f"column {i}{j} {nm}", v, r, scale=1e3)
    bm = sorted((k % b, k // b) for k in range(b * st))
    for (i, j), m in zip(bm, sorted(f.beams, key=lambda m: m.mem_id)):
        (x0, y0), (x1, y1) = m.coordinates
        for nm, v, r in (("x0", x0, i * L), ("x1", x1, (i + 1) * L), ("y0", y0, (j + 1) * h), ("y1", y1, (j + 1) * h)):
            H.eq(f"beam {i}{j} {nm}", v, r, scale=1e3)
    dofs = dict(FIXED=[0, 1, 2], XYHINGED=[0, 1], XHINGED=[0], YHINGED=[1])[sup.upper()]
    H.same("supports", sorted((float(s.coordinate[0]), float(s.coordinate[1]), tuple(s.dofs)) for s in f.supports.values()),
           [(float(i * L), 0.0, tuple(dofs)) for i in range(b + 1)])
    H.eq("height", f.H, st * h)
    H.eq("width", f.L, b * L)
    f.generate()
    H.same("model", (len(f.f.nodes), len(f.f.elements)), ((b + 1) * (st + 1), (2 * b + 1) * st))


@job("D01", params=[dict(name=n) for n in ("beam", "portal", "hinged", "crossing", "two spans")], bounds="five frames, nodes before and after updating the model")
def update_keeps_nodes(H, name):
    f, m, ms = build(name)
    for c in m["points"]:
        f.add(PointLoad(list(c), [H.real("P", -10.0, 10.0), 0.0, 0.0]))
    f.generate()
    for k in range(2):
        for i, mem in enumerate(ms):
            H.same(f"nodes {i}", [key(x.coord) for x in mem.nodes.values()], [key(c) for c in nodes_of(m, i)[1]])
        f.update_model()


@job("D01", params=[dict(k=k) for k in range(2)], bounds="top of a column and beam moved to any height in [2000,5000]")
def moved_member(H, k):
    col = FrameMember([[0.0, 0.0], [0.0, 3000.0]], num_elements=2)
    beam = FrameMember([[0.0, 3000.0], [6000.0, 3000.0]], num_elements=2)
    f = Frame2D()
    for m in ((col, beam), (beam, col))[k]:
        f.add(m)
    f.add(FixedSupport([0.0, 0.0]))
    f.generate()
    y = H.real("y", 2000.0, 5000.0)
    beam.Y = y
    for tag, m, ref in (("column", col, [(0.0, 0.0), (0.0, y / 2), (0.0, y)]), ("beam", beam, [(0.0, y), (3000.0, y), (6000.0, y)])):
        xs = [n.coord for n in m.nodes.values()]
        for i, r in enumerate(ref):
            for j in (0, 1):
                H.eq(f"{tag} node {i}{j}", xs[i][j], r[j], scale=1e3)
        H.eq(f"{tag} length", m.length, [y, 6000.0][tag == "beam"])


# ---------------------------------------------------------------------------
# D03 design
# ---------------------------------------------------------------------------
def two_supports(p="IPE 300", n=2, L=6000.0, cls=SteelBeam):
    f = Frame2D()
    m = cls([[0.0, 0.0], [L, 0.0]], profile=p, num_elements=n)
    f.add(m)
    f.add(XYHingedSupport([0.0, 0.0]))
    f.add(YHingedSupport([L, 0.0]))
    return f, m


def anyeq(x, vals):
    ok = False
    for v in vals:
        c = x == v
        ok = c if ok is False else ok | c
    return ok


@job("D03", params=[dict(which=w, n=n, lc=c) for w in range(3) for n, c in ((1, 0), (1, 1), (2, 0), (2, 1))],
     thorough_params=[dict(which=w, n=3, lc=0) for w in range(3)],
     bounds="both ends of one or two elements, one kind of force symbolic in one of two load cases, any signs and order")
def frame2d_extremes(H, which, n, lc):
    f, m = two_supports(n=n)
    f.add(LineLoad(m, [1.0, 1.0], "y"))
    f.generate()
    cases = [LoadIDs.ULS, LoadIDs.SLS_Frequent]
    V = {}
    for c, case in enumerate(cases):
        for j, k in enumerate(("fx", "fz", "my")):
            V[c, j] = [H.real(f"{k}{i}", -100, 100) if (j, c) == (which, lc) else float((5 * i + 3 * c + 7 * j) % 11 - 5) for i in range(2 * n)]
            for i, e in enumerate(m.elements.values()):
                e.fint.setdefault(case, {})[k] = V[c, j][2 * i:2 * i + 2]
    for c, case in enumerate(cases):
        m.calc_nodal_forces(case)
        for j, (nm, x) in enumerate((("ned", m.ned), ("ved", m.ved), ("med", m.med))):
            for i, v in enumerate(V[c, j]):
                H.check(f"{nm} {c} at least {i}", (x >= abs(v)) | (-x >= abs(v)))
            H.check(f"{nm} {c} is a value", anyeq(x, V[c, j]))
            rows = list(m.nodal_forces[case].values())
            H.same("nodes", len(rows), n + 1)
            for i in range(n + 1):
                a, b = V[c, j][2 * min(i, n - 1):2 * min(i, n - 1) + 2]
                y = rows[i][j]
                H.check(f"{nm} {c} node {i}", ((y >= abs(a)) | (-y >= abs(a))) & ((y >= abs(b)) | (-y >= abs(b))) & ((y == a) | (y == b)))
    for j, big in enumerate((m.NEd, m.VEd, m.MEd)):
        for c, case in enumerate(cases):
            x = big[case]
            for i, v in enumerate(V[c, j]):
                H.check(f"per case {j}{c} at least {i}", (x >= abs(v)) | (-x >= abs(v)))
            H.check(f"per case {j}{c} is a value", anyeq(x, V[c, j]))


@job("D03", bounds="three nodes, displacements in [-50,50] mm in one of two load cases")
def frame2d_displacements(H):
    f, m = two_supports()
    A, B = LoadIDs.ULS, LoadIDs.SLS_Frequent
    ua = [[H.real(f"u{i}{j}", -50, 50) for j in "xy"] + [0.1] for i in range(3)]
    ub = [[1.0, -2.0, 0.3], [-3.0, 2.0, 0.0], [0.0, 0.0, 0.0]]
    m.nodal_displacements = {A: dict(enumerate(ua)), B: dict(enumerate(ub))}
    for j, d in ((0, m.dx), (1, m.dy)):
        H.check(f"other case {j}", abs(d[B]) == (3.0, 2.0)[j])
        for i in range(3):
            H.check(f"at least {j}{i}", (d[A] >= abs(ua[i][j])) | (-d[A] >= abs(ua[i][j])))
        H.check(f"is a value {j}", anyeq(d[A], [u[j] for u in ua]))


def reference(m, N, V, M, prof=None):
    s = SteelMember(prof or m.cross_section, m.length, Lcr=[1.0, 1.0], mtype="")
    for i in range(len(N)):
        s.add_section(loc=i / (len(N) - 1), ned=N[i], myed=M[i], vzed=V[i])
    return s.design()


def beam_case(p, w, L=6000.0):
    return [p] * 3, [-w * L / 2, 0.0, w * L / 2], [0.0, -w * L * L / 8, 0.0]


@job("D03", params=[dict(prof=p, kind=k) for p in ("IPE 300", "RHS 200X100X8", "HE 200 B") for k in ("N", "q")],
     bounds="beam of 2 elements, normal force in [-400,400] kN or uniform load in [-30,30] N/mm symbolic, the other fixed, two load cases")
def frame2d_design(H, prof, kind):
    f, m = two_supports(prof)
    P, q = (H.real("P", -4e5, 4e5), -8.0) if kind == "N" else (-1.5e5, H.real("q", -30, 30))
    f.add(LineLoad(m, [q, q], "y"))
    f.add(PointLoad([6000.0, 0.0], [P, 0.0, 0.0]))
    f.add(LineLoad(m, [-4.0, -4.0], "y", load_id=LoadIDs.SLS_Frequent))
    f.generate()
    with mock.patch.object(f2, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(f2, "max", lambda *a, **k: 0.0, create=True):
        f.calculate("all", "REM")
    H.same("cases", set(m.r), {LoadIDs.ULS, LoadIDs.SLS_Frequent})
    H.eq("utilization", m.r[LoadIDs.ULS], reference(m, *beam_case(P, q)))
    H.eq("utilization of the other case", m.r[LoadIDs.SLS_Frequent], reference(m, *beam_case(0.0, -4.0)))
    with mock.patch.object(f2, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(f2, "max", lambda *a, **k: 0.0, create=True):
        f.calculate(LoadIDs.ULS, "ZERO")
    r = reference(m, *beam_case(P, q))
    H.eq("utilization again", m.r[LoadIDs.ULS], r)
    H.check("strong enough", (r <= 1.0 + 1e-9) if m.is_strong_enough else (r > 1.0 - 1e-9))


FAM = {"IPE": ("ipe_profiles", ["IPE 100", "IPE 200", "IPE 300", "IPE 400"], ["IPE 100", "IPE 200", "IPE 300", "IPE 400"]),
       "H": ("h_profiles", ["HE 100 A", "HE 160 A", "HE 240 A"], ["HE 100 A", "HE 160 A", "HE 240 A"]),
       "SHS": ("shs_profiles", ["SHS 50X50X3", "SHS 100X100X5", "SHS 180X180X8"], None),
       "RHS": ("rhs_profiles", ["RHS 60X40X3", "RHS 120X80X5", "RHS 200X100X8"], None),
       "CHS": ("chs_profiles", ["CHS 60.3X3", "CHS 114.3X5", "CHS 168.3X8"], None)}


def make(p):
    return FrameMember([[0.0, 0.0], [1.0, 0.0]], profile=p).cross_section


@job("D03", params=[dict(fam=k, kind=c, mode=m) for k in FAM for c in ("N", "M") for m in (0, 1)],
     bounds="short lists of profiles of five families, one force symbolic in the first or second of two load cases, family named or that of the current profile")
def frame2d_optimum(H, fam, kind, mode):
    attr, names, _ = FAM[fam]
    f, m = two_supports(names[1], n=1, L=4000.0)
    f.add(LineLoad(m, [1.0, 1.0], "y"))
    f.generate()
    A, B = LoadIDs.ULS, LoadIDs.SLS_Frequent
    sym = (-H.real("N", 1e3, 8e5), 0.0) if kind == "N" else (1e3, H.real("M", 0.0, 2e8))
    fix = (-2e4, 3e6)
    forces = {A: (fix, sym)[mode], B: (sym, fix)[mode]}
    for e in m.elements.values():
        for c, (N, M) in forces.items():
            e.fint[c] = {"fx": [N, N], "fz": [0.0, 0.0], "my": [0.0, M]}
    m.assign_forces(B)
    def need(p):
        return max(reference(m, [N, N], [0.0, 0.0], [0.0, M], make(p)) for N, M in forces.values())
    want = names[-1]
    for p in names:
        n = need(p)
        H.assume((n <= 1.0 - 1e-6) | (n >= 1.0 + 1e-6))
        if n <= 1.0:
            want = p
            break
    with mock.patch.object(f2, attr, {k: None for k in names}):
        changed = m.optimum_design(fam if H.flag("named") else "CURRENT")
    H.same("profile", str(m.cross_section), str(make(want)))
    H.same("change is reported", bool(changed), want != names[1])
    H.check("everything follows", m.member.profile is m.cross_section and all(e.section is m.cross_section for e in m.elements.values()))
    for c, (N, M) in forces.items():
        H.eq(f"utilization {c.name}", m.r[c], reference(m, [N, N], [0.0, 0.0], [0.0, M]))


@job("D03", params=[dict(k=k) for k in range(2)], bounds="two cantilevers, load on one of them in [0,60] kN")
def frame2d_optimize(H, k):
    f = Frame2D()
    ms = [FrameMember([[0.0, y], [2000.0, y]], profile="IPE 200", num_elements=1) for y in (0.0, 3000.0)]
    for m in ms:
        f.add(m)
        f.add(FixedSupport(list(m.coordinates[0])))
    P = H.real("P", 1.0, 6e4)
    f.add(PointLoad([2000.0, 3000.0 * k], [0.0, -P, 0.0]))
    f.add(PointLoad([2000.0, 3000.0 * (1 - k)], [0.0, -3e4, 0.0], LoadIDs.SLS_Frequent))
    f.generate()
    names = FAM["IPE"][1]
    with mock.patch.object(f2, "ipe_profiles", {p: None for p in names}), \
            mock.patch.object(f2, "min", lambda *a, **k: 0.0, create=True), mock.patch.object(f2, "max", lambda *a, **k: 0.0, create=True):
        f.optimize_members()
    for i, m in enumerate(ms):
        F = P if i == k else 3e4
        def need(p):
            # bending about the major axis with shear, free to twist over its length
            return reference(m, [0.0, 0.0], [F, F], [-F * 2000.0, 0.0], make(p))
        want = names[-1]
        for p in names:
            n = need(p)
            H.assume((n <= 1.0 - 1e-6) | (n >= 1.0 + 1e-6))
            if n <= 1.0:
                want = p
                break
        H.same(f"profile {i}", str(m.cross_section), str(make(want)))
        H.eq(f"utilization {i}", max(m.r.values()), need(want))
