"""Portal frames with trusses and Vierendeel trusses (T05): geometry, analysis, columns that change."""
import contextlib
import io
import math
import warnings
from unittest import mock

import numpy as np

from symx.registry import job
import metku.frame2d
import metku.framefem as ff
from metku.framefem.elements.rod import Rod
from metku.raami.raami_portal_truss import PortalTruss
from metku.raami.raami_vierendeel import VierendeelTruss
from metku.raami.raami_plane_truss import TubularYJoint, SlopedTruss
from metku.raami.frame_loads import LoadIDs
from metku.sections.steel.RHS import SHS, RHS
from metku.sections.steel.ISection import HEA, IPE
from harness.fem import comps, unrot
from harness.raami import no_extremes

warnings.simplefilter("ignore")
U = LoadIDs["ULS"]
E = 210e3


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def portal(L, h, topo, connected, gap_node, base, n=2, h1=1200.0, rise=900.0, dx=1200.0, beams=False, profile=None, up=True, pieces=None):
    p = PortalTruss(span=L, height_eaves=h)
    k = dict(h1=h1, h2=h1 + rise, first_diagonal_up=up, nel_chord=2, nel_brace=2 if beams else 1)
    if not connected:
        k["dx"] = dx
    with quiet():
        p.create_truss(topo, n, "connected" if connected else "simple", **k)
        p.create_columns(profile or SHS(250, 8), nel=[2, 2])
        p.create_truss_to_column_joints(gap_node)
        p.generate_supports(base)
        p.symmetry()
    return p


def pt(nd):
    return (float(nd.coord[0]), float(nd.coord[1]))


def near(a, b, tol=1e-6):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def node_balance(H, fem, lc, loads, size=1e7):
    """what the elements' reported forces put on every node; each element in equilibrium with its own load"""
    R = {}
    for el in fem.elements:
        a, b = el.nodes
        pa, pb = pt(a), pt(b)
        L = math.hypot(pb[0] - pa[0], pb[1] - pa[1])
        d = ((pb[0] - pa[0]) / L, (pb[1] - pa[1]) / L)
        f = el.fint[lc]
        if isinstance(el, Rod):
            Q = [-f["fx"][0], 0.0, 0.0, f["fx"][1], 0.0, 0.0]
        else:
            Q = [-f["fx"][0], f["fz"][0], -f["my"][0], f["fx"][1], -f["fz"][1], f["my"][1]]
        p1, q1 = 0.0, 0.0
        if id(el) in loads:
            direction, q = loads[id(el)]
            p1, _, q1, _ = comps(d, direction, "global", q, q)
        H.eq("element in equilibrium along", Q[0] + Q[3] + p1 * L, 0.0, scale=size)
        if not isinstance(el, Rod):
            H.eq("element in equilibrium across", Q[1] + Q[4] + q1 * L, 0.0, scale=size)
            H.eq("moments of an element", Q[2] + Q[5] + Q[4] * L + q1 * L * L / 2, 0.0, scale=size * 1000, rel=1e-5)
            for r, k in ((2, 2), (5, 5)):
                if r in el.releases:
                    H.eq("no moment in a hinge", Q[k], 0.0, scale=size * 1000)
        Q = unrot(d, Q)
        for nd, o in ((a, 0), (b, 3)):
            r = R.setdefault(nd.nid, [0.0] * 3)
            for i in range(3):
                r[i] = r[i] + Q[o + i]
    return R


def path(H, name, mem_elements, points):
    """elements follow each other through the points"""
    H.same(f"{name}: elements", len(mem_elements) >= len(points) - 1, True)
    e = mem_elements
    for a, b in zip(e, e[1:]):
        H.check(f"{name}: no gap", a.nodes[1] is b.nodes[0])
    P = [pt(e[0].nodes[0])] + [pt(x.nodes[1]) for x in e]
    for q in points:
        H.check(f"{name}: passes {q}", any(near(q, r, 1e-6) for r in P))


PORTALS = [(t, c, g, b, w) for t, c, g, b, w in (
    ("K", False, True, "fixed", False), ("N", False, True, "fixed", True), ("KT", False, True, "fixed", False),
    ("K", True, True, "fixed", True), ("K", True, True, "pinned", False), ("N", True, True, "fixed", False), ("KT", True, True, "fixed", True),
    ("K", False, False, "fixed", True), ("K", True, False, "fixed", False))]


@job("T05", params=[dict(i=i) for i in range(len(PORTALS))],
     bounds="nine portal frames of 24 m with K, N and KT trusses whose bottom chord does or does not reach the columns, fixed and pinned bases; loads on the truss and both columns within +-100 N/mm")
def portal_analysis(H, i):
    topo, connected, gap_node, base, beams = PORTALS[i]
    L, h, h1, rise = 24000.0, 8000.0, 1200.0, 900.0
    p = portal(L, h, topo, connected, gap_node, base, beams=beams)
    q, w1, w2 = H.real("q", -100.0, 100.0), H.real("w1", -100.0, 100.0), H.real("w2", -100.0, 100.0)
    p.generate_uniform_load("truss", q)
    p.generate_uniform_load("column", w1, member="left")
    p.generate_uniform_load("column", w2, member="right")
    with quiet():
        p.generate_fem(True, True)
        with no_extremes():
            p.structural_analysis(load_id=U, support_method="REM", design=False)
    H.same("one load case", list(p.load_ids), [U])
    t, fem, hc = p.truss, p.fem, p.columns[0].cross_section.H
    tan = rise / (L / 2)
    # the columns
    ends = []
    for col, x, s in zip(p.columns, (0.0, L), (1, -1)):
        P = [(x, 0.0)] + ([(x, h - h1)] if connected else []) + [(x, h)]
        path(H, f"column at {x}", col.fem_elements, P)
        for el in col.fem_elements:
            H.check("column section", el.section.A == col.cross_section.A and el.section.I[0] == col.cross_section.I[0])
            H.same("column without hinges", el.releases, [])
        ends.append((x, h, s, tan))
        if connected:
            ends.append((x, h - h1, s, 0.0))
    # the stiff pieces from the axis of the column to its face, and the chords hinged to them
    stiff = [j.fem_elements for j in p.column_joints]
    H.same("column joints", len(stiff), len(ends))
    for x, y, s, slope in ends:
        face = (x + s * hc / 2, y + slope * hc / 2)
        st = [e for e in stiff if near(pt(e.nodes[0]), (x, y)) and near(pt(e.nodes[1]), face)]
        H.same(f"piece to the face of the column at {x},{y}", len(st), 1)
        H.same("no hinge at the column's axis", st[0].releases, [])
        on = [e for e in fem.elements if st[0].nodes[1] in e.nodes and e is not st[0]]
        H.same(f"one chord at the face {x},{y}", len(on), 1)
        k = 0 if on[0].nodes[0] is st[0].nodes[1] else 1
        H.same(f"hinge at the face {x},{y}", on[0].releases, [[2], [5]][k])
        other = pt(on[0].nodes[1 - k])
        H.check("the chord goes on along its line", abs(other[1] - (y + slope * s * (other[0] - x))) <= 1e-6 and (other[0] - face[0]) * s < L / 4)
    # loads on the chord between its own joints and on the columns
    def on_roof(nd):
        x, y = pt(nd)
        return abs(y - (h + tan * min(x, L - x))) <= 1e-6

    faces = [e.nodes[1] for e in stiff]
    roof = [e for e in fem.elements if not isinstance(e, Rod) and on_roof(e.nodes[0]) and on_roof(e.nodes[1]) and e not in stiff]
    # (the pieces between the columns' faces and the end joints of a truss on its own carry no load in this model)
    roof = [e for e in roof if connected or not (e.nodes[0] in faces or e.nodes[1] in faces)]
    loads = {id(e): ("y", q) for e in roof}
    H.check("chords in the model", all(e in fem.elements for m in t.top_chord for e in m.fem_elements))
    for c, w in zip(p.columns, (w1, w2)):
        for e in c.fem_elements:
            loads[id(e)] = ("x", w)
    R = node_balance(H, fem, U, loads)
    fixed = (0, 1, 2) if base == "fixed" else (0, 1)
    by = 0.0
    for nd in fem.nodes:
        r = R[nd.nid]
        foot = near(pt(nd), (0.0, 0.0)) or near(pt(nd), (L, 0.0))
        for j in range(3):
            if foot and j in fixed:
                H.eq(f"support {pt(nd)} {j}", nd.u[U][j], 0.0, scale=10.0)
            else:
                H.eq(f"equilibrium {pt(nd)} {j}", r[j], 0.0, scale=1e7 * (1000 if j == 2 else 1), rel=1e-5)
        if foot:
            by = by + r[1]
    S = sum(math.hypot(pt(e.nodes[1])[0] - pt(e.nodes[0])[0], pt(e.nodes[1])[1] - pt(e.nodes[0])[1]) for e in roof)
    H.check("the load covers the truss", abs(S - 2 * math.hypot(L / 2, rise)) <= 2 * (hc + 80.0))
    H.eq("bases carry the load once", by, -q * S, scale=1e7)


@job("T05", params=[dict(topo=t, connected=c) for t in ("K", "N", "KT") for c in (False, True)],
     bounds="span 10..40 m, eaves 4..12 m, truss height 0.8..2 m, rise 0.1..2 m, start of the bottom chord 0.6..1.5 m from the column")
def portal_geometry(H, topo, connected):
    L, h, h1, rise = H.real("L", 10000.0, 40000.0), H.real("h", 4000.0, 12000.0), H.real("h1", 800.0, 2000.0), H.real("rise", 100.0, 2000.0)
    dx = H.real("dx", 600.0, 1500.0) if not connected else 0.0
    p = PortalTruss(span=L, height_eaves=h)
    k = dict(h1=h1, h2=h1 + rise, nel_chord=1)
    if not connected:
        k["dx"] = dx
    # the joints of the truss are the subject of T03
    with quiet(), mock.patch.object(SlopedTruss, "generate_joints", lambda self: None):
        p.create_truss(topo, 2, "connected" if connected else "simple", **k)
        p.create_columns(HEA(260), nel=[1, 1])
        p.generate_supports("fixed")
        p.symmetry()
    t = p.truss
    T, B = t.top_nodes, t.bottom_nodes
    H.eqs("ends of the top chord", [T[0].x, T[0].y, T[-1].x, T[-1].y], [0.0, h, L, h])
    r = T[len(T) // 2]
    H.eqs("ridge", [r.x, r.y], [L / 2, h + rise])
    H.eq("ridge height", p.ridge_height(), h + rise)
    H.eqs("ends of the bottom chord", [B[0].x, B[0].y, B[-1].x, B[-1].y], [dx, h - h1, L - dx, h - h1])
    for i, c in enumerate(p.columns):
        x = (0.0, L)[i]
        N = c.nodes
        want = [0.0] + ([h - h1] if connected else []) + [h]
        H.same("nodes of the column", len(N), len(want))
        for n, y in zip(N, want):
            H.eqs("node of the column", [n.x, n.y], [x, y])
        H.check("column ends at the truss", N[-1] is (T[0], T[-1])[i] and (not connected or N[1] is (B[0], B[-1])[i]))
        H.eq("weight of the column", c.weight(), h * c.cross_section.A * 7850e-9, scale=1e3)
    H.same("nodes have their own numbers", sorted(n.node_id for n in p.nodes), list(range(len(p.nodes))))
    H.same("supports", [(s.node is p.nodes[i]) for i, s in enumerate(p.supports.values())], [True, True])
    Wt, Wb, Wd = t.weight_detailed()
    H.eq("weight", p.weight(), Wt + Wb + Wd + 2 * p.columns[0].weight(), scale=1e4)
    for W, ms in ((Wt, t.top_chord), (Wb, t.bottom_chord), (Wd, t.braces.values())):
        H.eq("weight of a part", W, sum(m.cross_section.A * m.length() * 7850e-9 for m in ms), scale=1e4)
    H.same("weights reported", len(p.weight_detailed()), 3)
    H.check("columns are a pair", connected or (p.columns[0].symmetry_pair is p.columns[1] and p.columns[1].symmetry_pair is p.columns[0]))
    H.check("group of the columns", p.member_groups["columns"].members == p.columns)
    new = SHS(200, 8)
    p.col_profile = new
    H.check("profile of both columns", all(c.cross_section is new for c in p.columns) and p.col_profile is new)


@job("T05", params=[dict(connected=c, case=k) for c in (False, True) for k in range(3)],
     bounds="portals of 24 m with K trusses, two columns changed to one of three profiles after the model was generated")
def portal_column_change(H, connected, case):
    prof = (SHS(300, 10), SHS(150, 8), HEA(400))[case]
    L, h, h1, rise = 24000.0, 8000.0, 1200.0, 900.0
    p = portal(L, h, "K", connected, True, "fixed", profile=HEA(260) if case == 2 else None)
    q = H.real("q", -100.0, 100.0)
    p.generate_uniform_load("truss", q)
    with quiet():
        p.generate_fem(True, True)
    p.col_profile = prof
    p.update_fem_joint_nodes()
    hc = prof.h if hasattr(prof, "h") else prof.H
    tan = rise / (L / 2)
    for j in p.column_joints:
        s = 1 if j.left else -1
        slope = tan if near((j.node.x, j.node.y), (j.node.x, h)) else 0.0
        f = j.fem_nodes["xc"]
        H.eqs("face of the column", [f.x, f.y], [j.node.x + s * hc / 2, j.node.y + slope * hc / 2], scale=1e3)
    for c in p.columns:
        for e in c.fem_elements:
            H.check("section of the column's elements", e.section.A == prof.A and e.section.I[0] == prof.I[0])


@job("T05", params=[dict(n=n) for n in (2, 3, 6)], bounds="span 5..30 m, height 0.5..3 m; 2, 3 and 6 panels")
def vierendeel_geometry(H, n):
    L, h = H.real("L", 5000.0, 30000.0), H.real("h", 500.0, 3000.0)
    with quiet():
        t = VierendeelTruss(span=L, height=h, panels=n)
        t.generate_topology(nel_chord=1, nel_brace=1)
        t.generate_supports()
        t.generate_joints()
        t.symmetry()
    T, B = t.top_nodes, t.bottom_nodes
    H.same("nodes", [len(T), len(B), len(t.nodes)], [n + 1, n + 1, 2 * n + 2])
    for i in range(n + 1):
        H.eqs(f"place of nodes {i}", [T[i].x, T[i].y, B[i].x, B[i].y], [L * i / n, h, L * i / n, 0.0])
    H.same("top chord", [(T.index(m.nodes[0]), T.index(m.nodes[1])) for m in t.top_chord], [(i, i + 1) for i in range(n)])
    H.same("bottom chord", [(B.index(m.nodes[0]), B.index(m.nodes[1])) for m in t.bottom_chord], [(i, i + 1) for i in range(n)])
    br = list(t.braces.values())
    H.same("braces", [(T.index(m.nodes[0]), B.index(m.nodes[1]), list(m.hinges)) for m in br], [(i, i, [False, False]) for i in range(n + 1)])
    H.same("joints", len(t.joints), 2 * n + 2)
    for nm, N, ch, at in (("top", T, t.top_chord, 0), ("bottom", B, t.bottom_chord, 1)):
        for i, nd in enumerate(N):
            js = [j for j in t.joints.values() if j.node is nd]
            H.same(f"one joint at {nm} {i}", len(js), 1)
            j = js[0]
            H.check(f"kind and members at {nm} {i}", isinstance(j, TubularYJoint) and j.braces == [br[i]] and j.chords == ch[max(i - 1, 0):i + 1])
            H.check(f"brace knows its joint {nm} {i}", (br[i].top_joint if at == 0 else br[i].bottom_joint) is j)
            H.check(f"chords know the joint {nm} {i}", all(j in m.joints for m in j.chords))
            H.check(f"pair of joint {nm} {i}", 2 * i == n or j.symmetry_pair is not None and j.symmetry_pair.node is N[n - i] if hasattr(j, "symmetry_pair") else True)
    S = [(type(s).__name__, s.node) for s in t.supports.values()]
    H.check("supports", S == [("XYHingedSupport", B[0]), ("YHingedSupport", B[-1])])
    for ms in (t.top_chord, t.bottom_chord, br):
        for i, m in enumerate(ms):
            pair = ms[len(ms) - 1 - i]
            H.check("pair", pair is m or m.symmetry_pair is pair)
    Wt, Wb, Wd = t.weight_detailed()
    for W, m, length in ((Wt, t.top_chord[0], L), (Wb, t.bottom_chord[0], L), (Wd, br[0], h * (n + 1))):
        H.eq("weight of a part", W, m.cross_section.A * length * 7850e-9, scale=1e4)


@job("T05", params=[dict(n=n, model=m, load=q) for n in (2, 5) for m in ("no_eccentricity", "ecc_elements") for q in ("line", "point")],
     bounds="Vierendeel trusses of 2 and 5 panels; line loads on the chords within +-100 N/mm or forces at all nodes within +-1000 kN")
def vierendeel_analysis(H, n, model, load):
    L, h = 2000.0 * n, 1500.0
    with quiet():
        t = VierendeelTruss(span=L, height=h, panels=n)
        t.generate_topology(nel_chord=2, nel_brace=2)
    t.generate_supports()
    t.generate_joints()
    q = {}
    if load == "line":
        q = {"top": H.real("qt", -100.0, 100.0), "bottom": H.real("qb", -100.0, 100.0)}
        for c, v in q.items():
            t.generate_uniform_load(v, c)
        P = {}
    else:
        e, i, b = H.real("end", -1e6, 1e6), H.real("inner", -1e6, 1e6), H.real("below", -1e6, 1e6)
        t.generate_chord_point_load([e, i])
        t.generate_chord_point_load([0.0, b], "bottom")
        P = {(2000.0 * k, h): e if k in (0, n) else i for k in range(n + 1)}
        P.update({(2000.0 * k, 0.0): b for k in range(1, n)})
    t.generate_fem(model)
    with no_extremes():
        t.structural_analysis(load_id=U, support_method="REM", design=False)
    loads = {}
    for nm, ch in (("top", t.top_chord), ("bottom", t.bottom_chord)):
        y = h if nm == "top" else 0.0
        es = [e for m in ch for e in m.fem_elements]
        path(H, nm, es, [(2000.0 * k, y) for k in range(n + 1)])
        for e in es:
            H.same("stiff chord", e.releases, [])
            if q:
                loads[id(e)] = ("y", q[nm])
    for j in t.joints.values():
        H.check("braces are square to the chords", abs(float(j.brace_angle(j.braces[0])) - 90.0) <= 1e-4 and abs(float(j.angle) - 90.0) <= 1e-4)
    for k, m in enumerate(t.braces.values()):
        path(H, f"brace {k}", m.fem_elements, [(2000.0 * k, h), (2000.0 * k, 0.0)])
        for e in m.fem_elements:
            H.check("stiff brace", e.releases == [] and not isinstance(e, Rod))
    H.same("elements", len(t.fem.elements), 4 * n + 2 * (n + 1))
    H.same("nodes", len(t.fem.nodes), 2 * (n + 1) + 2 * n + n + 1)
    R = node_balance(H, t.fem, U, loads)
    for nd in t.fem.nodes:
        x = pt(nd)
        r = R[nd.nid]
        fixed = (0, 1) if near(x, (0.0, 0.0)) else (1,) if near(x, (L, 0.0)) else ()
        f = [v for c, v in P.items() if near(c, x)]
        for j in range(3):
            if j in fixed:
                H.eq(f"support {x} {j}", nd.u[U][j], 0.0, scale=10.0)
            else:
                H.eq(f"equilibrium {x} {j}", r[j], f[0] if f and j == 1 else 0.0, scale=1e7 * (1000 if j == 2 else 1), rel=1e-5)


@job("T05", params=[dict(connected=c, order=o) for c in (False, True) for o in range(3)],
     bounds="portal frames of 24 m with K trusses, three load cases on truss and columns within +-100 N/mm given in three orders, two of them on the truss in one case")
def portal_cases(H, connected, order):
    L, h, rise = 24000.0, 8000.0, 900.0
    p = portal(L, h, "K", connected, True, "fixed")
    q, s, w = H.real("q", -100.0, 100.0), H.real("s", -100.0, 100.0), H.real("w", -100.0, 100.0)
    steps = [lambda: p.generate_uniform_load("truss", q, load_id=1), lambda: p.generate_uniform_load("truss", s, load_id=1, ltype="snow"),
             lambda: p.generate_uniform_load("truss", s, load_id=2, ltype="snow"), lambda: p.generate_uniform_load("column", w, member="left", load_id=3),
             lambda: p.generate_uniform_load("column", w, member="right", load_id=1), lambda: p.generate_uniform_load("truss", q, load_id=3)]
    for k in ([0, 1, 2, 3, 4, 5], [4, 3, 5, 2, 0, 1], [2, 0, 4, 1, 3, 5])[order]:
        steps[k]()
    with quiet():
        p.generate_fem(True, True)
        with no_extremes():
            p.structural_analysis(load_id="all", support_method="REM", design=False)
    H.same("load cases", sorted(p.load_ids), [1, 2, 3])
    roof = 2 * math.hypot(L / 2, rise)
    hc = p.columns[0].cross_section.H
    lost = 0.0 if connected else 2 * (hc / 2 + 30.0)  # between the columns' axes and the ends of the truss
    for lc, top, sides in ((1, q + s, w), (2, s, 0.0), (3, q, w)):
        V = Hx = 0.0
        for c in p.columns:
            f = c.fem_elements[0].fint[lc]
            V = V - f["fx"][0]
            Hx = Hx - f["fz"][0]
        if connected:
            # the top chord starts at the column's face
            H.le(f"vertical forces {lc}", (V + top * roof) * (V + top * roof), (top * 2 * (hc / 2 + 80.0)) * (top * 2 * (hc / 2 + 80.0)) + 1e4)
        else:
            H.le(f"vertical forces {lc}", (V + top * roof) * (V + top * roof), (top * (lost + 10.0)) * (top * (lost + 10.0)) + 1e4)
        H.eq(f"horizontal forces {lc}", Hx + sides * h, 0.0, scale=1e6, rel=1e-4)
