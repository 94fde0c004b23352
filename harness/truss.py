"""Plane trusses of raami: geometry (T01), analysis models (T02), tubular joints (T03)."""
import math

import numpy as np

from symx.registry import job
import metku.raami.frame_member as fm
import metku.structures.steel.steel_member
from metku.raami.raami_plane_truss import (SlopedTruss, TopChord, BottomChord, TrussBrace, TubularKGapJoint, TubularYJoint,
                                           TubularKTGapJoint)
from metku.raami.frame_loads import LineLoad, PWLineLoad
from metku.raami.frame_supports import XYHingedSupport, YHingedSupport
from metku.sections.steel.RHS import RHS, SHS
from harness.raami import no_extremes
from harness.ec3_member import mx, mn

# topology, bottom chord starts inside, first diagonal up, verticals at the edges
SHAPES = [("K", 1, 0, 1), ("K", 0, 0, 1), ("K", 0, 1, 1), ("K", 0, 1, 0), ("N", 1, 0, 1), ("N", 0, 0, 1), ("N", 0, 1, 1), ("N", 0, 0, 0),
          ("KT", 1, 0, 1), ("KT", 0, 0, 1), ("KT", 0, 1, 1), ("KT", 0, 1, 0)]


def expected(topo, inside, up, edge, n):
    """numbers of top and bottom nodes, and the pairs (top, bottom) joined by braces"""
    B = set()
    if topo == "K":
        if inside:
            nt, nb = 2 * n + 1, 2 * n
            B = {(i + k, i) for i in range(nb) for k in (0, 1)}
        elif up:
            nt, nb = 2 * n + 3, 2 * n + 2
            B = {(i, i - k) for i in range(1, nt - 1) for k in (0, 1)}
        else:
            nt, nb = 2 * n + 1, 2 * n + 2
            B = {(i - k, i) for i in range(1, nb - 1) for k in (0, 1)}
        if edge and not inside:
            B |= {(0, 0), (nt - 1, nb - 1)}
    elif topo == "N":
        nt, nb = 2 * n + 1, 2 * n - 1 if inside else 2 * n + 1
        if inside:
            B = {(i + 1, i) for i in range(nb)} | {(i, i) for i in range(n)} | {(i + 2, i) for i in range(n - 1, nb)}
        else:
            B = {(i, i) for i in range(0 if edge else 1, nt if edge else nt - 1)}
            d = {(i + 1, i) for i in range(n)} if up else {(i, i + 1) for i in range(n)}
            B |= d | {(nt - 1 - i, nb - 1 - j) for i, j in d}
    else:
        if inside:
            nt, nb = 4 * n + 1, 2 * n
            B = {(2 * i + k, i) for i in range(nb) for k in (0, 1, 2)}
        elif up:
            nt, nb = 4 * n + 3, 2 * n + 2
            B = {(2 * i, i) for i in range(0 if edge else 1, nb if edge else nb - 1)}
            B |= {(2 * i + 1, i + k) for i in range(nb - 1) for k in (0, 1)}
        else:
            nt, nb = 4 * n + 1, 2 * n + 2
            B = {(2 * i - k, i) for i in range(1, nb - 1) for k in (0, 1, 2)}
            if edge:
                B |= {(0, 0), (nt - 1, nb - 1)}
    return nt, nb, B


def shape_params(ns):
    return [dict(shape=i, n=n) for i in range(len(SHAPES)) for n in ns]


@job("T01", params=shape_params((2, 3)), thorough_params=shape_params((4, 5)),
     bounds="half span 6..20 m, height at the support 0.5..2.5 m, rise 0.05..2 m, start of the bottom chord 0 or 0.3..1.5 m; 2 and 3 (thorough: 4 and 5) divisions")
def geometry(H, shape, n):
    topo, inside, up, edge = SHAPES[shape]
    L, h1, rise = H.real("L", 6000.0, 20000.0), H.real("h1", 500.0, 2500.0), H.real("rise", 50.0, 2000.0)
    dx = H.real("dx", 300.0, 1500.0) if inside else 0
    t = SlopedTruss(L1=L, L2=L, dx1=dx, dx2=dx, h1=h1, h2=h1 + rise)
    H.eq("slope", np.tan(np.radians(t.slope)) * L, rise)
    t.generate_topology(topo, ndiv=n, first_diagonal_up=bool(up), edge_verticals=bool(edge), nel_chord=1)
    T, B = t.top_nodes, t.bottom_nodes
    nt, nb, br = expected(topo, inside, up, edge, n)
    H.same("numbers of nodes", [len(T), len(B), len(t.nodes)], [nt, nb, nt + nb])
    for i, p in enumerate(T):
        left = i <= nt // 2
        H.eq(f"top node {i} on the roof", p.y * L, rise * (p.x if left else 2 * L - p.x), scale=1e6)
        H.eq(f"symmetric top node {i}", p.x + T[nt - 1 - i].x, 2 * L)
    for i, p in enumerate(B):
        H.eq(f"bottom node {i} level", p.y, -h1)
        H.eq(f"symmetric bottom node {i}", p.x + B[nb - 1 - i].x, 2 * L)
    H.eqs("start and ridge", [T[0].x, T[0].y, T[nt // 2].x, T[nt // 2].y, B[0].x], [0.0, 0.0, L, rise, dx])
    for nm, N in (("top", T), ("bottom", B)):
        for i in range(len(N) - 1):
            H.ge(f"{nm} nodes in order {i}", N[i + 1].x - N[i].x, 1.0)
    H.same("top chord", [(T.index(m.nodes[0]), T.index(m.nodes[1])) for m in t.top_chord], [(i, i + 1) for i in range(nt - 1)])
    H.same("bottom chord", [(B.index(m.nodes[0]), B.index(m.nodes[1])) for m in t.bottom_chord], [(i, i + 1) for i in range(nb - 1)])
    got = []
    for m in t.braces.values():
        a, b = m.nodes if m.nodes[0] in T else m.nodes[::-1]
        got.append((T.index(a), B.index(b)))
    H.same("braces", sorted(got), sorted(br))
    for m, (i, j) in zip(t.braces.values(), got):
        others = [k for a, k in got if a == i and k != j]
        vert = (i, j) in ((0, 0), (nt - 1, nb - 1)) and not inside
        if topo == "N" and (i, j + 1 if inside else j) in ((k, k) for k in range(nt)) and (inside and i == j + 1 or not inside):
            vert = True
        if topo == "KT":
            vert = vert or (i % 2 == 1 if inside else i % 2 == 0 if up else i % 2 == 1)
        if vert:
            H.eq(f"vertical {i},{j}", T[i].x, B[j].x)
            H.same(f"marked vertical {i},{j}", m.vertical, True)
        else:
            H.same(f"not vertical {i},{j}", m.vertical, False)
            # braces of a top node go to both sides of it
            for k in others:
                if k < j:
                    H.ge(f"braces spread at {i}", B[j].x - B[k].x, 1.0)
    t.generate_supports()
    S = [(type(s), s.node) for s in t.supports.values()]
    ends = (T[0], T[-1]) if inside else (B[0], B[-1])
    H.same("supports", [S[0][0] is XYHingedSupport, S[0][1] is ends[0], S[1][0] is YHingedSupport, S[1][1] is ends[1], len(S)], [True] * 4 + [2])


@job("T01", params=[dict(shape=i) for i in (0, 1, 4, 6, 8)], bounds="half span 6..20 m, height 0.5..2.5 m, rise 0.05..2 m; two divisions")
def symmetric_members(H, shape):
    topo, inside, up, edge = SHAPES[shape]
    L, h1, rise = H.real("L", 6000.0, 20000.0), H.real("h1", 500.0, 2500.0), H.real("rise", 50.0, 2000.0)
    t = SlopedTruss(L1=L, L2=L, dx1=600.0 * inside, dx2=600.0 * inside, h1=h1, h2=h1 + rise)
    t.generate_topology(topo, ndiv=2, first_diagonal_up=bool(up), edge_verticals=bool(edge), nel_chord=1)
    t.symmetry()
    T, B = t.top_nodes, t.bottom_nodes
    for nm, N in (("top", T), ("bottom", B)):
        for i, p in enumerate(N):
            j = len(N) - 1 - i
            H.same(f"pair of {nm} node {i}", p.symmetry_node is (N[j] if j != i else None), True)
    mir = {p: N[len(N) - 1 - i] for N in (T, B) for i, p in enumerate(N)}
    for m in t.members.values():
        w = {mir[m.nodes[0]], mir[m.nodes[1]]}
        if w == set(m.nodes):
            continue
        H.same(f"pair of {m.mem_id}", m.symmetry_pair is not None and set(m.symmetry_pair.nodes) == w and m.symmetry_pair.symmetry_pair is m, True)


@job("T01", params=[dict(given=g) for g in ("h1", "h2", "both")], bounds="spans 10..40 m, heights 0.5..3 m, slope 1..12 degrees")
def dimensions(H, given):
    L = H.real("L", 5000.0, 20000.0)
    h1 = H.real("h1", 500.0, 3000.0)
    if given == "both":
        h2 = h1 + H.real("rise", 50.0, 2000.0)
        t = SlopedTruss(L1=L, L2=L, h1=h1, h2=h2)
        H.eq("slope", np.tan(np.radians(t.slope)) * L, h2 - h1)
    else:
        a = H.angle("slope", 1.0, 12.0, "deg")
        dy = L * np.tan(np.radians(a))
        h2 = h1 + dy
        t = SlopedTruss(L1=L, L2=L, slope=a, **({"h1": h1} if given == "h1" else {"h2": h2}))
    H.eqs("heights", [t.Hleft, t.Hmid, t.Hright], [h1, h2, h1])
    H.eq("span", t.span, 2 * L)
    H.eqs("ridge", list(t.xmid()), [L, h2 - h1])
    H.eqs("end", list(t.xend()), [2 * L, 0.0])


@job("T01", params=[dict(nz=k) for k in (1, 2, 3)], bounds="one to three boundaries of the load zones anywhere, at least a panel (2.5 m) apart; loads of any size")
def load_zones(H, nz):
    t = SlopedTruss(L1=10000.0, L2=10000.0, dx1=0, dx2=0, h1=1500.0, h2=2000.0)
    t.generate_topology("N", ndiv=4, nel_chord=2)
    x = []
    for i in range(nz):
        x.append((x[-1] if x else 0.0) + H.real(f"x{i}", 2600.0 if i else 0.0, 9000.0))
    H.assume(x[-1] <= 19500.0)
    q = [H.real(f"q{i}", -50.0, 50.0) for i in range(nz + 1)]
    t.generate_piecewise_uniform_load(q, x)
    for m in t.top_chord:
        a, b = m.nodes[0].x, m.nodes[1].x
        H.same(f"one load at {a:.0f}", len(m.loads), 1)
        ld = m.loads[0]
        H.same(f"direction at {a:.0f}", (ld.direction, ld.coord_sys), ("y", "global"))
        inside = [i for i, xi in enumerate(x) if a < xi and xi < b]
        if isinstance(ld, PWLineLoad):
            H.same(f"boundary in {a:.0f}", len(inside), 1)
            i = inside[0]
            H.eqs(f"values at {a:.0f}", list(ld.values), [q[i], q[i + 1]])
            H.eq(f"step at {a:.0f}", a + ld.xdiv * (b - a), x[i])
        else:
            H.same(f"no boundary in {a:.0f}", len(inside), 0)
            i = sum(1 for xi in x if xi <= a)
            H.eqs(f"value at {a:.0f}", list(ld.values), [q[i], q[i]])


# ------------------------------------------------------------------ analysis models
def truss(shape, n=2, L=8000.0, h1=1200.0, h2=1700.0, dx=700.0, nel=2, **kw):
    topo, inside, up, edge = SHAPES[shape]
    d = dx if inside else 0
    t = SlopedTruss(L1=L, L2=L, dx1=d, dx2=d, h1=h1, h2=h2)
    t.generate_topology(topo, ndiv=n, first_diagonal_up=bool(up), edge_verticals=bool(edge), nel_chord=nel, **kw)
    t.generate_supports()
    t.generate_joints()
    t.symmetry()
    return t


def cut_forces(m, lid, k, left):
    """force, moment and place of what acts on the left part where member m is cut at its FEM node k;
    left: the start of the member belongs to the left part"""
    p, r = m.fem_nodes[0], m.fem_nodes[-1]
    L = math.hypot(r.x - p.x, r.y - p.y)
    d = ((r.x - p.x) / L, (r.y - p.y) / L)
    F = m.nodal_forces[lid]
    N, V, M = F["N"][k], F["Vz"][k], F["My"][k]
    if type(m.fem_elements[0]).__name__ == "Rod":
        V = M = 0.0
    s = 1.0 if left else -1.0
    x = m.fem_nodes[k]
    return (s * (N * d[0] + V * d[1]), s * (N * d[1] - V * d[0])), s * M, (x.x, x.y)


MODELS = ["no_eccentricity", "en1993", "ecc_elements"]
# shapes whose supports have a node of their own in the model with eccentricity elements
ECC = [0, 4, 8]


def statics_params(n):
    P = [dict(shape=s, model=m, n=n, beams=b) for s in range(len(SHAPES)) for m in MODELS for b in (False, True)
         if (m != "ecc_elements" or s in ECC) and (m != "en1993" or s not in (3, 7, 11)) and not (b and s not in (0, 4, 8))]
    return P + [dict(shape=s, model=m, n=n, beams=False, two=True) for s in ECC for m in ("en1993", "ecc_elements")]


@job("T02", params=statics_params(2), thorough_params=statics_params(3),
     bounds="uniform loads q on the top and p on the bottom chord, +-100 kN/m, and a second load on the top chord in the same load case; 12 shapes, three models, braces as bars and as beams; 2 (thorough: 3) divisions")
def sections(H, shape, model, n, beams, two=False):
    """the member forces are in equilibrium with the loads on the part of the truss left of any panel"""
    topo, inside, up, edge = SHAPES[shape]
    d = 700.0 if inside else 0
    t = SlopedTruss(L1=8000.0, L2=8000.0, dx1=d, dx2=d, h1=1200.0, h2=1700.0)
    t.braces_as_beams = beams
    t.generate_topology(topo, ndiv=n, first_diagonal_up=bool(up), edge_verticals=bool(edge), nel_chord=2, nel_brace=2 if beams else 1)
    t.generate_supports()
    t.generate_joints()
    t.symmetry()
    q = H.real("q", -100.0, 100.0)
    # the ends of the bottom chord are elsewhere in the model with eccentricity elements
    p = H.real("p", -100.0, 100.0) if model != "ecc_elements" else 0.0
    t.generate_uniform_load(q)
    if two:
        q2 = H.real("q2", -100.0, 100.0)
        t.generate_uniform_load(q2)
        q = q + q2
    if model != "ecc_elements":
        t.generate_uniform_load(p, chord="bottom")
    t.generate_fem(model)
    lid = t.load_ids[0]
    H.same("one load case", t.load_ids, [lid])
    with no_extremes():
        t.structural_analysis(load_id=lid, support_method="REM", design=False)
    T, B = t.top_nodes, t.bottom_nodes
    St = sum(math.hypot(b.x - a.x, b.y - a.y) for a, b in zip(T, T[1:]))
    Sb = B[-1].x - B[0].x
    R = -(q * St + p * Sb) / 2
    sup = T[0] if inside else B[0]
    rib = [(T.index(m.nodes[0] if m.nodes[0] in T else m.nodes[1]), B.index(m.nodes[1] if m.nodes[0] in T else m.nodes[0]), m)
           for m in t.braces.values()]
    cuts = []
    for i in range(len(T) - 1):
        for j in range(len(B) - 1):
            cross = [(a, b, m) for a, b, m in rib if (a <= i) != (b <= j)]
            if len(cross) == 1:
                cuts.append((i, j, cross))
    H.same("panels cut", len(cuts) >= 2 * n, True)
    for i, j, cross in cuts:
        F, M = [0.0, R], R * sup.x
        a, b, br = cross[0]
        starts_at_top = br.fem_nodes[0].y > br.fem_nodes[-1].y
        parts = [(t.top_chord[i], 1, True), (t.bottom_chord[j], 1, True), (br, len(br.fem_nodes) // 2 if beams else 0, starts_at_top == (a <= i))]
        X = []
        for m, k, left in parts:
            f, mo, x = cut_forces(m, lid, k, left)
            F[0], F[1] = F[0] + f[0], F[1] + f[1]
            M = M + mo + x[0] * f[1] - x[1] * f[0]
            X.append(x)
        # loads left of the cut
        def line(N, k, x, val):
            P = [(a.x, a.y) for a in N[:k + 1]] + [x]
            w, mm = 0.0, 0.0
            for (xa, ya), (xb, yb) in zip(P, P[1:]):
                s = math.hypot(xb - xa, yb - ya)
                w, mm = w + s, mm + s * (xa + xb) / 2
            return val * w, val * mm
        for N, k, x, val in ((T, i, X[0], q), (B, j, X[1], p)):
            w, mm = line(N, k, x, val)
            F[1], M = F[1] + w, M + mm
        for nm, v, sc in (("x", F[0], 1e6), ("y", F[1], 1e6), ("moment", M, 1e10)):
            H.eq(f"{nm} left of panel {i},{j}", v, 0.0, scale=sc, rel=1e-5)


# ------------------------------------------------------------------ joints
CH = [("top", SHS(160, 5)), ("bottom", RHS(140, 120, 6))]


def kjoints(t, ridge=False):
    return [j for j in t.joints.values() if isinstance(j, TubularKGapJoint) and j.ridge == ridge]


def sharp(c):
    """angle whose cosine is c, between 0 and 90 degrees, in degrees"""
    return np.degrees(np.arccos(mx(c, -c)))


@job("T03", params=[dict(shape=s, k=k) for s in (0, 4, 8) for k in ("bottom", "top") if (s, k) != (8, "bottom")],
     bounds="a K joint of three trusses, eccentricity -0.4..0.4 of the chord height or shift along the chord +-60 mm")
def k_geometry(H, shape, k):
    """place, mirror image, angles, gap and face points of a K joint whose braces are shifted"""
    t = truss(shape, n=3)
    j = [x for x in kjoints(t) if x.chord == k and len(x.chords) == 2 and x.node.symmetry_node is not None][0 if k == "top" else 1]
    n, c = j.node, j.chords[0]
    d = c.dir_vector
    away = np.array([-d[1], d[0]]) if k == "top" else np.array([d[1], -d[0]])
    shift = H.flag("along")
    if shift:
        x, e = H.real("xloc", -60.0, 60.0), 0.25 * j.h0
        j.xloc = x
    else:
        x, e = 0.0, H.real("yloc", -0.4, 0.4) * j.h0
        j.yloc = e
    H.eqs("intersection of the braces", list(j.xp.coords), [n.x + x * d[0] + e * away[0], n.y + x * d[1] + e * away[1]])
    H.eq("eccentricity", j.eccentricity(), e)
    s = j.sym_joint
    H.same("mirror joint", s.node is n.symmetry_node, True)
    H.eqs("mirrored intersection", list(s.xp.coords), [t.span - j.xp.coords[0], j.xp.coords[1]])
    H.eqs("mirrored local coordinates", [s.xloc, s.yloc], [-x, e])
    foot = j.xchord()
    H.eqs("nearest point of the chord", list(foot), [n.x + x * d[0], n.y + x * d[1]], abs_=1e-6)
    # face of the chord: 0.5 h0 towards the braces
    face, axis = j.brace_chord_face_x()
    pos, half = {}, {}
    for b, a in zip(j.braces, j.angles):
        o = b.top_joint if b.top_joint is not j else b.bottom_joint
        P = o.xp.coords if isinstance(o, TubularKGapJoint) else o.node.coords
        v = P - j.xp.coords
        u0, u1 = v[0] * d[0] + v[1] * d[1], -(v[0] * away[0] + v[1] * away[1])
        # towards the braces
        H.ge("braces on the other side", u1, 0.0)
        au = mx(u0, -u0)
        if au > 20.0:
            H.eq(f"angle of brace {b.mem_id}", np.tan(np.radians(a)) * au, u1, rel=1e-5)
        f = face[b] - n.coords
        H.eq(f"on the face {b.mem_id}", -(f[0] * away[0] + f[1] * away[1]), 0.5 * j.h0)
        along = f[0] * d[0] + f[1] * d[1]
        # on the centre line of the brace
        H.eq(f"on the brace {b.mem_id}", (along - x) * u1, (0.5 * j.h0 + e) * u0, scale=1e5)
        q = axis[j.left_chord if b is j.left_brace else j.right_chord] - n.coords
        H.eqs(f"on the axis {b.mem_id}", [q[0] * d[0] + q[1] * d[1], q[0] * away[0] + q[1] * away[1]], [along, 0.0], abs_=1e-5)
        pos[b] = along
        half[b] = 0.5 * b.cross_section.H / np.sin(np.radians(a))
    l, r = j.left_brace, j.right_brace
    if d[0] < 0:
        l, r = r, l
    # a brace that is nearly vertical can lean over the other one
    if shape == 0 and k == "bottom" and (pos[l] <= x) & (x <= pos[r]):
        H.eq("gap", j.gap, pos[r] - pos[l] - half[l] - half[r], scale=100.0, rel=1e-5)


@job("T03", params=[dict(dim=i) for i in range(2)], bounds="ridge joints of two K trusses, eccentricity -0.2..0.4 of the chord height")
def ridge_geometry(H, dim):
    t = truss(0, n=3, h2=(1700.0, 2600.0)[dim])
    j = kjoints(t, True)[0]
    H.same("the ridge joint", t.ridge_joint is j, True)
    e = H.real("yloc", -0.2, 0.4) * j.h0
    j.yloc = e
    n = j.node
    H.eqs("intersection of the braces", list(j.xp.coords), [n.x, n.y + e])
    face, axis = j.brace_chord_face_x()
    for b, c, s in ((j.left_brace, j.left_chord, 1), (j.right_brace, j.right_chord, -1)):
        d = c.dir_vector
        f, q = face[b] - n.coords, axis[c] - n.coords
        o = b.bottom_joint
        v = o.xp.coords - j.xp.coords
        g = face[b] - j.xp.coords
        H.eq(f"on the brace {s}", g[0] * v[1], g[1] * v[0], scale=1e6)
        H.eq(f"on the face {s}", f[0] * d[1] - f[1] * d[0], 0.5 * j.h0)
        H.eq(f"foot on the axis {s}", q[0] * d[1], q[1] * d[0], scale=100.0)
        H.eq(f"foot {s}", (f[0] - q[0]) * d[0] + (f[1] - q[1]) * d[1], 0.0, scale=100.0)


def loaded(t, j, H, lid, n1, n2):
    for b, n in zip(j.braces, (n1, n2)):
        b.NEd[lid] = n
    N = [H.real(f"N0{i}", -0.95, 0.95) * c.cross_section.A * c.cross_section.fy for i, c in enumerate(j.chords)]
    for c, n in zip(j.chords, N):
        c.NEd[lid] = n
    return N


class Gap:
    def __init__(self, fz):
        self.fint = {0: {"fz": fz}}


RED = {"S235": 1.0, "S355": 1.0, "S420": 0.9, "S700": 0.8}


@job("T03", params=[dict(mat=m, w=w, end=e, plate=p) for m, w, e, p in (("S355", 0.35, 0, 0), ("S355", 0.6, 0, 0), ("S355", 1.0, 0, 0), ("S420", 0.6, 0, 0),
                                                                    ("S700", 0.6, 0, 0), ("S355", 0.6, 1, 0), ("S355", 0.6, 0, 1), ("S420", 0.9, 1, 0))],
     bounds="brace forces +-1 MN, chord forces up to 0.95 of the yield force, shear in the gap up to its resistance and beyond, brace width 0.35, 0.6, 0.9, 1.0 of the chord")
def k_resistance(H, mat, w, end, plate):
    chord, brace = SHS(160, 6), RHS(160 * w * 0.9, 160 * w, 5.0)
    for s in (chord, brace):
        s.material = mat
    t = truss(0, n=2, bottom_chord_profile=chord, brace_profile=brace, nel=1)
    j = [x for x in kjoints(t) if x.chord == "bottom" and (len(x.chords) == 1) == bool(end)][0]
    fy = float(mat[1:])
    n1, n2 = H.real("N1", -1e6, 1e6), H.real("N2", -1e6, 1e6)
    N = loaded(t, j, H, 0, n1, n2)
    if len(N) == 2:
        # the chord with the smaller force is not ambiguous
        a0, a1 = mx(N[0], -N[0]), mx(N[1], -N[1])
        H.assume((a0 - a1 >= 10.0) | (a1 - a0 >= 10.0))
    p, q = j.chords[0].cross_section, j.braces[0].cross_section
    Vpl = p.VRd
    v = H.real("v", -1.3, 1.3)
    H.assume((v <= 0.99) & (v >= -0.99) | (v >= 1.01) | (v <= -1.01))
    j.fem_elements["gap"] = Gap([v * Vpl, -0.5 * v * Vpl])
    t0 = p.T
    if plate:
        j.chord_face_plate["tp"] = 9.0
        t0 = 9.0
    red = RED[mat]
    beta = (q.B + q.H) / (2 * p.B)
    H.eq("beta", j.beta(), beta)
    H.eq("reduction", j.strength_reduction(), red)
    a = [math.radians(x) for x in j.angles]
    u = j.design(0, verb=False)
    # chord force: the smaller one
    if len(N) == 2:
        N0 = N[0] if mx(N[0], -N[0]) < mx(N[1], -N[1]) else N[1]
    else:
        N0 = N[0]
    H.eq("chord force", j.N0, N0)
    n = -N0 / p.A / fy
    kn = mn(1.3 - 0.4 * n / beta, 1.0) if n > 0 else 1.0
    V = mx(v, -v) * Vpl
    g = j.gap
    al = math.sqrt(1 / (1 + 4 * g ** 2 / (3 * p.T ** 2)))
    Av = (2 * p.H + al * p.B) * p.T
    H.same("three ratios", len(u), 3)
    for i, F in ((0, n1), (1, n2)):
        s = math.sin(a[i])
        gam = p.B / 2 / p.T
        cf = red * 8.9 * kn * fy * t0 ** 2 * math.sqrt(gam) * beta / s
        cs = red * fy * Av / math.sqrt(3) / s
        beff = mn(10 * t0 / p.B * t0 / q.T, 1.0) * q.B
        R = mn(mn(cf, cs), red * fy * q.T * (2 * q.H - 4 * q.T + q.B + beff))
        if beta <= 1 - 1 / gam:
            bep = mn(10 * t0 / p.B, 1.0) * q.B
            R = mn(R, red * fy * t0 / math.sqrt(3) / s * (2 * q.H / s + q.B + bep))
        H.eq(f"brace {i}", u[i] * R, mx(F, -F), rel=1e-5)
    if V > Vpl:
        H.ge("no capacity left in the gap", u[2], 1e3)
    else:
        N0Rd = red * fy * ((p.A - Av) + Av * (1 - (V / Vpl) ** 2) ** 0.5)
        H.eq("chord in the gap", u[2] * N0Rd, mx(N0, -N0), rel=1e-5)
    H.eq("utilization", j.utilization[0], mx(mx(u[0], u[1]), u[2]))


@job("T03", params=[dict(mat=m, c=c) for m in ("S355", "S420") for c in range(2)] + [dict(mat="S700", c=0)],
     bounds="brace width 0.3..1 of the chord, brace force +-1 MN, chord force +-1 MN")
def y_resistance(H, mat, c):
    chord = (SHS(160, 6), RHS(140, 200, 8))[c]
    w = H.real("w", 0.3, 1.0)
    brace = RHS(100.0, w * chord.B, 5.0)
    chord.material = mat
    brace.material = mat
    t = truss(4, n=2, bottom_chord_profile=chord, top_chord_profile=chord, brace_profile=brace, nel=1)
    j = [x for x in t.joints.values() if isinstance(x, TubularYJoint) and len(x.chords) == 2][0]
    fy = float(mat[1:])
    F = H.real("N1", -1e6, 1e6)
    j.braces[0].NEd[0] = F
    N0 = H.real("N0", -1e6, 1e6)
    j.chords[0].NEd[0] = N0
    p, q = j.chords[0].cross_section, j.braces[0].cross_section
    u = j.design(0)
    d, (xa, xb) = j.chords[0].dir_vector, [m.coords for m in j.braces[0].nodes]
    red = RED[mat]
    s = math.sin(math.radians(j.angle))
    beta = w
    n = -N0 / p.A / fy
    kn = mn(1.3 - 0.4 * n / beta, 1.0) if n > 0 else 1.0
    H.assume((kn >= 0.05) | (kn <= -0.05))
    H.eq("utilization", j.utilization[0], u)
    b = mn(beta, 0.85)
    x = (1 - b) ** 0.5
    face = red * kn * fy * p.T ** 2 / ((1 - b) * s) * (2 * q.H / p.B / s + 4 * x)
    H.eq("chord face", j.chord_face_failure(), face)
    if beta < 0.85:
        H.eq("narrow brace", u * face, mx(F, -F), rel=1e-5)
        return
    fb = fy
    if F < 0:
        lam = 3.46 * (p.H / p.T - 2) * math.sqrt(1 / s) / (math.pi * math.sqrt(210e3 / fy))
        phi = 0.5 * (1 + p.imp_factor[0] * (lam - 0.2) + lam ** 2)
        fb = min(1.0, 1 / (phi + math.sqrt(phi ** 2 - lam ** 2))) * fy
    web = red * kn * fb * p.T / s * (2 * q.H / s + 10 * p.T)
    H.eq("side walls", j.chord_web_buckling(0), web)
    R = face + (beta - 0.85) / 0.15 * (web - face)
    beff = mn(10 * p.T / p.B * p.T / q.T, 1.0) * q.B
    bf = red * fy * q.T * (2 * q.H - 4 * q.T + 2 * beff)
    H.eq("brace failure", j.brace_failure(), bf)
    R = mn(R, bf)
    if beta <= 1 - 2 * p.T / p.B:
        bep = mn(10 * p.T / p.B, 1.0) * q.B
        ps = red * fy * p.T / math.sqrt(3) / s * (2 * q.H / s + 2 * bep)
        H.eq("punching shear", j.punching_shear(), ps)
        R = mn(R, ps)
    H.eq("wide brace", u * R, mx(F, -F), rel=1e-5)


@job("T03", params=[dict(shape=s) for s in (0, 5, 8)], bounds="geometry of three trusses; brace height and width 40..100 mm")
def joint_types(H, shape):
    """each joint gets the members that meet at its node; its welds cost what their lengths say"""
    h, b = H.real("h", 40.0, 100.0), H.real("b", 40.0, 100.0)
    t = truss(shape, n=2, brace_profile=RHS(h, b, 4.0), nel=1)
    for node in t.nodes:
        br = [m for m in t.braces.values() if node in m.nodes]
        ch = [m for m in t.top_chord + t.bottom_chord if node in m.nodes]
        js = [j for j in t.joints.values() if j.node is node]
        H.same(f"joints at {node.node_id}", len(js), 1 if br else 0)
        if not br:
            continue
        j = js[0]
        H.same(f"type at {node.node_id}", type(j).__name__, {1: "TubularYJoint", 2: "TubularKGapJoint", 3: "TubularKTGapJoint"}[len(br)])
        H.same(f"members at {node.node_id}", set(j.braces) == set(br) and set(j.chords) == set(ch), True)
        for m in br:
            H.same(f"joint of brace {m.mem_id} at {node.node_id}", (m.top_joint if node in t.top_nodes else m.bottom_joint) is j, True)
        for m in ch:
            H.same(f"joint of chord {m.mem_id} at {node.node_id}", j in m.joints, True)
        if isinstance(j, TubularKGapJoint):
            x = {m: (m.nodes[0] if m.nodes[1] is node else m.nodes[1]).x for m in br}
            H.same(f"left and right at {node.node_id}", (x[j.left_brace] < x[j.right_brace], {j.left_brace, j.right_brace} == set(br)), (True, True))
