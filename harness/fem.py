"""Finite element frame analysis: stiffness (F01), element loads (F02), static analysis (F03), independence (F04)."""
import numpy as np

from symx.registry import job
import metku.framefem.framefem as ff
from metku.framefem.elements.ebbeam import EBBeam, EBBeam3D
from metku.framefem.elements.rod import Rod
from metku.framefem.elements.springs import LinearSpring
from metku.framefem.elements.eb_semi_rigid_beam import EBSemiRigidBeam

E, NU, RHO = 210e3, 0.3, 7850e-9
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3 / 5, 4 / 5), (-4 / 5, 3 / 5), (-3 / 5, -4 / 5), (4 / 5, -3 / 5)]
RIGID, HINGE = 1e20, 1e-4


class Sect:
    """section properties only"""
    def __init__(self, A, Iy, Iz=1e6, It=1e5):
        self.A, self.I, self.It = A, [Iy, Iz], It

    @property
    def Iy(self):
        return self.I[0]

    @property
    def Iz(self):
        return self.I[1]


# ---------------------------------------------------------------------------
# beam theory
# ---------------------------------------------------------------------------
def end_moments(EI, L, f1, f2, k1, k2, fem=(0.0, 0.0)):
    """moments on the ends of a beam whose nodes turn by f1, f2 from the chord and whose joints
    have stiffness k (None: rigid, 0: hinge); fem are the moments of the clamped beam"""
    b = 2 * EI / L
    m1, m2 = fem
    # M1 = b (2 a1 + a2) + m1 = k1 (f1 - a1)
    if k1 is None and k2 is None:
        return b * (2 * f1 + f2) + m1, b * (f1 + 2 * f2) + m2
    if k1 == 0 and k2 == 0:
        return 0.0, 0.0
    if k1 is None:
        # (2b + k2) a2 = k2 f2 - b f1 - m2
        a2 = (k2 * f2 - b * f1 - m2) / (2 * b + k2)
        return b * (2 * f1 + a2) + m1, b * (f1 + 2 * a2) + m2
    if k2 is None:
        a1 = (k1 * f1 - b * f2 - m1) / (2 * b + k1)
        return b * (2 * a1 + f2) + m1, b * (a1 + 2 * f2) + m2
    r1, r2 = k1 * f1 - m1, k2 * f2 - m2
    d = (2 * b + k1) * (2 * b + k2) - b * b
    a1 = (r1 * (2 * b + k2) - b * r2) / d
    a2 = (r2 * (2 * b + k1) - b * r1) / d
    return b * (2 * a1 + a2) + m1, b * (a1 + 2 * a2) + m2


def clamped(L, p1, p2, q1, q2):
    """forces of the supports on a clamped beam: axial load p, transverse load q (linear)"""
    W = 0.5 * L * (q1 + q2)
    # moments by integration of q(x) N(x), Boole's rule is exact
    w = (7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90)
    m1 = m2 = v1 = a1 = 0.0
    for i, wi in enumerate(w):
        t = i / 4
        q, p = q1 + (q2 - q1) * t, p1 + (p2 - p1) * t
        v1 = v1 + wi * q * (1 - 3 * t * t + 2 * t * t * t)
        m1 = m1 + wi * q * (t - 2 * t * t + t * t * t)
        m2 = m2 + wi * q * (t * t * t - t * t)
        a1 = a1 + wi * p * (1 - t)
    A = 0.5 * L * (p1 + p2)
    return (-a1 * L, -v1 * L, -m1 * L * L, -(A - a1 * L), -(W - v1 * L), -m2 * L * L)


def beam_forces(EA, EI, L, u, k=(None, None), fix=(0.0,) * 6):
    """forces on the ends of a beam with end displacements u (local) and clamped end forces fix"""
    N = EA / L * (u[3] - u[0])
    psi = (u[4] - u[1]) / L
    m0 = end_moments(EI, L, u[2] - psi, u[5] - psi, k[0], k[1])
    m = end_moments(EI, L, u[2] - psi, u[5] - psi, k[0], k[1], (fix[2], fix[5]))
    # the rest of the clamped forces stays, its moments are replaced
    V = (m[0] + m[1]) / L
    V0 = (fix[2] + fix[5]) / L
    return (-N + fix[0], V - V0 + fix[1], m[0], N + fix[3], -V + V0 + fix[4], m[1])


def rot(d, v):
    """global to local"""
    c, s = d
    return [c * v[0] + s * v[1], -s * v[0] + c * v[1], v[2], c * v[3] + s * v[4], -s * v[3] + c * v[4], v[5]]


def unrot(d, v):
    c, s = d
    return [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2], c * v[3] - s * v[4], s * v[3] + c * v[4], v[5]]


UNIT6 = [[float(i == j) for i in range(6)] for j in range(6)]
REL = {"none": [], "start": [2], "end": [5], "both": [2, 5]}
KREL = {"none": (None, None), "start": (0, None), "end": (None, 0), "both": (0, 0)}


def beam(H, d, cls=EBBeam, L=None, sect=None, **k):
    L = H.int("L", 10, 20000) if L is None else L
    x, y = H.int("x", -1000, 1000), H.int("y", -1000, 1000)
    n1, n2 = ff.FEMNode(0, x, y), ff.FEMNode(1, x + L * d[0], y + L * d[1])
    m = ff.Material(H.real("E", 1e3, 3e5), RHO, nu=NU)
    s = sect or ff.BeamSection(H.real("A", 10.0, 1e6), H.real("I", 1e3, 1e11))
    return cls(n1, n2, s, m, **k), m.young * s.A, m.young * s.I[0], L


# ---------------------------------------------------------------------------
# F01 stiffness
# ---------------------------------------------------------------------------
@job("F01", params=[dict(i=i, rel=r) for i in range(8) for r in ("none", "start", "end", "both")],
     bounds="E in [1e3,3e5], A in [10,1e6], I in [1e3,1e11], L whole mm in [10,20000], 8 directions, hinges at either end")
def beam_stiffness(H, i, rel):
    d = DIRS[i]
    e, EA, EI, L = beam(H, d)
    e.releases = REL[rel]
    K = e.stiffness_matrix()
    H.same("size", K.shape, (6, 6))
    for j, u in enumerate(UNIT6):
        H.eqs(f"column {j}", K[:, j], unrot(d, beam_forces(EA, EI, L, rot(d, u), KREL[rel])))


@job("F01", bounds="as beam_stiffness; hinges set, moved and removed, sections changed between evaluations")
def stiffness_follows_changes(H):
    d = DIRS[4]
    e, EA, EI, L = beam(H, d)
    I2 = H.real("I2", 1e3, 1e11)
    I1 = e.section.I[0]
    for rel, I in (("start", I1), ("none", I1), ("end", I2), ("start", I2), ("end", I1), ("none", I2)):
        e.releases = REL[rel]
        e.section.I[0] = I
        K = e.stiffness_matrix()
        for j in (1, 2, 5):
            H.eqs(f"{rel} {j}", K[:, j], unrot(d, beam_forces(EA, e.material.young * I, L, rot(d, UNIT6[j]), KREL[rel])))


@job("F01", params=[dict(i=i, k=k) for i in (0, 1, 4, 6) for k in ("sym", "left", "right", "rigid", "hinge")],
     bounds="joint stiffness in [1e3,1e15] or rigid or hinged; E, A, I, L as beam_stiffness")
def semi_rigid(H, i, k):
    d = DIRS[i]
    k1, k2 = H.real("k1", 1e3, 1e15), H.real("k2", 1e3, 1e15)
    if k == "hinge":
        # an artificial stiffness of 1e-4 stands for a hinge
        arg, kk = [0.0, 0.0], (HINGE, HINGE)
    else:
        arg, kk = dict(sym=([k1, k2], (k1, k2)), left=([k1, np.inf], (k1, None)),
                       right=([np.inf, k2], (None, k2)), rigid=([np.inf, np.inf], (None, None)))[k]
    e, EA, EI, L = beam(H, d, EBSemiRigidBeam, rot_stiff=arg)
    K = e.stiffness_matrix()
    for j, u in enumerate(UNIT6):
        H.eqs(f"column {j}", K[:, j], unrot(d, beam_forces(EA, EI, L, rot(d, u), kk)))


@job("F01", params=[dict(i=i, what=w) for i in range(8) for w in ("rod", "spring")],
     bounds="E in [1e3,3e5], A in [10,1e6], spring stiffness in [1e-3,1e9], L whole mm in [10,20000]")
def axial_stiffness(H, i, what):
    d = DIRS[i]
    if what == "rod":
        e, EA, EI, L = beam(H, d, Rod)
        k = EA / L
    else:
        L = H.int("L", 10, 20000)
        k = H.real("k", 1e-3, 1e9)
        e = LinearSpring(ff.FEMNode(0, 5.0, 7.0), ff.FEMNode(1, 5.0 + L * d[0], 7.0 + L * d[1]), k)
    K = e.stiffness_matrix()
    H.same("size", K.shape, (4, 4))
    for j in range(4):
        u = [float(j == m) for m in range(4)]
        N = k * ((u[2] - u[0]) * d[0] + (u[3] - u[1]) * d[1])
        H.eqs(f"column {j}", K[:, j], [-N * d[0], -N * d[1], N * d[0], N * d[1]])


@job("F01", params=[dict(v=v) for v in ((2, 3, 6), (6, 2, -3), (-1, 0, 0), (0, 0, 1), (0, 1, 0), (3, -6, 2), (0, 0, -1))],
     bounds="space beam in 7 directions, E, A, Iy, Iz, It and L symbolic")
def space_beam(H, v):
    n = sum(c * c for c in v) ** 0.5
    d = [c / n for c in v]
    L = int(n) * H.int("L", 10, 3000)
    s = Sect(H.real("A", 10.0, 1e6), H.real("Iy", 1e3, 1e10), H.real("Iz", 1e3, 1e10), H.real("It", 1e3, 1e10))
    n1 = ff.FEMNode(0, 1.0, 2.0, 3.0)
    n2 = ff.FEMNode(1, *[a + L * b for a, b in zip((1.0, 2.0, 3.0), d)])
    m = ff.Material(H.real("E", 1e3, 3e5), RHO, nu=NU)
    e = EBBeam3D(n1, n2, s, m)
    K = e.stiffness_matrix()
    H.same("size", K.shape, (12, 12))
    EA, GJ = m.young * s.A, m.young / 2.6 * s.It
    # local axes: x along the beam, y across it and horizontal unless the beam is along y, z = x cross y
    T = e.direction_cosines()
    H.eqs("x axis", T[0], d)
    for a in range(3):
        for b in range(3):
            H.eq(f"axes {a}{b}", sum(T[a][c] * T[b][c] for c in range(3)), float(a == b), abs_=1e-9)
    for c in range(3):
        H.eq(f"right handed {c}", T[2][c], T[0][(c + 1) % 3] * T[1][(c + 2) % 3] - T[0][(c + 2) % 3] * T[1][(c + 1) % 3], abs_=1e-9)
    if v[1] == 0:
        H.eq("cross axis of a beam in the xz plane", T[1][1] * T[1][1], 1.0)
    for j in range(12):
        u = [float(j == q) for q in range(12)]
        lo = [[sum(T[a][c] * u[3 * g + c] for c in range(3)) for a in range(3)] for g in range(4)]
        (ux1, uy1, uz1), (rx1, ry1, rz1), (ux2, uy2, uz2), (rx2, ry2, rz2) = lo
        p = beam_forces(EA, m.young * s.I[1], L, [ux1, uy1, rz1, ux2, uy2, rz2])
        # bending in the xz plane: a positive turn about y lowers the x axis
        q = beam_forces(EA, m.young * s.I[0], L, [0, uz1, -ry1, 0, uz2, -ry2])
        t = GJ / L * (rx2 - rx1)
        loc = [[p[0], p[1], q[1]], [-t, -q[2], p[2]], [p[3], p[4], q[4]], [t, -q[5], p[5]]]
        glob = [sum(T[a][c] * g[a] for a in range(3)) for g in loc for c in range(3)]
        H.eqs(f"column {j}", K[:, j], glob, abs_=1e-9, scale=EA / L + m.young * (s.I[0] + s.I[1]) / L + GJ / L)


@job("F01", params=[dict(i=i, rel=r) for i in (0, 1, 4, 6) for r in ("none", "start", "end", "both")],
     bounds="axial force in [-1e7,1e7], L whole mm in [10,20000], 4 directions, hinges at either end")
def geometric_stiffness(H, i, rel):
    d = DIRS[i]
    e, EA, EI, L = beam(H, d)
    e.releases = REL[rel]
    P = H.real("P", -1e7, 1e7)
    e.add_loadcase(3)
    e.fint[3]["fx"] = [P, P]
    e.stiffness_matrix()
    G = e.geometric_stiffness_matrix(3)
    # the work of the axial force on the beam's own shape, int P w'^2
    w = (7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90)

    def shape(u):
        u = rot(d, u)
        psi = (u[4] - u[1]) / L
        f1, f2 = u[2] - psi, u[5] - psi
        if rel == "start":
            f1 = -f2 / 2
        elif rel == "end":
            f2 = -f1 / 2
        elif rel == "both":
            f1 = f2 = 0.0
        return [psi + f1 * (1 - 4 * t + 3 * t * t) + f2 * (3 * t * t - 2 * t) for t in (0, .25, .5, .75, 1)]
    for a in range(6):
        for b in range(a, 6):
            wa, wb = shape(UNIT6[a]), shape(UNIT6[b])
            ref = P * L * sum(wi * p * q for wi, p, q in zip(w, wa, wb))
            H.eq(f"{a}{b}", G[a, b], ref)
            H.eq(f"{b}{a}", G[b, a], ref)


@job("F01", bounds="compression with kL in [0.1,3], E, A, I symbolic, L 1000 or 4000 mm, tension any; rigid body motion and symmetry")
def second_order_stiffness(H):
    L = H.choice("L", [1000, 4000])
    e, EA, EI, L = beam(H, DIRS[0], L=L)
    lam = H.angle("kL", 0.1, 3.0)
    P = EI * lam * lam / (L * L)
    e.add_loadcase(3)
    e.fint[3]["fx"] = [-P, -P]
    K = e.second_order_stiffness_matrix(3)
    sc = EI / L + EA
    for a in range(6):
        H.eq(f"translation x {a}", K[a, 0] + K[a, 3], 0.0, scale=sc)
        H.eq(f"translation y {a}", K[a, 1] + K[a, 4], 0.0, scale=sc)
        for b in range(a):
            H.eq(f"symmetry {a}{b}", K[a, b], K[b, a], scale=sc)
    # turned as a rigid body, the beam pushes its nodes sideways with its axial force
    for a, r in enumerate((0.0, P, 0.0, 0.0, -P, 0.0)):
        H.eq(f"rotation {a}", K[a, 2] + K[a, 5] + L * K[a, 4], r, scale=sc * L)


@job("F01", bounds="axial force in [0,1e7], E, A, I symbolic, L whole mm in [10,20000], 4 directions", params=[dict(i=i) for i in (0, 1, 4, 6)])
def second_order_tension(H, i):
    e, EA, EI, L = beam(H, DIRS[i])
    e.add_loadcase(3)
    P = H.real("P", 0.0, 1e7)
    e.fint[3]["fx"] = [P, P]
    H.eqs("first order stiffness", e.second_order_stiffness_matrix(3), e.stiffness_matrix())


# ---------------------------------------------------------------------------
# F02 element loads
# ---------------------------------------------------------------------------
def line_load(H, e, dir_, coords, sid=2):
    q1, q2 = H.real(f"q1{sid}", -1e3, 1e3), H.real(f"q2{sid}", -1e3, 1e3)
    ld = ff.LineLoad(sid, e, [0, 1], [q1, q2], dir_, coords=coords)
    f = H.real(f"f{sid}", -3.0, 3.0)
    ld.f = f
    return ld, f * q1, f * q2


def comps(d, dir_, coords, q1, q2):
    """(p1, p2, q1, q2) local axial and transverse load"""
    u = (1.0, 0.0) if dir_ == "x" else (0.0, 1.0)
    if coords == "global":
        u = (d[0] * u[0] + d[1] * u[1], -d[1] * u[0] + d[0] * u[1])
    return u[0] * q1, u[0] * q2, u[1] * q1, u[1] * q2


LOADS = [(a, b) for a in "xy" for b in ("global", "local")]


@job("F02", params=[dict(i=i, ld=l, rel=r) for i in (0, 1, 4, 6) for l in range(4) for r in ("none", "start", "end", "both")],
     bounds="linear loads in [-1e3,1e3] with a factor in [-3,3], L whole mm in [10,20000], 4 directions, hinges at either end")
def line_loads(H, i, ld, rel):
    d = DIRS[i]
    e, EA, EI, L = beam(H, d)
    e.releases = REL[rel]
    load, q1, q2 = line_load(H, e, *LOADS[ld])
    for j, n in enumerate(e.nodes):
        n.dofs = np.array([3 * j, 3 * j + 1, 3 * j + 2])
    e.stiffness_matrix()
    F, dofs = load.load_and_dofs()
    H.same("dofs", [int(x) for x in dofs], list(range(6)))
    fix = clamped(L, *comps(d, *LOADS[ld], q1, q2))
    ref = beam_forces(EA, EI, L, [0.0] * 6, KREL[rel], fix)
    H.eqs("nodal loads", F, [-x for x in unrot(d, ref)])


@job("F02", params=[dict(i=i, ld=l, k=k) for i in (0, 4) for l in range(4) for k in ("sym", "left", "right", "rigid")],
     bounds="as line_loads, joints with stiffness in [1e3,1e15] or rigid")
def semi_rigid_loads(H, i, ld, k):
    d = DIRS[i]
    k1, k2 = H.real("k1", 1e3, 1e15), H.real("k2", 1e3, 1e15)
    arg, kk = dict(sym=([k1, k2], (k1, k2)), left=([k1, np.inf], (k1, None)),
                   right=([np.inf, k2], (None, k2)), rigid=([np.inf, np.inf], (None, None)))[k]
    e, EA, EI, L = beam(H, d, EBSemiRigidBeam, rot_stiff=arg)
    load, q1, q2 = line_load(H, e, *LOADS[ld])
    for j, n in enumerate(e.nodes):
        n.dofs = np.array([3 * j, 3 * j + 1, 3 * j + 2])
    F, dofs = load.load_and_dofs()
    fix = clamped(L, *comps(d, *LOADS[ld], q1, q2))
    H.eqs("nodal loads", F, [-x for x in unrot(d, beam_forces(EA, EI, L, [0.0] * 6, kk, fix))])


@job("F02", bounds="point loads in [-1e6,1e6] with factors in [-3,3], any node without some degrees of freedom")
def point_loads(H):
    n = ff.FEMNode(0, 0.0, 0.0)
    v = [H.real(f"v{i}", -1e6, 1e6) for i in range(3)]
    f = H.real("f", -3.0, 3.0)
    n.dofs = np.array(H.choice("dofs", [[4, 7, 9], [0, 1, -1], [-1, 2, -1], [5, -1, 3]]))
    F, dofs = ff.PointLoad(1, n, v, f).load_and_dofs()
    free = [i for i in range(3) if n.dofs[i] >= 0]
    H.same("dofs", list(dofs), [n.dofs[i] for i in free])
    H.eqs("values", F, [f * v[i] for i in free])


@job("F02", params=[dict(v=v) for v in ((2, 3, 6), (-1, 0, 0), (0, 0, 1), (0, 1, 0), (3, -6, 2))],
     bounds="linear loads along any axis on a space beam in 5 directions, L symbolic")
def space_loads(H, v):
    n = sum(c * c for c in v) ** 0.5
    d = [c / n for c in v]
    L = int(n) * H.int("L", 10, 3000)
    n1 = ff.FEMNode(0, 1.0, 2.0, 3.0)
    n2 = ff.FEMNode(1, *[a + L * b for a, b in zip((1.0, 2.0, 3.0), d)])
    e = EBBeam3D(n1, n2, Sect(1e3, 1e6), ff.Material(E, RHO, nu=NU))
    q1, q2 = H.real("q1", -1e3, 1e3), H.real("q2", -1e3, 1e3)
    T = e.direction_cosines()
    for coords in ("global", "local"):
        for a, ax in enumerate("xyz"):
            ld = ff.LineLoad(2, e, [0, 1], [q1, q2], ax, coords=coords)
            ld.f = 2.0
            F = e.equivalent_nodal_loads(ld)
            if coords == "global":
                u = [T[c][a] for c in range(3)]
            else:
                u = [float(c == a) for c in range(3)]
            p = clamped(L, 2 * u[0] * q1, 2 * u[0] * q2, 2 * u[1] * q1, 2 * u[1] * q2)
            q = clamped(L, 0.0, 0.0, 2 * u[2] * q1, 2 * u[2] * q2)
            loc = [[p[0], p[1], q[1]], [0.0, -q[2], p[2]], [p[3], p[4], q[4]], [0.0, -q[5], p[5]]]
            ref = [-sum(T[c][b] * g[c] for c in range(3)) for g in loc for b in range(3)]
            H.eqs(f"{coords} {ax}", F, ref, abs_=1e-6, scale=L * L * 1e3)


@job("F02", bounds="uniform load in [-1e3,1e3], compression with kL in [0.1,3], E, I symbolic", params=[dict(ld=l) for l in (2, 3)])
def second_order_loads(H, ld):
    """M = q L^2/12 * 3 (tan u - u)/(u^2 tan u), u = kL/2"""
    L = H.choice("L", [1000, 4000])
    e, EA, EI, L = beam(H, DIRS[0], L=L)
    u = H.angle("u", 0.05, 1.5)
    P = EI * 4 * u * u / (L * L)
    e.add_loadcase(2)
    e.fint[2]["fx"] = [-P, -P]
    q = H.real("q", -1e3, 1e3)
    load = ff.LineLoad(2, e, [0, 1], [q, q], LOADS[ld][0], coords=LOADS[ld][1])
    for j, n in enumerate(e.nodes):
        n.dofs = np.array([3 * j, 3 * j + 1, 3 * j + 2])
    F, dofs = load.load_and_dofs(order=2)
    s, c = np.sin(u), np.cos(u)
    H.eqs("forces", [F[0], F[1], F[3], F[4]], [0.0, q * L / 2, 0.0, q * L / 2])
    for m, sg in ((F[2], 1), (F[5], -1)):
        H.eq(f"moment {sg}", m * (4 * u * u * s), sg * q * L * L * (s - u * c), abs_=1e-6 * L * L)


# ---------------------------------------------------------------------------
# F03 static analysis
# ---------------------------------------------------------------------------
MATS = (210e3, 11e3)
SECS = ((2850.0, 1.94e7), (5380.0, 8.36e7), (900.0, 1.5e6))

# nodes, elements (n1, n2, section, kind, hinges or joint stiffness), supports (node, dofs), loads
MODELS = {
    "cantilever": dict(nodes=[(0, 0), (3000, 0), (3000, 4000)], els=[(0, 1, 0, "beam", "none"), (1, 2, 1, "beam", "none")],
                       supp=[(0, [0, 1, 2])], lines=[0, 1], points=[2]),
    "portal": dict(nodes=[(0, 0), (0, 4000), (6000, 4000), (6000, 0)],
                   els=[(0, 1, 1, "beam", "none"), (1, 2, 0, "beam", "none"), (3, 2, 1, "beam", "none")],
                   supp=[(0, [0, 1, 2]), (3, [0, 1])], lines=[1], points=[1, 2]),
    "hinged portal": dict(nodes=[(0, 0), (0, 4000), (6000, 4000), (6000, 0)],
                          els=[(0, 1, 1, "beam", "none"), (1, 2, 0, "beam", "both"), (2, 3, 1, "beam", "none")],
                          supp=[(0, [0, 1, 2]), (3, [0, 1, 2])], lines=[1, 2], points=[1]),
    "pitched": dict(nodes=[(0, 0), (3000, 4000), (6000, 0), (6000, -5000)],
                    els=[(0, 1, 0, "beam", "end"), (1, 2, 2, "beam", "none"), (2, 3, 1, "beam", "none")],
                    supp=[(0, [0, 1]), (3, [0, 1, 2])], lines=[0, 1], points=[1, 2]),
    "semi-rigid": dict(nodes=[(0, 0), (0, 4000), (6000, 4000), (6000, 0)],
                       els=[(0, 1, 1, "beam", "none"), (1, 2, 0, "semi", (2e9, 1e10)), (3, 2, 1, "semi", (np.inf, 0.0))],
                       supp=[(0, [0, 1, 2]), (3, [0, 1, 2])], lines=[1, 2], points=[1, 2]),
    "truss": dict(nodes=[(0, 0), (3000, 0), (6000, 0), (3000, 4000)],
                  els=[(0, 1, 0, "rod", None), (1, 2, 0, "rod", None), (0, 3, 1, "rod", None), (3, 2, 1, "rod", None),
                       (1, 3, 2, "rod", None)],
                  supp=[(0, [0, 1]), (2, [1])], lines=[], points=[1, 3]),
    "tied": dict(nodes=[(0, 0), (3000, 4000), (6000, 0)],
                 els=[(0, 1, 0, "beam", "none"), (1, 2, 0, "beam", "start"), (0, 2, 2, "rod", None)],
                 supp=[(0, [0, 1]), (2, [1])], lines=[0, 1], points=[1]),
    "springs": dict(nodes=[(0, 0), (4000, 0), (4000, -1000), (1000, 4000)],
                    els=[(0, 1, 0, "beam", "none"), (2, 1, 50.0, "spring", None), (3, 1, 1200.0, "spring", None)],
                    supp=[(0, [0, 1, 2]), (2, [0, 1]), (3, [0, 1])], lines=[0], points=[1]),
}


def frame(H, name, cases=(2,), E_=MATS[0]):
    m = MODELS[name]
    f = ff.FrameFEM()
    f.add_material(E_, NU, RHO)
    for x, y in m["nodes"]:
        f.add_node(float(x), float(y))
    for A, I in SECS:
        f.add_section(ff.BeamSection(A, I))
    for a, b, s, kind, opt in m["els"]:
        n = (f.nodes[a], f.nodes[b])
        if kind == "beam":
            e = EBBeam(*n, f.sections[s], f.materials[0])
        elif kind == "semi":
            e = EBSemiRigidBeam(*n, f.sections[s], f.materials[0], rot_stiff=list(opt))
        elif kind == "rod":
            e = Rod(*n, f.sections[s], f.materials[0])
        else:
            e = LinearSpring(*n, s)
        f.add_element(e)
        if kind == "beam" and REL[opt]:
            f.add_release(len(f.elements) - 1, REL[opt])
    for nid, dofs in m["supp"]:
        f.add_support(1, nid, dofs)
    for c in cases:
        f.add_loadcase(1, c)
    f.nodal_dofs()
    return f, m


def put_loads(H, f, m, sid, tag="", lo=-100.0, hi=100.0):
    """symbolic loads of one load case: [(element, dir, coords, q1, q2)], [(node, v)]"""
    lines, points = [], []
    for k, i in enumerate(m["lines"]):
        for dir_, coords in (("y", "global"), ("x", "local")) if k % 2 == 0 else (("x", "global"), ("y", "local")):
            q1, q2 = H.real(f"q1_{i}{dir_}{tag}", lo, hi), H.real(f"q2_{i}{dir_}{tag}", lo, hi)
            f.add_load(ff.LineLoad(sid, f.elements[i], [0, 1], [q1, q2], dir_, coords=coords))
            lines.append((i, dir_, coords, q1, q2))
    for i in m["points"]:
        v = [H.real(f"P{i}{c}{tag}", 100 * lo, 100 * hi) for c in "xy"] + [H.real(f"M{i}{tag}", 1e5 * lo, 1e5 * hi)]
        if all(k in ("rod", "spring") for a, b, s, k, o in m["els"] if i in (a, b)):
            v[2] = 0.0
        f.add_load(ff.PointLoad(sid, f.nodes[i], v, 1.0))
        points.append((i, v))
    return lines, points


def direction(m, e):
    a, b = m["nodes"][e[0]], m["nodes"][e[1]]
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = (dx * dx + dy * dy) ** 0.5
    return (dx / L, dy / L), L


def solved(H, tag, f, m, lines, points, lc, E_=MATS[0]):
    """the displacements and end forces of load case lc solve the frame"""
    n = len(m["nodes"])
    U = [[f.nodes[i].u[lc][j] for j in range(3)] for i in range(n)]
    fixed = {(i, j) for i, d in m["supp"] for j in d}
    for i, j in fixed:
        H.eq(f"{tag} support {i}{j}", U[i][j], 0.0)
    R = [[0.0, 0.0, 0.0] for _ in range(n)]
    size = 1e5        # the loads reach 100 N/mm on some metres
    for k, e in enumerate(m["els"]):
        d, L = direction(m, e)
        el = f.elements[k]
        a, b, s, kind, opt = e
        u = rot(d, U[a] + U[b])
        if kind in ("rod", "spring"):
            kk = E_ * SECS[s][0] / L if kind == "rod" else s
            N = kk * (u[3] - u[0])
            for j in range(2):
                H.eq(f"{tag} axial force {k}{j}", el.fint[lc]["fx"][j], N, scale=size)
            Q = unrot(d, (-N, 0.0, 0.0, N, 0.0, 0.0))
        else:
            q = [0.0] * 4
            for i, dir_, coords, q1, q2 in lines:
                if i == k:
                    q = [x + y for x, y in zip(q, comps(d, dir_, coords, q1, q2))]
            kj = KREL[opt] if kind == "beam" else tuple(None if o == np.inf else (HINGE if o == 0 else o) for o in opt)
            Q = beam_forces(E_ * SECS[s][0], E_ * SECS[s][1], L, u, kj, clamped(L, *q))
            fi = el.fint[lc]
            for nm, val, sc in (("fx", (-Q[0], Q[3]), 1), ("fz", (Q[1], -Q[4]), 1), ("my", (-Q[2], Q[5]), 6000)):
                for j in range(2):
                    H.eq(f"{tag} {nm} {k}{j}", fi[nm][j], val[j], scale=size * sc)
            Q = unrot(d, Q)
        for j in range(3):
            R[a][j] = R[a][j] + Q[j]
            R[b][j] = R[b][j] + Q[3 + j]
    P = {i: v for i, v in points}
    for i in range(n):
        for j in range(3):
            if (i, j) not in fixed:
                H.eq(f"{tag} equilibrium {i}{j}", R[i][j], P.get(i, [0.0] * 3)[j], scale=size * (6000 if j == 2 else 1))


@job("F03", params=[dict(name=n, method=s) for n in MODELS for s in ("ZERO", "REM")],
     bounds="8 frames and trusses of given sizes and stiffness, all line loads in [-100,100] N/mm, point loads in [-1e4,1e4] N and [-1e7,1e7] Nmm")
def statics(H, name, method):
    f, m = frame(H, name)
    lines, points = put_loads(H, f, m, 2)
    f.linear_statics(2, support_method=method)
    solved(H, "", f, m, lines, points, 2)


@job("F03", params=[dict(name=n) for n in ("portal", "truss", "springs")], bounds="as statics, timber stiffness, load factors in [-2,2]")
def factored_statics(H, name):
    f, m = frame(H, name, E_=MATS[1])
    lines, points = put_loads(H, f, m, 2)
    k = H.choice("k", [-2.0, 0.5, 2.0])
    for ld in f.loads:
        ld.f = k
    f.linear_statics(2, support_method="REM")
    lines = [(i, d, c, k * a, k * b) for i, d, c, a, b in lines]
    solved(H, "", f, m, lines, [(i, [k * c for c in v]) for i, v in points], 2, E_=MATS[1])


@job("F03", bounds="space frame of two members, loads in all directions: equilibrium of the whole", params=[dict(method=s) for s in ("ZERO", "REM")])
def space_statics(H, method):
    f = ff.FrameFEM()
    f.add_material(E, NU, RHO)
    X = [(0.0, 0.0, 0.0), (0.0, 0.0, 3000.0), (2000.0, 3000.0, 3000.0)]
    # 2000, 3000, 0 has no whole length: turn the beam into one that has
    X[2] = (3000.0, 4000.0, 3000.0)
    for x in X:
        f.add_node(*x)
    s = Sect(5380.0, 8.36e7, 6.0e6, 2e5)
    for a, b in ((0, 1), (1, 2)):
        f.add_element(EBBeam3D(f.nodes[a], f.nodes[b], s, f.materials[0]))
    f.add_support(1, 0, [0, 1, 2, 3, 4, 5])
    q = [[H.real(f"q{i}{a}", -100.0, 100.0) for i in (1, 2)] for a in "xyz"]
    for a, (q1, q2) in zip("xyz", q):
        f.add_load(ff.LineLoad(2, f.elements[1], [0, 1], [q1, q2], a))
    v = [H.real(f"P{i}", -1e4, 1e4) for i in range(3)] + [H.real(f"M{i}", -1e7, 1e7) for i in range(3)]
    f.add_load(ff.PointLoad(2, f.nodes[2], v, 1.0))
    f.add_loadcase(1, 2)
    f.nodal_dofs()
    f.linear_statics(2, support_method=method)
    H.eqs("support", f.nodes[0].u[2], [0.0] * 6)
    size = 1e5
    # moments and forces in the member of height h about the base
    W = [5000 * (q1 + q2) / 2 for q1, q2 in q]
    # the resultant of a linear load acts at (q1 + 2 q2)/3(q1+q2)
    S = [(q1 / 6 + q2 / 3) * 5000 for q1, q2 in q]   # first moment as a share of the length
    F = [W[i] + v[i] for i in range(3)]
    d = (3000.0, 4000.0, 0.0)

    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    Mtop = [x + y + z for x, y, z in zip(cross(d, v[:3]), v[3:], cross(d, S))]
    f1 = f.elements[0].fint[2]
    T = f.elements[0].direction_cosines()
    loc = [sum(T[i][c] * F[c] for c in range(3)) for i in range(3)]
    mloc = [sum(T[i][c] * Mtop[c] for c in range(3)) for i in range(3)]
    H.eq("axial force", f1["fx"][1], loc[0], scale=size)
    H.eq("shear y", f1["fy"][1], loc[1], scale=size)
    H.eq("shear z", f1["fz"][1], -loc[2], scale=size)
    H.eq("torsion", f1["mx"][1], mloc[0], scale=size * 6000)
    H.eq("moment y", f1["my"][1], mloc[1], scale=size * 6000)
    H.eq("moment z", f1["mz"][1], -mloc[2], scale=size * 6000)
    H.eq("axial force below", f1["fx"][0], loc[0], scale=size)


@job("F03", bounds="continuous beam with pinned supports: the buckling problem is that of the loaded frame, its modes go to their nodes")
def buckling_problem(H):
    f = ff.FrameFEM()
    f.add_material(E, NU, RHO)
    for i in range(3):
        f.add_node(3000.0 * i, 0.0)
    f.add_section(ff.BeamSection(*SECS[0]))
    for a, b in ((0, 1), (1, 2)):
        f.add_element(EBBeam(f.nodes[a], f.nodes[b], f.sections[0], f.materials[0]))
    f.add_support(1, 0, [0, 1])
    f.add_support(1, 1, [1])
    f.add_support(1, 2, [1])
    P = H.real("P", 10.0, 1e6)
    f.add_load(ff.PointLoad(2, f.nodes[2], [-P, 0, 0], 1.0))
    f.add_loadcase(1, 2)
    f.nodal_dofs()
    modes = [[H.real(f"v{i}{j}", -1.0, 1.0) for j in range(2)] for i in range(5)]
    seen = []

    def solver(K, k=None, M=None, **kw):
        seen.append((K, M))
        return np.array([1.5, 2.5]), np.array(modes)
    old = ff.eigsh
    ff.eigsh = solver
    try:
        for again in range(2):
            w, v, KG = f.linear_buckling(2, k=2)
            K, M = seen[-1]
            # free: turn at 0, x and turn at 1, x and turn at 2
            H.same("size", (K.shape, M.shape), ((5, 5), (5, 5)))
            EI, L = E * SECS[0][1], 3000.0
            free = [("r", 0), ("u", 1), ("r", 1), ("u", 2), ("r", 2)]
            for a in range(5):
                for b in range(5):
                    (ka, ia), (kb, ib) = free[a], free[b]
                    k0 = m0 = 0.0
                    for el in (0, 1):
                        if ka == kb == "r" and {ia, ib} <= {el, el + 1}:
                            k0 += (4 if ia == ib else 2) * EI / L
                            m0 = m0 + P * L / 30 * (4 if ia == ib else -1)
                        if ka == kb == "u" and {ia, ib} <= {el, el + 1}:
                            k0 += (1 if ia == ib else -1) * E * SECS[0][0] / L
                    H.eq(f"K {a}{b}", K[a, b], k0, scale=EI / L)
                    H.eq(f"KG {a}{b}", M[a, b], m0, scale=P * L)
            for j in range(2):
                got = [list(n.v[j]) for n in f.nodes]
                ref = [[0.0, 0.0, modes[0][j]], [modes[1][j], 0.0, modes[2][j]], [modes[3][j], 0.0, modes[4][j]]]
                H.eqs(f"mode {j}", got, ref)
            H.same("factors", list(f.load_factors), [1.5, 2.5])
    finally:
        ff.eigsh = old


@job("F03", bounds="simply supported continuous beam of four spans fixed against axial movement: modes go to their nodes")
def buckling_modes_order(H):
    f = ff.FrameFEM()
    f.add_material(E, NU, RHO)
    n = 5
    for i in range(n):
        f.add_node(3000.0 * i, 0.0)
    f.add_section(ff.BeamSection(*SECS[0]))
    for a in range(n - 1):
        f.add_element(EBBeam(f.nodes[a], f.nodes[a + 1], f.sections[0], f.materials[0]))
    for i in range(n):
        f.add_support(1, i, [0, 1] if i not in (1, 3) else [0, 1, 2])
    f.add_load(ff.PointLoad(2, f.nodes[2], [0, 0, 1e6], 1.0))
    f.add_loadcase(1, 2)
    f.nodal_dofs()
    modes = [[H.real(f"v{i}", -1.0, 1.0)] for i in range(3)]
    old = ff.eigsh
    ff.eigsh = lambda K, **kw: (np.array([1.5]), np.array(modes))
    try:
        f.linear_buckling(2, k=1)
    finally:
        ff.eigsh = old
    for k, i in enumerate((0, 2, 4)):
        H.eqs(f"node {i}", f.nodes[i].v[0], [0.0, 0.0, modes[k][0]])


# ---------------------------------------------------------------------------
# F04 independence of load cases and of earlier analyses
# ---------------------------------------------------------------------------
def results(f, lc):
    out = [x for n in f.nodes for x in n.u[lc]]
    for e in f.elements:
        out += [x for k in ("fx", "fz", "my") for x in e.fint[lc][k]]
    return out


def same_results(H, label, f, a, b):
    H.same(label + " length", len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        H.eq(f"{label} {i}", x, y, scale=1e5 if i >= 3 * len(f.nodes) else 10.0)


@job("F04", params=[dict(name=n, method=s) for n in MODELS for s in ("ZERO", "REM")],
     bounds="three load cases with loads as in F03, analysed one by one and together in several orders")
def cases_apart(H, name, method):
    cases = (2, 7, 11)
    f, m = frame(H, name, cases)
    ld = {c: put_loads(H, f, m, c, f"_{c}") for c in cases}
    ref = {}
    for c in cases:
        f.linear_statics(c, support_method=method)
        ref[c] = results(f, c)
        solved(H, f"case {c}", f, m, *ld[c], c)
        for b in ref:
            same_results(H, f"case {b} after {c}", f, results(f, b), ref[b])
    for order in ([7, 2, 11], [11, 7], [2, 11, 7]):
        for c in cases:
            for n in f.nodes:
                n.u[c] = np.zeros(3)
        f.linear_statics(list(order), support_method=method)
        for c in order:
            same_results(H, f"{c} together in {order}", f, results(f, c), ref[c])


@job("F04", params=[dict(name=n) for n in ("portal", "pitched", "hinged portal")],
     bounds="an analysis after loads, releases or sections changed equals that of a fresh model, loads as in F03")
def repeated(H, name):
    f, m = frame(H, name)
    lines, points = put_loads(H, f, m, 2, "a")
    f.linear_statics(2, support_method="REM")
    solved(H, "first", f, m, lines, points, 2)
    # other loads
    f.loads.clear()
    lines, points = put_loads(H, f, m, 2, "b")
    f.linear_statics(2, support_method="REM")
    solved(H, "new loads", f, m, lines, points, 2)
    # no line loads any more
    f.loads[:] = [l for l in f.loads if isinstance(l, ff.PointLoad)]
    f.linear_statics(2, support_method="REM")
    solved(H, "line loads removed", f, m, [], points, 2)
    # another section and back
    old = [e.section for e in f.elements]
    for e in f.elements:
        e.section = ff.BeamSection(7000.0, 1e8)
    f.linear_statics(2, support_method="REM")
    for e, s in zip(f.elements, old):
        e.section = s
    f.linear_statics(2, support_method="REM")
    solved(H, "section and back", f, m, [], points, 2)
    # hinges moved
    m2 = dict(m)
    els = list(m["els"])
    for k, (a, b, s, kind, opt) in enumerate(els):
        new = {"none": "none", "both": "start", "end": "none", "start": "end"}[opt]
        els[k] = (a, b, s, kind, new)
        f.elements[k].releases = REL[new]
    m2["els"] = els
    f.loads.clear()
    lines, points = put_loads(H, f, m2, 2, "c")
    f.linear_statics(2, support_method="REM")
    solved(H, "hinges moved", f, m2, lines, points, 2)


@job("F04", params=[dict(name=n) for n in MODELS], bounds="both ways of taking the supports give the same result, loads as in F03")
def support_methods(H, name):
    f, m = frame(H, name)
    g, _ = frame(H, name)
    lines, points = put_loads(H, f, m, 2)
    for ld in f.loads:
        if isinstance(ld, ff.PointLoad):
            g.add_load(ff.PointLoad(2, g.nodes[f.nodes.index(ld.node)], ld.v, 1.0))
        else:
            g.add_load(ff.LineLoad(2, g.elements[f.elements.index(ld.elem)], [0, 1], ld.qval, ld.dir, coords=ld.coords))
    f.linear_statics(2, support_method="ZERO")
    g.linear_statics(2, support_method="REM")
    same_results(H, "result", f, results(f, 2), results(g, 2))
