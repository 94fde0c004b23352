"""EN 1993-1-8 chapter 7: joints of rectangular hollow sections (E06)."""
import math

import numpy as np

from symx.registry import job
from metku.sections.steel.RHS import RHS
from metku.structures.steel.steel_member import SteelMember
import metku.eurocodes.en1993.en1993_1_8.rhs_joints as rj
from harness.ec3_member import mx, mn

E = 210e3
RED = {235: 1.0, 355: 1.0, 420: 0.9, 700: 0.8}
CHORDS = [(100.0, 100.0, 5.0), (140.0, 80.0, 8.0), (200.0, 300.0, 6.0), (250.0, 250.0, 12.5)]


def chord(i, fy=355):
    h, b, t = CHORDS[i]
    return RHS(h, b, t, fy=fy)


def sin(a):
    return np.sin(np.radians(a))


def stress_factor(j, N0, M0, beta):
    p = j.chord.profile
    n = (-N0 / p.A + M0 / p.Wel[0]) / j.fy0
    if n <= 0:
        return 1.0
    return mn(1.3 - 0.4 * n / beta, 1.0)


def kjoint(H, ci, fy=355, angle=True, loads=False):
    c = chord(ci, fy)
    B = c.B
    br = []
    for i in range(2):
        h, b = H.real(f"h{i}", 20.0, 1.0 * B), H.real(f"b{i}", 20.0, 1.0 * B)
        t = H.choice(f"t{i}", [3.0, 8.0])
        H.assume((h >= 5 * t) & (b >= 5 * t))
        br.append(RHS(h, b, t, fy=fy))
    ang = [H.angle(f"a{i}", 30.0, 90.0, "deg") if angle else 45.0 for i in range(2)]
    kw = {}
    if loads:
        kw = dict(N0=H.real("N0", -1e6, 1e6), M0=H.real("M0", -2e7, 2e7))
    return rj.RHSKGapJoint(c, br, ang, gap=H.real("gap", 5.0, 200.0) if angle != "fixed" else 30.0, **kw), ang, br


@job("E06", params=[dict(c=i) for i in range(4)],
     bounds="four chords, braces 20..B wide and high, wall 3 or 8 mm, angles 30..90 deg, gap 5..200 mm, chord force +-1 MN, moment +-20 kNm")
def k_face(H, c):
    j, ang, br = kjoint(H, c, loads=True)
    p = j.chord.profile
    beta = (br[0].B + br[1].B + br[0].H + br[1].H) / (4 * p.B)
    H.eq("beta", j.beta(), beta)
    H.eq("gamma", j.gamma(), p.B / (2 * p.T))
    kn = j.eval_KN()
    H.eq("kn", kn, stress_factor(j, j.N0, j.M0, beta), abs_=1e-7)
    H.le("kn at most one", kn, 1.0)
    r = j.chord_face_failure()
    H.same("two braces", len(r), 2)
    for i in range(2):
        H.eq(f"chord face {i}", r[i] * sin(ang[i]), 8.9 * kn * 355 * p.T ** 2 * math.sqrt(p.B / (2 * p.T)) * beta, abs_=1.0)
    s = [sin(a) for a in ang]
    s12 = s[0] * np.cos(np.radians(ang[1])) + s[1] * np.cos(np.radians(ang[0]))
    # both braces at right angles never meet
    H.assume(s12 >= 0.01)
    e = j.eccentricity()
    H.eq("eccentricity", (e + 0.5 * p.H) * s12, 0.5 * br[0].H * s[1] + 0.5 * br[1].H * s[0] + j.gap * s[0] * s[1], rel=1e-5, abs_=1e-4)
    H.eq("eccentricity from dimensions", rj.eccentricity(p.H, br[0].H, br[1].H, ang[0], ang[1], j.gap), e, rel=1e-5, abs_=1e-4)


@job("E06", params=[dict(c=i) for i in range(4)],
     bounds="as k_face; plates 0..1000 mm long, 0..400 mm wide, 0..30 mm thick")
def k_plate(H, c):
    j, ang, br = kjoint(H, c)
    l, b, t = H.real("lp", 0.0, 1000.0), H.real("bp", 0.0, 400.0), H.real("tp", 0.0, 30.0)
    j.add_chord_face_plate(l, b, t)
    q = j.chord_face_plate
    p = j.chord.profile
    lm = 1.5 * (br[0].H / sin(ang[0]) + br[1].H / sin(ang[1]) + j.gap)
    H.eq("length", q["lp"], mx(l, lm))
    H.eq("width", q["bp"], mx(b, p.B - 2 * p.T))
    H.eq("thickness", q["tp"], mx(t, 2 * mx(br[0].T, br[1].T)))


@job("E06", params=[dict(c=i, fy=f) for i in range(4) for f in (355, 420, 700)],
     bounds="as k_face, three grades, without chord stress")
def k_brace(H, c, fy):
    j, ang, br = kjoint(H, c, fy)
    p = j.chord.profile
    red = RED[fy]
    H.eq("reduction for high strength", j.strength_reduction(), red)
    bf, ps = j.brace_failure(), j.punching_shear()
    for i in range(2):
        q = br[i]
        beff = q.B * mn(10 * p.T / p.B * p.T / q.T, 1.0)
        bep = q.B * mn(10 * p.T / p.B, 1.0)
        s = sin(ang[i])
        H.eq(f"brace failure {i}", bf[i], red * fy * q.T * (2 * q.H - 4 * q.T + q.B + beff))
        H.eq(f"punching shear {i}", ps[i] * s * s * math.sqrt(3), red * fy * p.T * (2 * q.H + (q.B + bep) * s))
        H.le(f"brace failure below the brace resistance {i}", bf[i], fy * 2 * q.T * (q.H + q.B) * 1.01)
    if fy == 355:
        z = rj.RHSKGapJoint(j.chord, j.braces, ang, gap=j.gap)
        z.r = 0.5
        H.eq("given reduction", z.brace_failure()[0] * 2, bf[0])


@job("E06", params=[dict(c=i) for i in range(4)], bounds="angles 30..90 deg, gap 5..200 mm, brace force up to 1 MN of either sign")
def k_shear(H, c):
    p = chord(c)
    A, B = RHS(60.0, 60.0, 4.0), RHS(50.0, 70.0, 5.0)
    first = H.flag("first_compressed")
    n1, n2 = H.real("N1", 1.0, 1e6), H.real("N2", 1.0, 1e6)
    A.Ned, B.Ned = (-n1, n2) if first else (n2, -n1)
    ang = [H.angle("a0", 30.0, 90.0, "deg"), H.angle("a1", 30.0, 90.0, "deg")]
    N0 = H.real("N0", -1e6, 1e6)
    j = rj.RHSKGapJoint(p, [A, B], ang, gap=H.choice("gap", [8.0, 35.0, 150.0]), N0=N0)
    k, m = (0, 1) if first else (1, 0)
    H.eq("compressed brace", j.N1, n1)
    H.eq("tension brace", j.N2, n2)
    H.same("angle of compressed brace", j.angle1 is ang[k], True)
    H.same("angle of tension brace", j.angle2 is ang[m], True)
    V = j.V0gap
    H.eq("shear in the gap", V, n1 * sin(ang[k]))
    if N0 < 0:
        H.eq("axial force in the gap", j.N0gap, N0 + n2 * np.cos(np.radians(ang[m])), abs_=1e-3)
    else:
        H.eq("axial force in the gap", j.N0gap, N0 + n1 * np.cos(np.radians(ang[k])), abs_=1e-3)
    al = math.sqrt(1 / (1 + 4 * j.gap ** 2 / (3 * p.T ** 2)))
    Av = (2 * p.H + al * p.B) * p.T
    Ni, N0Rd = j.chord_shear()
    for i in range(2):
        H.eq(f"chord shear {i}", Ni[i] * sin(ang[i]), 355 * Av / math.sqrt(3))
    Vpl = p.VRd
    if V > Vpl:
        H.eq("no shear capacity left", N0Rd, 0.0)
    else:
        x = N0Rd / 355 - (p.A - Av)
        H.eq("chord in the gap", x * x * Vpl * Vpl, Av * Av * (Vpl * Vpl - V * V), scale=Av * Av * Vpl * Vpl)
        H.ge("sign", x, 0.0, abs_=1e-6)
        H.le("not above the plastic force", N0Rd, 355 * p.A)


@job("E06", params=[dict(c=i, w=w) for i in range(4) for w in (0.4, 0.9, 1.0)], bounds="brace forces up to 1 MN, chord force -0.8..1 of its plastic force, brace widths 0.4, 0.9 and 1.0 of the chord")
def k_design(H, c, w):
    """the utilisation of each brace is its force over the smallest of its resistances"""
    p = chord(c)
    A, B = RHS(w * p.B, w * p.B, 5.0), RHS(0.8 * w * p.B, w * p.B, 5.0)
    n1 = H.real("N1", 1.0, 1e6)
    n2 = H.real("N2", 1.0, 1e6)
    A.Ned, B.Ned = -n1, n2
    ang = [45.0, 60.0]
    N0 = H.real("n0", -0.8, 1.0) * p.A * 355
    j = rj.RHSKGapJoint(p, [A, B], ang, gap=40.0, N0=N0)
    u = j.design()
    cf, bf, ps = j.chord_face_failure(), j.brace_failure(), j.punching_shear()
    cs, N0Rd = j.chord_shear()
    for i, n in ((0, n1), (1, n2)):
        R = mn(mn(cf[i], bf[i]), cs[i])
        if j.beta() <= 1 - 1 / j.gamma():
            R = mn(R, ps[i])
        H.eq(f"brace {i}", u[i] * R, n)
    H.same("three ratios", len(u), 3)
    if j.V0gap < p.VRd * (1 - 1e-6):
        H.eq("chord", u[2] * N0Rd, mx(N0, -N0), rel=1e-5)


# ------------------------------------------------------------------ T, Y and X joints
def yjoint(H, c, cls, fy=355, N=None, wide=True, loads=True):
    p = chord(c, fy)
    w = H.real("w", 0.25, 1.0 if wide else 0.84)
    b = w * p.B
    h = H.real("h", 0.3, 1.2) * p.H
    q = RHS(h, b, H.choice("t", [3.0, 6.0]), fy=fy)
    q.Ned = H.real("N1", -1e6, 1e6) if N is None else N
    a = H.angle("a", 30.0, 90.0, "deg")
    kw = dict(N0=H.real("N0", -1e6, 1e6), M0=H.choice("M0", [0.0, 1e7, -1e7])) if loads else {}
    return getattr(rj, cls)(p, q, a, **kw), p, q, a, w


@job("E06", params=[dict(c=i, cls=k) for i in range(4) for k in ("RHSYJoint", "RHSXJoint")],
     bounds="brace width 0.25..0.84 of the chord, height 0.3..1.2, angle 30..90 deg, chord force +-1 MN and three moments")
def y_face(H, c, cls):
    j, p, q, a, w = yjoint(H, c, cls, wide=False, N=-5e4)
    s = sin(a)
    H.eq("beta", j.beta(), w)
    kn = j.eval_KN()
    H.eq("kn", kn, stress_factor(j, j.N0, j.M0, w), abs_=1e-7)
    R = j.chord_face_failure()
    x = (1 - w) ** 0.5
    H.eq("chord face", R * (1 - w) * s * s, kn * 355 * p.T ** 2 * (2 * q.H / p.B + 4 * x * s), rel=1e-5, abs_=1.0)


@job("E06", params=[dict(c=i, fy=f) for i in range(4) for f in (355, 420, 700)],
     bounds="brace width 0.25..1 of the chord, height 0.3..1.2, angle 30..90 deg")
def y_brace(H, c, fy):
    j, p, q, a, w = yjoint(H, c, "RHSYJoint", fy=fy, N=5e4, loads=False)
    s = sin(a)
    red = RED[fy]
    beff = q.B * mn(10 * p.T / p.B * p.T / q.T, 1.0)
    bep = q.B * mn(10 * p.T / p.B, 1.0)
    H.eq("brace failure", j.brace_failure(), red * fy * q.T * (2 * q.H - 4 * q.T + 2 * beff))
    H.eq("punching shear", j.punching_shear() * s * s * math.sqrt(3), red * fy * p.T * (2 * q.H + 2 * bep * s))
    H.eq("tension: full strength of the side walls", j.fb(), float(fy))
    H.eq("side walls", j.chord_web_buckling() * s * s, red * fy * p.T * (2 * q.H + 10 * p.T * s))


@job("E06", params=[dict(c=i, cls=k, fy=f) for i in range(4) for k in ("RHSYJoint", "RHSXJoint") for f in (355, 700)],
     bounds="compressed brace of full width, height 0.3..1.2 of the chord, angles 35, 50, 75, 90 deg, chord force +-1 MN")
def y_side(H, c, cls, fy):
    p = chord(c, fy)
    h = H.real("h", 0.3, 1.2) * p.H
    q = RHS(h, p.B, 6.0, fy=fy)
    q.Ned = -H.real("N1", 1.0, 1e6)
    a = H.choice("a", [35.0, 50.0, 75.0, 90.0])
    j = getattr(rj, cls)(p, q, a, N0=H.real("N0", -1e6, 1e6))
    s = math.sin(math.radians(a))
    lam = 3.46 * (p.H / p.T - 2) * math.sqrt(1 / s) / (math.pi * math.sqrt(E / fy))
    phi = 0.5 * (1 + p.imp_factor[0] * (lam - 0.2) + lam ** 2)
    chi = min(1.0, 1 / (phi + math.sqrt(phi ** 2 - lam ** 2)))
    fb = chi * fy if cls == "RHSYJoint" else 0.8 * chi * fy * s
    H.eq("buckling stress", j.fb(), fb)
    R = RED[fy] * j.eval_KN() * fb * p.T / s * (2 * h / s + 10 * p.T)
    if cls == "RHSXJoint" and math.cos(math.radians(a)) * p.H > h:
        R = mn(R, RED[fy] * p.VRd / s)
    H.eq("side wall buckling", j.chord_web_buckling(), R, abs_=1e-3)


@job("E06", params=[dict(c=i, cls=k) for i in range(4) for k in ("RHSYJoint", "RHSXJoint")],
     bounds="brace width 0.25..1 of the chord, brace force +-1 MN, chord force 0, -0.2 and 0.3 MN, 60 deg")
def y_design(H, c, cls):
    p = chord(c)
    w = H.real("w", 0.25, 1.0)
    q = RHS(0.9 * p.H, w * p.B, 5.0)
    N1 = H.real("N1", -1e6, 1e6)
    q.Ned = N1
    J = getattr(rj, cls)
    j = J(p, q, 60.0, N0=H.choice("N0", [0.0, -2e5, 3e5]))
    u = j.design()
    H.eq("brace force with sign", j.N1, N1)
    F = j.chord_face_failure()
    if w < 0.85:
        H.eq("narrow brace", u * F, mx(N1, -N1))
        return
    s = math.sin(math.radians(60.0))
    face = j.eval_KN() * 355 * p.T ** 2 / (0.15 * s) * (2 * q.H / p.B / s + 4 * math.sqrt(0.15))
    R = face + (w - 0.85) / 0.15 * (j.chord_web_buckling() - face)
    R = mn(R, j.brace_failure())
    if w <= 1 - 2 * p.T / p.B:
        R = mn(R, j.punching_shear())
    H.eq("wide brace", u * R, mx(N1, -N1), rel=1e-5)


# ------------------------------------------------------------------ lines
@job("E06", bounds="points with coordinates in [-1e4,1e4], four directions")
def lines(H):
    v, u = H.choice("dirs", [((1.0, 0.0), (0.0, 1.0)), ((0.6, 0.8), (1.0, 0.0)), ((0.8, -0.6), (0.6, 0.8)), ((0.28, 0.96), (0.8, 0.6))])
    p = [H.real("px", -1e4, 1e4), H.real("py", -1e4, 1e4)]
    r = [H.real("rx", -1e4, 1e4), H.real("ry", -1e4, 1e4)]
    a, b = rj.Line(p1=p, v=v), rj.Line(p1=r, v=u)
    t, x = a.intersect(b)
    # on both lines
    H.eq("on the first line", (x[0] - p[0]) * v[1], (x[1] - p[1]) * v[0], abs_=1e-6)
    H.eq("on the second line", (x[0] - r[0]) * u[1], (x[1] - r[1]) * u[0], abs_=1e-6)
    H.eqs("parameter", list(a(t[0])), list(x), abs_=1e-6)
    H.eqs("parameter of the second", list(b(t[1])), list(x), abs_=1e-6)
    q = [H.real("qx", -1e4, 1e4), H.real("qy", -1e4, 1e4)]
    d, c = a.distance(np.array(q))
    H.eq("foot on the line", (c[0] - p[0]) * v[1], (c[1] - p[1]) * v[0], abs_=1e-6)
    H.eq("foot is perpendicular", (c[0] - q[0]) * v[0] + (c[1] - q[1]) * v[1], 0.0, abs_=1e-6)
    n = (q[0] - p[0]) * v[1] - (q[1] - p[1]) * v[0]
    H.eq("distance", d * d, n * n, abs_=1e-6)
    H.ge("distance sign", d, 0.0)
    e = rj.Line(p1=[1.0, 2.0], p2=[1.0 + 5 * v[0], 2.0 + 5 * v[1]])
    H.eqs("unit direction", list(e.v), list(v))
