"""Steel members: critical loads, buckling resistances (E02), member design (M01)."""
from math import pi

from symx.registry import job
import metku.sections.steel.steel_section as ss
from metku.structures.steel.steel_member import SteelMember
import metku.eurocodes.en1993.en1993_1_1 as ec
from harness.sections import sized, SIZES, sizes
from metku.sections.steel.wi import WISection
from harness.ec3_member import mx, mn

E, G = 210e3, 81e3
CURVES = (0.13, 0.21, 0.34, 0.49, 0.76)


class Sec(ss.SteelSection):
    """a section without shape"""
    def flange_class(self, verb=False):
        return 1
    web_class_bend = web_class_comp = flange_class

    def web_class_comp_bend(self, Ned, verb=False):
        return 1


def gen_section(H, fy=355, light=False):
    """a section known only by its properties"""
    A = H.real("A", 100.0, 1e5)
    I = [H.real("Iy", 1e4, 1e10), H.real("Iz", 1e4, 1e10)]
    W = [H.real("Wy", 1e3, 1e8), 1e5]
    s = Sec(fy, A, I, 1000.0, W, W, Ashear=1000.0)
    s.It = H.real("It", 1e2, 1e9)
    s.Iw = H.real("Iw", 0.0, 1e14)
    return s


def ayrton(H, label, chi, lam2, lam, a, l0=0.2, beta=1.0):
    """chi of a buckling curve: (1-chi)(1-chi beta l^2) = eta chi beyond the plateau"""
    H.check(label + " positive", chi > 0)
    H.le(label + " at most one", chi, 1.0)
    if lam <= l0:
        H.eq(label + " plateau", chi, 1.0)
    else:
        H.le(label + " below the elastic critical load", chi * lam2 * beta, 1.0)
        H.eq(label + " curve", (1 - chi) * (1 - chi * beta * lam2), chi * a * (lam - l0), abs_=1e-7)


@job("E02", bounds="A in [100,1e5], I in [1e4,1e10], L in [100,50000], Lcr factors in [0.3,3]")
def euler(H):
    s = gen_section(H)
    L = H.real("L", 100.0, 50000.0)
    k = [H.real("ky", 0.3, 3.0), H.real("kz", 0.3, 3.0)]
    m = SteelMember(s, L, Lcr=k)
    n = m.ncrit()
    lam = m.slenderness()
    for i in range(2):
        H.eq(f"Euler load {i}", n[i] * (k[i] * L) * (k[i] * L), pi * pi * E * s.I[i])
        H.eq(f"slenderness {i}", lam[i] * lam[i] * n[i], s.A * 355)
        H.ge(f"slenderness sign {i}", lam[i], 0.0)
    H.eq("weight", m.weight(), s.A * 7850e-9 * L)
    H.eq("weight per length", m.weight_per_length(), s.A * 7850e-9)


@job("E02", params=[dict(a=a) for a in CURVES], bounds="A in [100,1e5], I in [1e4,1e10], L in [100,50000], grades 235..700")
def flexural(H, a):
    A = H.real("A", 100.0, 1e5)
    fy = H.choice("fy", [235, 355, 420, 700])
    I = [H.real("Iy", 1e4, 1e10), 1e7]
    s = Sec(fy, A, I, 1000.0, [1e5, 1e5], [1e5, 1e5], Ashear=1000.0)
    s.imp_factor = [a, 0.34]
    m = SteelMember(s, H.real("L", 100.0, 50000.0), Lcr=[1.0, 0.7])
    lam = m.slenderness()
    N = m.buckling_strength()
    H.same("two axes", len(N), 2)
    ayrton(H, "y", N[0] / (A * fy), lam[0] * lam[0], lam[0], a)
    H.eqs("NbRd", list(m.NbRd), N)


@job("E02", bounds="L in [100,50000] twice, I 1e5, 1e7 and 1e9 mm4, A 5000 mm2")
def longer_is_weaker(H):
    I = H.choice("I", [1e5, 1e7, 1e9])
    s = Sec(355, 5000.0, [I, I], 1000.0, [1e5, 1e5], [1e5, 1e5], Ashear=1000.0)
    s.imp_factor = [0.21, 0.49]
    L1 = H.real("L1", 100.0, 50000.0)
    L2 = H.real("L2", 100.0, 50000.0)
    H.assume(L1 <= L2)
    m1, m2 = SteelMember(s, L1), SteelMember(s, L2)
    n1, n2 = m1.ncrit(), m2.ncrit()
    H.ge("critical load", n1[0], n2[0])


@job("E02", bounds="section properties as in euler, L in [100,50000]")
def torsional(H):
    s = gen_section(H)
    L = H.real("L", 100.0, 50000.0)
    m = SteelMember(s, L)
    n = m.ncrit_T()
    H.eq("critical load", n * (s.I[0] + s.I[1]) * L * L, s.A * (s.G * s.It * L * L + pi * pi * E * s.Iw))
    lam = m.slenderness_torsional()
    H.eq("slenderness", lam * lam * n, s.A * 355)


@job("E02", bounds="It in [1e3,1e8], Iw in [0,1e13], L in [500,30000], curves of both axes")
def torsional_strength(H):
    a = H.choice("curve", CURVES)
    s = Sec(355, 5000.0, [1e8, 2e7], 1000.0, [1e5, 1e5], [1e5, 1e5], Ashear=1000.0)
    s.It = H.real("It", 1e3, 1e8)
    s.Iw = 1e11
    s.imp_factor = [0.13, a]
    m = SteelMember(s, H.real("L", 500.0, 30000.0))
    lam = m.slenderness_torsional()
    ayrton(H, "torsional", m.torsional_buckling_strength() / (5000.0 * 355), lam * lam, lam, a)


@job("E02", params=[dict(method=m) for m in ("specific", "general")],
     bounds="MRd in [1e5,1e10], Mcr in [1e5,1e12], MEd in [0,1e10], alpha 0.21..0.76")
def lateral_torsional(H, method):
    s = Sec(355, 5000.0, [1e8, 2e7], 1000.0, [1e5, 1e5], [1e5, 1e5], Ashear=1000.0)
    a = H.choice("alpha", CURVES[1:])
    s.imp_factor_LT_gen = a if method == "general" else 9.9
    s.imp_factor_LT = a if method == "specific" else 9.9
    m = SteelMember(s, 5000.0, LT_buckling=True)
    MRd = H.real("MRd", 1e5, 1e10)
    Mcr = H.real("Mcr", 1e5, 1e12)
    Med = H.real("MEd", -1e10, 1e10)
    m.add_section(myed=Med, loc=0)
    lam = m.LT_slenderness(Mcr, MRd=MRd)
    H.eq("slenderness", lam * lam * Mcr, MRd)
    H.ge("slenderness sign", lam, 0.0)
    chi = m.LT_buckling_strength(Mcr, method=method, MRd=MRd) / MRd
    l0, beta = (0.2, 1.0) if method == "general" else (0.4, 0.75)
    H.check("positive", chi > 0)
    H.le("at most one", chi, 1.0)
    if lam <= l0 or abs(Med) <= l0 * l0 * Mcr:
        H.eq("no reduction", chi, 1.0)
    else:
        H.le("below the critical moment", chi * MRd, Mcr)
        free = chi < 1 - 1e-6 and (method == "general" or chi * MRd < Mcr * (1 - 1e-6))
        lhs, rhs = (1 - chi) * (1 - chi * beta * lam * lam), chi * a * (lam - l0)
        if free:
            H.eq("curve", lhs, rhs, abs_=1e-7)
        else:
            H.ge("limited by the caps only", lhs, rhs, abs_=1e-5)


@job("E02", bounds="Iz, It, Iw, L, load position, C1 in [1,3], C2 in [0,2], kz, kw in [0.5,2]")
def critical_moment(H):
    s = gen_section(H)
    L = H.real("L", 500.0, 30000.0)
    C1, C2 = H.real("C1", 1.0, 3.0), H.real("C2", 0.0, 2.0)
    kz, kw = H.real("kz", 0.5, 2.0), H.real("kw", 0.5, 2.0)
    za = H.real("za", -500.0, 500.0)
    m = SteelMember(s, L)
    M = m.mcrit([C1, C2, 0.5], [kz, kw], za)
    P = C1 * pi * pi * E * s.I[1] / ((kz * L) * (kz * L))
    # M = P (sqrt(R + (C2 za)^2) - C2 za):  M^2 + 2 M P C2 za = P^2 R, M >= 0
    H.check("positive", M >= 0)
    R = (kz / kw) * (kz / kw) * s.Iw / s.I[1] + (kz * L) * (kz * L) * G * s.It / (pi * pi * E * s.I[1])
    x = M / P
    H.eq("Mcr", x * x + 2 * x * C2 * za, R)


@job("E02", params=[dict(k=k, C=C) for k in ((1.0, 1.0), (0.5, 1.0), (0.7, 0.5)) for C in ((1.12, 0.45, 0.525), (1.35, 0.59, 0.411), (1.0, 0.0, 1.0))],
     bounds="monosymmetric section, coordinates of the shear centre and of the load and asymmetry parameter in [-300,300]")
def critical_moment_mono(H, k, C):
    s = gen_section(H)
    s.zs = H.real("zs", -300.0, 300.0)
    s.zj = H.real("zj", -300.0, 300.0)
    za = H.real("za", -300.0, 300.0)
    L = H.real("L", 500.0, 30000.0)
    m = SteelMember(s, L, symmetry="mono")
    M = m.mcrit(list(C), list(k), za)
    kL = k[0] * L
    P = C[0] * pi * pi * E * s.I[1] / (kL * kL)
    R = (k[0] / k[1]) ** 2 * s.Iw / s.I[1] + kL * kL * G * s.It / (pi * pi * E * s.I[1])
    x = M / P
    d = C[1] * (za - s.zs) - C[2] * s.zj
    H.eq("Mcr", x * x + 2 * x * d, R)
    H.check("positive", M >= 0)


@job("E02", params=[dict(b=b) for b in ((300.0, 120.0), (120.0, 300.0), (200.0, 200.0))],
     bounds="welded 600x8 sections with 15 mm flanges of three pairs of widths, member 1-20 m, load anywhere within 500 mm of the centroid")
def critical_moment_welded(H, b):
    """a real welded section: load above the shear centre destabilises, equal flanges give the doubly symmetric value"""
    s = WISection(600.0, 8.0, list(b), [15.0, 15.0], 355)
    L = H.choice("L", [1000.0, 4000.0, 20000.0])
    za = H.real("za", -500.0, 500.0)
    m = SteelMember(s, L, symmetry="mono")
    M = m.mcrit([1.12, 0.45, 0.525], [1, 1], za)
    H.ge("higher load, lower Mcr", m.mcrit([1.12, 0.45, 0.525], [1, 1], za - 10.0), M)
    if b[0] == b[1]:
        H.eq("doubly symmetric", M, SteelMember(s, L, symmetry="dual").mcrit([1.12, 0.45, 0.525], [1, 1], za))


@job("E02", params=[dict(size=i) for i in range(3)], bounds="three I-sections with any warping constant in [1e8,1e13], cantilevers of 0.7, 2.5, 6 and 14 m, load at the top, middle and bottom")
def cantilever(H, size):
    s = sized("I", size, 355)
    s.Iw = H.real("Iw", 1e8, 1e13)
    m = SteelMember(s, H.choice("L", [700.0, 2500.0, 6000.0, 14000.0]))
    load = H.choice("load", ["uniform", "point"])
    free = H.flag("warping_free")
    M = {l: m.mcrit_cantilever(load, l, free) for l in ("top", "middle", "bottom")}
    hS = s.h - s.tf
    K2 = pi * pi / (m.length * m.length) * E * s.I[1] * hS * hS / 4 / (s.G * s.It)
    # load at the shear centre: C1 from the table
    P = pi * pi * E * s.I[1] / (4 * m.length * m.length)
    R = 4 * s.Iw / s.I[1] + 4 * m.length * m.length * G * s.It / (pi * pi * E * s.I[1])
    x = M["middle"] / P                 # C1 sqrt(R)
    K = (K2) ** 0.5
    c = {(True, "point"): (2.437, 0.613, -0.105), (True, "uniform"): (3.840, 1.496, -0.247),
         (False, "point"): (2.462, 2.383, 0.0), (False, "uniform"): (3.962, 5.531, 0.0)}[(free, load)]
    C1n = c[0] + c[1] * K + c[2] * K * K
    H.eq("middle", x * x * (1 + K2), C1n * C1n * R, rel=1e-5)
    if K <= 2.5:
        H.le("load on the top flange is worst", M["top"], M["middle"])
        H.ge("load on the bottom flange is best", M["bottom"], M["middle"])


# ---------------------------------------------------------------- M01
def loads(H, n, lo=-1e6, hi=1e6, M=3e8, V=1e6, mz=False):
    out = []
    for i in range(n):
        out.append(dict(ned=H.real(f"N{i}", lo, hi), myed=H.real(f"M{i}", -M, M), vzed=H.real(f"V{i}", -V, V)))
    return out


@job("M01", params=sizes(), bounds="two member sections with forces up to the resistances of 11 profiles")
def buckling_check(H, kind, size):
    s = sized(kind, size, 355)
    m = SteelMember(s, 4000.0, Lcr=[1.0, 0.8])
    R = s.A * 355
    n0, n1 = H.real("n0", -1.5, 1.5) * R, H.real("n1", -1.5, 1.5) * R
    m.add_section(ned=n0, loc=0.0)
    m.add_section(ned=n1, loc=1.0)
    r = m.check_buckling()
    N = m.buckling_strength()
    c = mx(mx(-n0, -n1), 0.0)
    for i, k in ((0, "buck_y"), (1, "buck_z")):
        H.eq(k, r[i] * N[i], c, abs_=1e-6)
        H.eq("stored " + k, m.stability[k], r[i])
    H.eq("largest compression", m.NcEd, -c, abs_=1e-9)
    H.eq("largest axial force", m.NEd, mx(mx(n0, -n0), mx(n1, -n1)))


@job("M01", params=[dict(ltb=l, **d) for d in sizes(("RHS", "I", "WI")) for l in ((False, True) if d["kind"] in ("I", "WI") else (False,))],
     bounds="two member sections, compression up to 1.2 times and moments up to 1.5 times the resistance")
def beam_column(H, kind, size, ltb):
    s = sized(kind, size, 355)
    m = SteelMember(s, 4000.0, Lcr=[1.0, 0.8], LT_buckling=ltb)
    C = H.choice("class", [1, 2, 3])
    R, MR = s.A * 355, s.Wpl[0] * 355
    n = -H.real("n", 0.0, 1.2) * R
    m0, m1 = H.real("m0", -1.5, 1.5) * MR, H.real("m1", -1.5, 1.5) * MR
    mz = H.choice("mz", [0.0, 1e6])
    m.add_section(ned=n * 0.5, myed=m0, mzed=mz, loc=0.0)
    m.add_section(ned=n, myed=m1, loc=1.0)
    r = m.check_beamcolumn(sway=True, section_class=C)
    M = mx(mx(m0, -m0), mx(m1, -m1))
    if M < 1e-6:
        H.eq("no bending y", r[0], 0.0)
        H.eq("no bending z", r[1], 0.0)
        return
    N = m.buckling_strength()
    lam = m.slenderness()
    u = [-n / N[0], -n / N[1]]
    if C < 3:
        kyy = 0.9 * (1 + mn(lam[0] - 0.2, 0.8) * u[0])
    else:
        kyy = 0.9 * (1 + 0.6 * mn(lam[0], 1.0) * u[0])
    if not ltb:
        kzy = 0.0 if mz == 0.0 else (0.6 if C < 3 else 0.8) * kyy
        MR2 = m.profile.MRd
    else:
        MR2 = m.LT_buckling_strength(m.mcrit())
        if C < 3:
            kzy = 1 - 0.1 * mn(lam[1], 1.0) / 0.75 * u[1]
            if lam[1] < 0.4:
                kzy = mn(0.6 + lam[1], kzy)
        else:
            kzy = 1 - 0.05 * mn(lam[1], 1.0) / 0.75 * u[1]
    H.eq("bc_y", (r[0] - u[0]) * MR2, kyy * M, abs_=1e-3)
    H.eq("bc_z", (r[1] - u[1]) * MR2, kzy * M, abs_=1e-3)
    H.eq("stored y", m.stability["bc_y"], r[0])
    H.eq("stored z", m.stability["bc_z"], r[1])


@job("M01", params=[dict(size=i) for i in range(3)], bounds="end moments in [-1e8,1e8], span moment or none, both load types")
def moment_factor(H, size):
    s = sized("RHS", size, 355)
    m = SteelMember(s, 4000.0)
    a, b = H.real("a", -1e8, 1e8), H.real("b", -1e8, 1e8)
    span = H.flag("span")
    load = H.choice("load", ["uniform", "point"])
    H.assume(abs(a) > 1.0)
    m.add_section(myed=a, loc=0)
    m.add_section(myed=b, loc=1)
    c = None
    if span:
        c = H.real("c", -1e8, 1e8)
        m.add_section(myed=c, loc=0.5)
    H.eq("sway", m.Cmy(True, load), 0.9)
    H.eq("non-sway", m.Cmy(False, load), ec.equivalent_moment_factor([a, b], c, load))


@job("M01", params=[dict(kind=k, size=i, ltb=l) for k, i, l in (("RHS", 0, False), ("I", 0, True), ("CHS", 0, False), ("I", 1, False), ("I", 3, True))],
     bounds="two member sections, tension or compression up to the resistance, moments and shear of either sign; in either order")
def design(H, kind, size, ltb):
    """the design utilisation is the largest of all checks and does not depend on the order of the member sections"""
    s, s2 = sized(kind, size, 355), sized(kind, size, 355)
    R, MR, VR = s.A * 355, s.Wpl[0] * 355, s.VzRd
    N0 = H.choice("N0", [-0.7, -0.2, 0.0, 0.3])
    N1 = H.choice("N1", [-0.3, 0.0, 0.6])
    M0 = H.real("m0", -1.2, 1.2)
    V1 = H.real("v1", -1.2, 1.2)
    M1 = H.choice("M1", [0.0, 0.4])
    H.assume(abs(M0) > 1e-3)
    ld = [dict(ned=N0 * R, myed=M0 * MR, vzed=0.1 * VR, loc=0.0), dict(ned=N1 * R, myed=M1 * MR, vzed=V1 * VR, loc=1.0)]
    m, m2 = [SteelMember(p, 4000.0, LT_buckling=ltb) for p in (s, s2)]
    for l in ld:
        m.add_section(**l)
    for l in reversed(ld):
        m2.add_section(**l)
    r = m.design(sway=True)
    H.eq("order of sections", r, m2.design(sway=True))
    H.eq("design again", m.design(sway=True), r)
    for l in (0.0, 1.0):
        for x in m.check_section(l):
            H.ge("section", r, x)
    c = mn(N0, N1)
    nb = m.check_buckling()
    bc = m.check_beamcolumn(sway=True)
    if c < 0:
        for x in list(nb) + list(bc):
            H.ge("stability", r, x)
    if ltb:
        H.ge("LTB", r, m.check_LT_buckling())


@job("M01", params=[dict(size=i) for i in range(2)], bounds="loads replaced after a first design: forces in the bounds of beam_column")
def design_history(H, size):
    """after new loads the stored stability values are those of a fresh member"""
    mem = []
    n1, m1 = -H.real("n1", 0.0, 5e5), H.real("m1", 0.0, 5e7)
    n2, m2 = H.real("n2", -5e5, 5e5), H.choice("m2", [0.0, 2e7])
    a = SteelMember(sized("RHS", size, 355), 4000.0)
    a.add_section(ned=n1, myed=m1, loc=0)
    a.design()
    a.clear_sections()
    a.add_section(ned=n2, myed=m2, loc=0)
    b = SteelMember(sized("RHS", size, 355), 4000.0)
    b.add_section(ned=n2, myed=m2, loc=0)
    ra, rb = a.design(sway=True), b.design(sway=True)
    H.eq("utilisation", ra, rb)
    if n2 < 0:
        for k in ("buck_y", "buck_z", "bc_y", "bc_z"):
            H.eq(k, a.stability[k], b.stability[k])
