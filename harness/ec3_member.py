"""EN 1993-1-1 member rules (reduction factor, interaction factors, Cm)."""
from math import sqrt

from symx.registry import job
import metku.eurocodes.en1993.en1993_1_1 as ec

CURVES = {"a0": 0.13, "a": 0.21, "b": 0.34, "c": 0.49, "d": 0.76}


def mx(a, b):
    return a if a >= b else b


def mn(a, b):
    return a if a <= b else b


@job("E01", params=[dict(curve=c) for c in CURVES], bounds="slenderness in [0, 10]; each buckling curve")
def chi_range(H, curve):
    """0 < chi <= min(1, 1/l^2), chi = 1 up to 0.2, equals EN 1993-1-1 (6.49)"""
    H.same("imperfection", ec.buckling_curve[curve], CURVES[curve])
    lam = H.real("lam", 0.0, 10.0)
    chi = ec.buckling_reduction_factor(lam, ec.buckling_curve[curve])
    H.observe("chi", chi)
    H.check("positive", chi > 0)
    H.check("at most one", chi <= 1)
    H.le("below Euler", chi * lam * lam, 1.0)
    if lam <= 0.2:
        H.eq("plateau", chi, 1.0)
    else:
        # Ayrton-Perry: (1-chi)(1-chi l^2) = eta chi; with the two bounds above
        # this equation has exactly one root
        H.eq("Ayrton-Perry", (1 - chi) * (1 - chi * lam * lam), chi * CURVES[curve] * (lam - 0.2))


@job("E01", bounds="slenderness in [0.2,10], imperfection factors in [0.05,1]")
def chi_curve_order(H):
    lam = H.real("lam", 0.2, 10.0)
    a1 = H.real("a1", 0.05, 1.0)
    a2 = H.real("a2", 0.05, 1.0)
    H.assume(a1 < a2)
    H.ge("worse curve, smaller factor", ec.buckling_reduction_factor(lam, a1), ec.buckling_reduction_factor(lam, a2))


@job("E01", bounds="A in [10,1e6] mm2, fy in [100,1000], Ncr in [1,1e9]")
def basic_resistances(H):
    A = H.real("A", 10.0, 1e6)
    fy = H.real("fy", 100.0, 1000.0)
    Ncr = H.real("Ncr", 1.0, 1e9)
    chi = H.real("chi", 0.001, 1.0)
    lam = ec.slenderness(A, fy, Ncr)
    H.eq("slenderness", lam * lam * Ncr, A * fy)
    H.ge("slenderness positive", lam, 0.0)
    H.eq("NbRd", ec.buckling_strength(A, fy, chi), chi * A * fy / 1.0)
    H.eq("NplRd", ec.tension_resistance(A, fy), A * fy)
    H.eq("NuRd", ec.net_section_resistance(A, fy), 0.9 * A * fy / 1.25)
    H.eq("NcRd", ec.compression_resistance(A, fy), A * fy)
    H.eq("McRd", ec.bending_resistance(A, fy), A * fy)
    v = ec.shear_resistance(A, fy)
    H.eq("VcRd", v * v * 3, A * A * fy * fy)
    H.ge("VcRd positive", v, 0.0)


@job("E01", bounds="h in [0.5, 200] m, m in 1..50 members")
def sway(H):
    h = H.real("h", 0.5, 200.0)
    m = H.real("m", 1.0, 50.0)
    phi = ec.sway_imperfection(h, m)
    ah2 = 4 / h
    am2 = 0.5 * (1 + 1 / m)
    p2 = phi * phi * 40000
    if h <= 4:
        H.eq("phi^2", p2, am2)
    elif h >= 9:
        H.eq("phi^2", p2, 4 / 9 * am2)
    else:
        H.eq("phi^2", p2, ah2 * am2)
    H.ge("positive", phi, 0.0)


# ------------------------------------------------------------- E03
@job("E03", params=[dict(cls=c) for c in (1, 2, 3, 4)], bounds="utilisation in [0,1], slenderness in [0,5], Cm in [0.4,1]")
def factors(H, cls):
    U = H.real("U", 0.0, 1.0)
    lam = H.real("lam", 0.0, 5.0)
    Cm = H.real("Cm", 0.4, 1.0)
    k = ec.kyy(U, lam, Cm, cls)
    H.observe("kyy", k)
    if cls < 3:
        H.eq("kyy", k, Cm * (1 + mn(lam - 0.2, 0.8) * U))
    else:
        H.eq("kyy", k, Cm * (1 + 0.6 * mn(lam, 1.0) * U))
    for prof in ("hollow", "open"):
        kz = ec.kzz(U, lam, Cm, cls, prof)
        H.observe("kzz" + prof, kz)
        if cls >= 3:
            H.eq("kzz:" + prof, kz, Cm * (1 + 0.6 * mn(lam, 1.0) * U))
        elif prof == "hollow":
            H.eq("kzz:" + prof, kz, Cm * (1 + mn(lam - 0.2, 0.8) * U))
        else:
            H.eq("kzz:" + prof, kz, Cm * (1 + mn(2 * lam - 0.6, 1.4) * U))
    H.eq("kyz", ec.kyz(Cm, cls), Cm * (0.6 if cls < 3 else 1.0))


@job("E03", params=[dict(cls=c) for c in (1, 2, 3, 4)], bounds="utilisation in [0,1], slenderness in [0,5], CmLT in [0.4,1]")
def kzy(H, cls):
    U = H.real("U", 0.0, 1.0)
    lam = H.real("lam", 0.0, 5.0)
    ky = H.real("ky", 0.1, 2.0)
    CmLT = H.real("CmLT", 0.4, 1.0)
    a = ec.kzy(ky, U, lam, CmLT, cls, False)
    H.eq("not susceptible", a, ky * (0.6 if cls < 3 else 0.8))
    b = ec.kzy(ky, U, lam, CmLT, cls, True)
    H.observe("kzy", b)
    if cls < 3:
        if lam < 0.4:
            H.eq("susceptible, low slenderness", b, mn(0.6 + lam, 1 - 0.1 * lam / (CmLT - 0.25) * U))
        else:
            H.eq("susceptible", b, 1 - 0.1 * mn(lam, 1.0) / (CmLT - 0.25) * U)
    else:
        H.eq("susceptible class 3-4", b, 1 - 0.05 * mn(lam, 1.0) / (CmLT - 0.25) * U)


@job("E03", bounds="all terms in [0,10], chiLT in [0.01,1]")
def interaction(H):
    UN = H.real("UN", 0.0, 10.0)
    UM = H.real("UM", 0.0, 10.0)
    k = H.real("k", 0.0, 3.0)
    x = H.real("chiLT", 0.01, 1.0)
    UZ = H.real("UZ", 0.0, 10.0)
    H.eq("6.61", ec.beam_column_utility(UN, UM, k, x, UZ), UN + k * UM / x + UZ)


def cm_ref(M1, M2, Ms, load):
    """EN 1993-1-1 Table B.3 (with AC:2009)"""
    a1, a2 = abs(M1), abs(M2)
    Mh, psi = (M1, M2 / M1) if a1 > a2 else (M2, M1 / M2)
    ah = abs(Mh)
    if abs(Ms) <= ah:
        s = Ms / Mh
        if s >= 0:
            return mx(0.2 + 0.8 * s, 0.4)
        if psi >= 0:
            return mx((0.1 if load == "uniform" else 0.0) - 0.8 * s, 0.4)
        if load == "uniform":
            return mx(0.1 * (1 - psi) - 0.8 * s, 0.4)
        return mx(0.2 * (-psi) - 0.8 * s, 0.4)
    h = Mh / Ms
    b, c = (0.95, 0.05) if load == "uniform" else (0.9, 0.1)
    if h >= 0 or psi >= 0:
        return b + c * h
    return b + c * h * (1 + 2 * psi)


@job("E03", params=[dict(load="uniform"), dict(load="point")],
     bounds="end and span moments in [-1e3,1e3], larger end moment at least 1 in size, not linear within 1e-3")
def cm(H, load):
    M1 = H.real("M1", -1e3, 1e3)
    M2 = H.real("M2", -1e3, 1e3)
    Ms = H.real("Ms", -1e3, 1e3)
    H.assume(abs(M2) >= 1)
    H.assume(abs(Ms - 0.5 * (M1 + M2)) > 1e-3)
    r = ec.equivalent_moment_factor([M1, M2], Ms, load)
    H.observe("Cm", r)
    H.eq("Table B.3", r, cm_ref(M1, M2, Ms, load))
    H.between("range", 0.4, r, 1.0)


@job("E03", bounds="end moments in [-1e3,1e3], M2 at least 1 in size")
def cm_linear(H):
    M1 = H.real("M1", -1e3, 1e3)
    M2 = H.real("M2", -1e3, 1e3)
    H.assume(abs(M2) >= 1)
    ref = mx(0.6 + 0.4 * (M1 / M2 if abs(M1) <= abs(M2) else M2 / M1), 0.4)
    H.eq("linear, no span moment", ec.equivalent_moment_factor([M1, M2]), ref)
    for load in ("uniform", "point"):
        H.eq("linear, span moment", ec.equivalent_moment_factor([M1, M2], 0.5 * (M1 + M2), load), ref)


@job("E03", params=[dict(load="uniform"), dict(load="point")], bounds="both end moments zero, span moment in [1,1e3] either sign")
def cm_simple(H, load):
    Ms = H.real("Ms", -1e3, 1e3)
    H.assume(abs(Ms) >= 1)
    H.eq("no end moments", ec.equivalent_moment_factor([0.0, 0.0], Ms, load), 0.95 if load == "uniform" else 0.9)
