"""Composite beams and columns (E12)."""
from math import pi, sqrt

from symx.registry import job
import metku.structures.steel.steel_member  # noqa: F401  (import order)
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.ISection import ISection
from metku.sections.composite.composite_beam import ConcreteSlab, CompositeSlab, CompositeIBeam
from metku.sections.composite.composite_column import ConcreteFilledTube
from metku.eurocodes.en1992.constants import Concrete
from metku.eurocodes.en1992.en1992_1_1 import Rebar
from metku.eurocodes.en1994.en1994_1_1 import ShearStud, S3L_Studs
from harness.sections import rr_area, rr_I, rr_S

FCK = {"C20/25": 20.0, "C25/30": 25.0, "C30/37": 30.0, "C40/50": 40.0, "C50/60": 50.0}


def slab_of(H, c, kind):
    mat = Concrete(c)
    hc = H.real("hc", 60.0, 250.0)
    if kind == "solid":
        return ConcreteSlab(hc, mat), hc, hc
    ha = H.real("ha", 40.0, 120.0)
    s = CompositeSlab(hc + ha, mat, ha)
    return s, hc, hc + ha


def beam_of(H, c, kind, steel=(400.0, 180.0, 14.0, 9.0), fy=355):
    h, b, tf, tw = steel
    s = ISection(h, b, tf, tw, 0.0, fy=fy)
    slab, hc, hl = slab_of(H, c, kind)
    L = H.real("L", 3000.0, 24000.0)
    p = CompositeIBeam(L, s, slab)
    p.b0 = H.real("b0", 0.0, 300.0)
    return p, s, slab, hc, hl, p.b0 + L / 4


@job("E12", params=[{"kind": k, "c": c} for k in ("solid", "deck") for c in ("C25/30", "C50/60")],
     bounds="concrete thickness 60-250 mm, deck 40-120 mm, span 3-24 m, stud spacing 0-300 mm; steel part 400x180x14x9")
def composite_elastic(H, kind, c):
    p, s, slab, hc, hl, beff = beam_of(H, c, kind)
    n = p.Ea / p.Ecm
    Ecm = 22000 * ((FCK[c] + 8) / 10) ** 0.3
    H.eq("Ecm", p.Ecm, Ecm, scale=30000)
    H.eq("slab depth", slab.h, hl, scale=100)
    H.eq("effective width", p.beff, beff, scale=1000)
    A, I = s.A, s.I[0]
    ya, yc = hl + 200.0, hc / 2
    Ac = beff * hc
    EA = 210e3 * A + Ecm * Ac
    H.eq("axial stiffness", p.EAcom(), EA, scale=1e9)
    x = p.centroid()
    H.eq("centroid", x * EA, 210e3 * A * ya + Ecm * Ac * yc, scale=1e12)
    EI = 210e3 * (I + A * (ya - x) ** 2) + Ecm * (beff * hc ** 3 / 12 + Ac * (x - yc) ** 2)
    H.eq("bending stiffness", p.EIcom(), EI, scale=1e14)
    H.eq("degree of composite action", p.EIcom(), (210e3 * I + Ecm * beff * hc ** 3 / 12) * (1 + p.composite_coefficient()),
         scale=1e14)
    wt = (24 + 1) * hl * 1e-3
    H.eq("weight", slab.weight() if kind == "solid" else slab.concrete_weight(), wt, scale=1)


@job("E12", params=[{"kind": k} for k in ("solid", "deck")],
     bounds="as composite_elastic, creep from 28 days to infinity at 40, 50 and 80 % humidity, C25/30")
def composite_creep(H, kind):
    s = ISection(400.0, 180.0, 14.0, 9.0, 0.0, fy=355)
    hc = H.choice("hc", [80.0, 120.0, 200.0])
    rh = H.choice("RH", [40, 50, 80])
    mat = Concrete("C25/30")
    slab = ConcreteSlab(hc, mat) if kind == "solid" else CompositeSlab(hc + 50.0, mat, 50.0)
    hl = hc if kind == "solid" else hc + 50.0
    L = H.real("L", 3000.0, 24000.0)
    p = CompositeIBeam(L, s, slab, RH=rh)
    h0 = 2 * hc
    fcm = 33.0
    phiRH = 1 + (1 - rh / 100) / (0.1 * h0 ** (1 / 3))
    bH = min(1.5 * (1 + (0.012 * rh) ** 18) * h0 + 250, 1500)
    for name, t0, psi, E in (("creep", 28, 1.1, p.Ecc), ("shrinkage", 1, 0.55, p.Ecs)):
        phi = phiRH * 16.8 / sqrt(fcm) / (0.1 + t0 ** 0.2) * ((1e8 - t0) / (bH + 1e8 - t0)) ** 0.3
        H.eq(name + " modulus", E * (1 + psi * phi), p.Ecm, scale=30000)
    n = p.Ecc
    Ac = hc * L / 4
    EA = 210e3 * s.A + n * Ac
    x = p.centroid("creep")
    H.eq("centroid", x * EA, 210e3 * s.A * (hl + 200) + n * Ac * hc / 2, scale=1e12)
    H.eq("axial stiffness", p.EAcom("creep"), EA, scale=1e9)
    H.eq("bending stiffness", p.EIcom("creep"), 210e3 * (s.I[0] + s.A * (hl + 200 - x) ** 2) +
         n * (L / 4 * hc ** 3 / 12 + Ac * (x - hc / 2) ** 2), scale=1e14)
    H.check("creep makes it softer", p.EIcom("creep") <= p.EIcom() * (1 + 1e-9), "creep does not reduce the bending stiffness")


@job("E12", params=[{"c": c} for c in ("C20/25", "C30/37", "C40/50")],
     bounds="notional size 100-1000 mm, humidity 40-90 %, loading at 1-365 days, observed 1-10000 days later")
def creep_coefficient(H, c):
    m = Concrete(c)
    which = H.choice("free", ["h0", "rh", "t"])
    h0 = H.real("h0", 100.0, 1000.0) if which == "h0" else H.choice("h0c", [150.0, 800.0])
    rh = H.real("rh", 40.0, 90.0) if which == "rh" else 50
    t0 = H.choice("t0", [1.0, 28.0, 365.0])
    dt = H.real("dt", 1.0, 10000.0) if which == "t" else 5000.0
    m.RH = rh
    fcm = FCK[c] + 8
    a1, a2, a3 = (35 / fcm) ** 0.7, (35 / fcm) ** 0.2, (35 / fcm) ** 0.5
    if fcm <= 35:
        a1 = a2 = a3 = 1.0
    phi = m.creep_coefficient(h0, t0 + dt, t0)
    k = h0 ** (1 / 3)
    bH = 1.5 * (1 + (0.012 * rh) ** 18) * h0 + 250 * a3
    if bH > 1500 * a3:
        bH = 1500 * a3
    ref = (1 + (1 - rh / 100) / (0.1 * k) * a1) * a2 * 16.8 / sqrt(fcm) / (0.1 + t0 ** 0.2) * (dt / (bH + dt)) ** 0.3
    H.eq("creep coefficient", phi, ref, scale=1)
    H.check("creep is positive", phi > 0, "no creep")


@job("E12", params=[{"kind": k, "c": c, "fy": fy} for k in ("solid", "deck") for c, fy in
                    (("C20/25", 355), ("C30/37", 235), ("C40/50", 700))],
     bounds="concrete thickness 60-250 mm, deck 40-120 mm, span 3-24 m; steel part 400x180x14x9 mm without fillets")
def composite_plastic(H, kind, c, fy):
    p, s, slab, hc, hl, beff = beam_of(H, c, kind, fy=fy)
    h, b, tf, tw = 400.0, 180.0, 14.0, 9.0
    hw = h - 2 * tf
    k = p.Rc() / (beff * hc)        # stress of the concrete block
    H.check("concrete stress", (k >= 0.85 * 0.85 * FCK[c] / 1.5 * 0.999) & (k <= 0.85 * FCK[c] / 1.5 * 1.001),
            "stress of the concrete block")
    fcd = k
    x = p.plastic_neutral_axis()
    M = p.MplRd()
    Ra = fy * s.A
    Rc = fcd * beff * hc
    for R in (Ra, Ra - 2 * fy * b * tf):
        H.assume((Rc - R >= 50.0) | (Rc - R <= -50.0))
    if Rc >= Ra:
        H.between("axis in the slab", 0, x, hc)
        H.eq("equilibrium", fcd * beff * x, Ra, scale=1e6)
        H.eq("moment", M, Ra * (hl + h / 2 - x / 2), scale=1e9)
    elif Rc >= fy * hw * tw:
        d = x - hl
        H.between("axis in the top flange", 0, d, tf)
        H.eq("equilibrium", Rc + 2 * fy * b * d, Ra, scale=1e6)
        H.eq("moment", M, Ra * (h / 2) + Rc * (hl - hc / 2) - fy * b * d * d, scale=1e9)
    else:
        d = x - hl - tf
        H.between("axis in the web", 0, d, hw)
        H.eq("equilibrium", Rc + 2 * fy * b * tf + 2 * fy * tw * d, Ra, scale=1e6)
        # moments of the stress blocks about the top of the steel part
        H.eq("moment", M, Ra * h / 2 + Rc * (hl - hc / 2) - fy * b * tf * tf - 2 * fy * tw * d * (tf + d / 2), scale=1e9)
    H.check("at least the steel part", M >= fy * s.Wpl[0] * (1 - 1e-6), "less than the steel part alone")


@job("E12", params=[{"d": d, "c": c} for d in (19, 22) for c in ("C20/25", "C40/50")],
     bounds="stud length 40-200 mm, ultimate strength 400-500 MPa")
def shear_stud(H, d, c):
    L = H.real("length", 3 * d, 8 * d)
    fu = H.real("fu", 400.0, 500.0)
    m = Concrete(c)
    P = ShearStud(S3L_Studs[d], length=L, fu=fu).PRd(m.fck, m.Ecm)
    steel = 0.8 * fu * pi * d ** 2 / 4 / 1.25
    conc = 0.29 * d ** 2 * sqrt(m.fck * m.Ecm) / 1.25
    if L <= 4 * d:
        conc = conc * 0.2 * (L / d + 1)
    H.check("stud resistance", (P <= steel * (1 + 1e-9)) & (P <= conc * (1 + 1e-9)) &
            ((P >= steel * (1 - 1e-9)) | (P >= conc * (1 - 1e-9))), "resistance of the stud")


def column_of(H, c="C30/37", d=16.0, fy=355, square=False, fix=None):
    h = H.real("h", 200.0, 400.0)
    b = h if square else H.real("b", 200.0, 400.0)
    t = H.choice("t", [6.0, 8.0, 12.5]) if fix is None else fix
    R = 2 * t if t <= 6 else (2.5 * t if t <= 10 else 3 * t)
    s = SHS(h, t, fy=fy) if square else RHS(h, b, t, fy=fy)
    col = ConcreteFilledTube(5000.0, s, Concrete(c), Rebar(d, "B500B"))
    return col, s, h, b, t, R


@job("E12", bounds="rectangular tubes 200-400 mm, walls 6, 8 and 12.5 mm, covers 20-60 mm, bars 8-32 mm")
def column_geometry(H):
    d = H.real("d", 8.0, 32.0)
    col, s, h, b, t, R = column_of(H, d=d)
    u, v = H.real("u", 20.0, 60.0), H.real("v", 20.0, 60.0)
    col.u = u
    col.v = v
    H.eq("u", col.u, u, scale=10)
    H.eq("v", col.v, v, scale=10)
    zs, ys = h / 2 - t - u - d / 2, b / 2 - t - v - d / 2
    H.eq("z of bars", col.z_rebar, zs, scale=100)
    H.eq("y of bars", col.y_rebar, ys, scale=100)
    As = 4 * pi * d ** 2 / 4
    H.eq("bars", col.As, As, scale=1000)
    H.eq("whole area", col.Aa + col.Ac + col.As, rr_area(h, b, R), scale=1e4)
    H.eq("reinforcement ratio", col.reinforcement_ratio() * col.Ac, As, scale=1000)
    Is = 4 * (pi * d ** 4 / 64 + pi * d ** 2 / 4 * zs ** 2)
    H.eq("Is", col.Is, Is, scale=1e6)
    H.eq("whole second moment", col.Ia + col.Ic + col.Is, rr_I(h, b, R), scale=1e8)
    H.eq("Wps", col.Wps, 4 * pi * d ** 2 / 4 * zs, scale=1e5)
    H.eq("whole plastic modulus", col.Wpa + col.Wpc + col.Wps, rr_S(h, b, R), scale=1e6)
    H.eq("weight", col.weight_per_length, (s.A * 7850e-6 + As * 7850e-6) * 9.81e-3 + col.Ac * 24e-6, scale=1)


@job("E12", params=[{"c": c, "fy": fy} for c in ("C25/30", "C50/60") for fy in (235, 420)],
     bounds="square tubes 200-400 mm, walls 6-12.5 mm, bars 16 mm, compression 0.1-3 MN, of which 0-100 % dead load, "
     "buckling length 0.5-1.0 times 2-10 m")
def column_compression(H, c, fy):
    col, s, h, b, t, R = column_of(H, c=c, fy=fy, square=True)
    col.u, col.v = 30.0, 30.0
    fck = FCK[c]
    N = H.real("N", 0.1e6, 3e6)
    share = H.choice("dead", [0.0, 0.5, 1.0])
    col.ned = N
    col.nged = share * N
    L = H.real("L", 2000.0, 10000.0)
    col.length = L
    kk = H.choice("k", [0.5, 1.0])
    col.lcr = [kk, 1.0]
    As, Ac, Aa = col.As, col.Ac, s.A
    NplRd = Aa * fy + Ac * fck / 1.5 + As * 500 / 1.15
    NplRk = Aa * fy + Ac * fck + As * 500
    H.eq("NplRd", col.NplRd(), NplRd, scale=1e6)
    H.eq("NplRk", col.NplRk(), NplRk, scale=1e6)
    H.eq("NpmRd", col.NpmRd(), Ac * fck / 1.5, scale=1e6)
    H.eq("steel contribution", col.steel_contribution_ratio() * NplRd, Aa * fy, scale=1e6)
    m = Concrete(c)
    phi = m.creep_coefficient(1e11, 1e11, 28)
    Ec = m.Ecm / (1 + share * phi)
    EI = 210e3 * col.Ia + 210e3 * col.Is + 0.6 * Ec * col.Ic
    H.eq("Ncr", col.Ncr() * (kk * L) ** 2, pi ** 2 * EI, scale=1e13)
    H.eq("Ncr,eff", col.Ncreff() * (kk * L) ** 2,
         pi ** 2 * 0.9 * (210e3 * col.Ia + 210e3 * col.Is + 0.5 * Ec * col.Ic), scale=1e13)
    lam = col.slenderness()
    H.eq("slenderness", lam * lam * EI * pi ** 2, NplRk * (kk * L) ** 2, scale=1e12)
    alpha = 0.21 if As <= 0.03 * Ac else 0.34
    chi = col.NbRd() / NplRd
    f = 0.5 * (1 + alpha * (lam - 0.2) + lam * lam)
    if lam <= 0.2:
        H.eq("buckling", chi, 1.0, scale=1)
    else:
        # chi (f + sqrt(f^2 - lam^2)) = 1
        H.eq("buckling", (1 - chi * f) * (1 - chi * f), chi * chi * (f * f - lam * lam), scale=1)
        H.between("buckling range", 0, chi, 1)
    H.eq("square tube about the other axis", col.Ncr("z") * L ** 2, col.Ncr("y") * (kk * L) ** 2, scale=1e13)
    r = L / 300 if As <= 0.03 * Ac else L / 200
    H.eq("imperfection", col.e0(), r, scale=10)


@job("E12", params=[{"c": c, "t": t} for c in ("C25/30", "C50/60") for t in (6.0, 8.0, 12.5)],
     bounds="rectangular tubes 200-400 mm, bars 16 mm with 30 mm cover")
def column_bending(H, c, t):
    fy = 355
    col, s, h, b, t, R = column_of(H, c=c, fix=t)
    col.u, col.v = 30.0, 30.0
    fcd = FCK[c] / 1.5
    fsd = 500 / 1.15
    Mmax = fy * s.Wpl[0] + fsd * col.Wps + 0.5 * fcd * col.Wpc
    H.eq("greatest moment", col.Mpl_max_Rd(), Mmax, scale=1e8)
    M = col.MplRd()
    # neutral axis of pure bending, hn below... above the middle
    hn = fcd * col.Ac / (2 * (b - 2 * t) * fcd + 8 * t * fy)
    zr = h / 2 - t - 30.0 - 8.0
    H.assume((hn <= zr - 8.0 - 0.01) & (hn <= h / 2 - R))
    H.eq("plastic moment", M, Mmax - fy * 2 * t * hn ** 2 - 0.5 * fcd * (b - 2 * t) * hn ** 2, scale=1e8)


@job("E12", params=[{"c": c} for c in ("C25/30", "C50/60")],
     bounds="rectangular tubes 200-400 mm with walls of 8 mm, bars 16 mm with covers 20-60 mm, length 2-10 m")
def column_minor_axis(H, c):
    col, s, h, b, t, R = column_of(H, c=c, fix=8.0)
    v = H.real("v", 20.0, 60.0)
    col.u, col.v = 30.0, v
    col.ned, col.nged = 1e6, 0.5e6
    L = H.real("L", 2000.0, 10000.0)
    col.length = L
    col.lcr = [1.0, 0.8]
    m = Concrete(c)
    Ec = m.Ecm / (1 + 0.5 * m.creep_coefficient(1e11, 1e11, 28))
    ys = b / 2 - t - v - 8.0
    Is = 4 * (pi * 16 ** 4 / 64 + pi * 64 * ys ** 2)
    Ic = rr_I(b - 2 * t, h - 2 * t, R - t) - Is
    H.eq("Ncr", col.Ncr("z") * (0.8 * L) ** 2, pi ** 2 * (210e3 * (s.I[1] + Is) + 0.6 * Ec * Ic), scale=1e13)
    H.eq("Ncr,eff", col.Ncreff("z") * (0.8 * L) ** 2, pi ** 2 * 0.9 * (210e3 * (s.I[1] + Is) + 0.5 * Ec * Ic), scale=1e13)
    lam = col.slenderness("z")
    H.eq("slenderness", lam * lam * col.Ncr("z"), col.NplRk(), scale=1e6)
