"""EN 1993-1-8 chapters 3, 4 and 6: bolts, plates and basic components (E07)."""
import math

from symx.registry import job
import metku.structures.steel.steel_member
from metku.sections.steel.ISection import HEA, IPE
from metku.sections.steel.wi import WISection
import metku.eurocodes.en1993.en1993_1_8.en1993_1_8 as j8
import metku.eurocodes.en1993.en1993_1_8.component_method as cm
from metku.materials.steel_data import Steel
from harness.ec3_member import mx, mn

GM2 = 1.25
AS = {12: 84.3, 16: 157.0, 20: 245.0, 24: 353.0, 30: 561.0, 36: 817.0}
HOLE = {12: 13, 16: 18, 20: 22, 24: 26, 30: 33, 36: 39}
FUB = {4.6: 400.0, 4.8: 400.0, 5.6: 500.0, 5.8: 500.0, 6.8: 600.0, 8.8: 800.0, 10.9: 1000.0}
FYB = {4.6: 240.0, 4.8: 320.0, 5.6: 300.0, 5.8: 400.0, 6.8: 480.0, 8.8: 640.0, 10.9: 900.0}
AV = {4.6: 0.6, 4.8: 0.5, 5.6: 0.6, 5.8: 0.5, 6.8: 0.5, 8.8: 0.6, 10.9: 0.5}


def bearing(fub, fu, d, d0, t, e, p, perp, load):
    ad = e[0] / (3 * d0) if load == "edge" else p[0] / (3 * d0) - 0.25
    k1 = mn(1.4 * p[1] / d0 - 1.7, 2.5)
    if perp == "edge":
        k1 = mn(2.8 * e[1] / d0 - 1.7, k1)
    return k1 * mn(ad, mn(fub / fu, 1.0)) * fu * d * t / GM2


@job("E07", params=[dict(d=d) for d in AS], bounds="six bolt sizes, seven bolt classes, steel of 300..800 MPa, plates 1..50 mm, every edge and bolt distance allowed")
def bolt(H, d):
    cl = H.choice("class", sorted(FUB))
    resized = H.flag("resized")
    if resized:
        b = j8.Bolt(20 if d != 20 else 24, cl)
        b.size = d
    else:
        b = j8.Bolt(d, cl)
    H.same("size", b.size, d)
    H.same("hole", b.d0, HOLE[d])
    H.eq("stress area", b.As, AS[d])
    H.eq("shank area", b.A, math.pi * d * d / 4)
    H.eq("strength", b.fub, FUB[cl])
    H.eq("yield strength", b.fyb, FYB[cl])
    H.eq("shear in threads", b.shear_resistance(True), AV[cl] * FUB[cl] * AS[d] / GM2)
    H.eq("shear in shank", b.shear_resistance(False), 0.6 * FUB[cl] * b.A / GM2)
    k2 = H.real("k2", 0.1, 1.0)
    H.eq("tension", b.tension_resistance(), 0.9 * FUB[cl] * AS[d] / GM2)
    H.eq("tension, countersunk", b.tension_resistance(k2), k2 * FUB[cl] * AS[d] / GM2)
    fu, t = H.real("fu", 300.0, 800.0), H.real("t", 1.0, 50.0)
    d0 = HOLE[d]
    e = [H.real("e1", 1.2 * d0, 10.0 * d0), H.real("e2", 1.2 * d0, 10.0 * d0)]
    p = [H.real("p1", 2.2 * d0, 14.0 * d0), H.real("p2", 2.4 * d0, 14.0 * d0)]
    perp, load = H.choice("perp", ["edge", "inner"]), H.choice("load", ["edge", "inner"])
    F = b.bearing_resistance(fu, t, e, p, perp, load)
    H.eq("bearing", F, bearing(FUB[cl], fu, d, d0, t, e, p, perp, load))
    H.le("bearing at most 2.5 fu d t", F, 2.5 * fu * d * t / GM2 * 1.000001)
    H.ge("bearing positive", F, 0.0)


@job("E07", params=[dict(cl=c) for c in FUB], bounds="bolt areas 10..2000 mm2, plates of 300..800 MPa and 1..50 mm, forces up to 1 MN")
def functions(H, cl):
    A = H.real("A", 10.0, 2000.0)
    fub = FUB[cl]
    H.eq("shear in threads", j8.bolt_shear_resistance(fub, A, cl, True), AV[cl] * fub * A / GM2)
    H.eq("shear in shank", j8.bolt_shear_resistance(fub, A, cl, False), 0.6 * fub * A / GM2)
    k2 = H.real("k2", 0.1, 1.0)
    H.eq("tension", j8.bolt_tension_resistance(fub, A), 0.9 * fub * A / GM2)
    H.eq("tension, countersunk", j8.bolt_tension_resistance(fub, A, k2), k2 * fub * A / GM2)
    fu, t = H.real("fu", 300.0, 800.0), H.real("t", 1.0, 50.0)
    d = H.real("d", 12.0, 36.0)
    H.eq("punching", j8.bolt_punching_shear_resistance(d, t, fu), 0.6 * math.pi * d * t * fu / GM2)
    d0 = H.choice("d0", [13.0, 22.0, 39.0])
    e = [H.real("e1", 1.2 * d0, 10.0 * d0), H.real("e2", 1.2 * d0, 10.0 * d0)]
    p = [H.real("p1", 2.2 * d0, 14.0 * d0), H.real("p2", 2.4 * d0, 14.0 * d0)]
    perp, load = H.choice("perp", ["edge", "inner"]), H.choice("load", ["edge", "inner"])
    if perp == "edge":
        # bolts in one line along the edge
        p[1] = 14.0 * d0
    H.eq("bearing", j8.bolt_bearing_resistance(fub, fu, d, t, e, p, d0, perp, load), bearing(fub, fu, d, d0, t, e, p, perp, load))


@job("E07", bounds="forces and resistances up to 1 MN, net areas up to 10000 mm2, moment ratios 0..1")
def interaction(H):
    Fv, Ft = H.real("Fv", 0.0, 1e6), H.real("Ft", 0.0, 1e6)
    FvR, FtR = H.real("FvR", 1e3, 1e6), H.real("FtR", 1e3, 1e6)
    U = j8.shear_and_tension_resistance(Fv, FvR, Ft, FtR)
    H.eq("combined", U * 1.4 * FvR * FtR, 1.4 * Fv * FtR + Ft * FvR, scale=1e12)
    fy, fu = H.real("fy", 200.0, 700.0), H.real("fu", 300.0, 800.0)
    nt, nv = H.real("nt", 0.0, 1e4), H.real("nv", 0.0, 1e4)
    H.eq("block tearing, centric", j8.block_tearing(fy, fu, nt, nv), fu * nt / GM2 + fy * nv / math.sqrt(3))
    H.eq("block tearing, eccentric", j8.block_tearing(fy, fu, nt, nv, False), 0.5 * fu * nt / GM2 + fy * nv / math.sqrt(3))
    r = H.real("r", 0.0, 1.0)
    mu = j8.stiffness_ratio(r)
    if r <= 2.0 / 3:
        H.eq("elastic", mu, 1.0)
    else:
        H.eq("cracked", mu, (1.5 * r) ** 2.7)
        H.eq("bolted angle", j8.stiffness_ratio(r, 3.1), (1.5 * r) ** 3.1)


@job("E07", params=[dict(g=g, b=b) for g, b in (("S235", 0.8), ("S275", 0.85), ("S355", 0.9), ("S420", 1.0))], bounds="weldable grades")
def weld(H, g, b):
    m = Steel(g)
    fy = H.real("fy", 200.0, 500.0)
    m.fy = fy
    # the weld is as strong as the plate: 2 a fu / (beta sqrt(2) gM2) >= fy t / gM0
    a = j8.full_strength_weld_throat(m)
    H.eq("two sides", 2 * a * m.fu / (b * math.sqrt(2) * GM2), fy)
    H.eq("tube", j8.full_strength_weld_tube(m), 2 * a)


def omega(beta, x):
    """EN 1993-1-8 Table 6.3, x = beff t / Avc"""
    w1 = 1.0 / (1 + 1.3 * x * x) ** 0.5
    w2 = 1.0 / (1 + 5.2 * x * x) ** 0.5
    if beta <= 0.5:
        return 1.0
    if beta <= 1.0:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


@job("E07", bounds="transformation parameter 0..2, effective widths 1..1000 mm, webs 1..40 mm, shear area 200..20000 mm2")
def shear_interaction(H):
    be, beff, t, A = H.real("beta", 0.0, 2.0), H.real("beff", 1.0, 1e3), H.real("t", 1.0, 40.0), H.real("A", 200.0, 20000.0)
    w = cm.min_coeff_w(be, beff, t, A)
    H.eq("omega", w, omega(be, beff * t / A), abs_=1e-7)
    H.le("no gain", w, 1.0)
    H.ge("some resistance is left", w, 0.001)


COLS = [("HEA", 300, 355), ("HEA", 600, 235), ("IPE", 400, 355), ("HEA", 160, 420)]


def column(i):
    k, h, fy = COLS[i]
    return (HEA if k == "HEA" else IPE)(h, fy=fy)


@job("E07", params=[dict(c=i) for i in range(len(COLS))],
     bounds="four columns, plates 5..50 mm, overhang 10..200 mm, weld 3..15 mm, all column stresses, transformation parameter 0..2")
def web_compression(H, c):
    col, beam = column(c), IPE(400)
    tp, eb, a = H.real("tp", 5.0, 50.0), H.real("eb", 30.0, 200.0), H.real("a", 3.0, 15.0)
    be, s = H.real("beta", 0.0, 2.0), H.real("sigma", -1.0, 1.0) * col.fy
    F, beff = cm.col_web_trv_comp(col, beam, tp, eb, a, be, s)
    r2 = math.sqrt(2)
    b = beam.tf + 2 * r2 * a + 5 * (col.tf + col.r) + mn(2 * tp, tp + eb - r2 * a)
    H.eq("effective width", beff, b)
    tw, fy = col.tw, col.fy
    lam = 0.932 * (beff * col.hw * fy / (col.E * tw ** 2)) ** 0.5
    rho = 1.0
    if lam > 0.72:
        rho = (lam - 0.2) / lam ** 2
    k = 1.0
    if s > 0.7 * fy:
        k = 1.7 - s / fy
    w = cm.min_coeff_w(be, beff, tw, col.Ashear[1])
    H.eq("resistance", F, w * k * rho * beff * tw * fy, rel=1e-5)
    H.eq("stiffness", cm.col_web_trv_comp_k(col, beff), 0.7 * beff * tw / col.hw)


@job("E07", params=[dict(c=i) for i in range(len(COLS))],
     bounds="four columns, effective lengths 10..1000 mm, bolt distances 10..200 mm, plates 5..50 mm, all transformation parameters")
def basic(H, c):
    col = column(c)
    be, le, m = H.real("beta", 0.05, 2.0), H.real("leff", 10.0, 1e3), H.real("m", 10.0, 200.0)
    tp, z = H.real("tp", 5.0, 50.0), H.real("z", 50.0, 2e3)
    w = cm.min_coeff_w(be, le, col.tw, col.Ashear[1])
    H.eq("column web in tension", cm.column_web_tension(col, le, be), w * le * col.tw * col.fy)
    H.eq("column web in tension, stiffness", cm.column_web_tension_k(col, le), 0.7 * le * col.tw / col.hw)
    H.eq("column web in shear", cm.col_web_shear(col), 0.9 * col.fy * col.Ashear[1] / math.sqrt(3))
    H.eq("column web in shear, stiffness", cm.col_web_shear_k(col, be, z) * be * z, 0.38 * col.Ashear[1], scale=1e3)
    H.eq("column flange, stiffness", cm.column_flange_bending_k(col, le, m) * m ** 3, 0.9 * le * col.tf ** 3, rel=1e-5)
    H.eq("end plate, stiffness", cm.end_plate_bending_k(tp, le, m) * m ** 3, 0.9 * le * tp ** 3, rel=1e-5)
    L = H.real("Lb", 20.0, 500.0)
    H.eq("bolts, stiffness", cm.bolt_row_tension_k(be * 100, L) * L, 160 * be, rel=1e-6)
    H.eq("beam web in tension", cm.beam_web_tension(col, le), le * col.tw * col.fy)
    H.eq("beam flange in compression", cm.beam_web_compression(col) * (col.h - col.tf), col.MRd, rel=1e-6)
    fj, bb = H.real("fj", 1.0, 50.0), H.real("bb", 10.0, 500.0)
    H.eq("compressed T-stub", cm.Tstub_compression_flange(fj, bb, le), fj * bb * le)
    e, m2 = H.real("e", 20.0, 200.0), H.real("m2", 10.0, 200.0)
    al = cm.new_alpha(e, m, m2)
    H.le("alpha below eight", al, 8.0)
    H.ge("alpha", al, mn(8.0, 4 + 1.25 * e / m) * 0.999999)
    H.eq("alpha formula", al, mn(mx(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8.0), abs_=1e-6)
