"""EN 1993-1-5: plate buckling, shear buckling, transverse forces, effective welded sections (E05)."""
from math import sqrt

from symx.registry import job
import metku.eurocodes.en1993.en1993_1_5 as pl
from metku.sections.steel.wi import WISection
from harness.ec3_member import mx, mn

E = 210e3


@job("E05", bounds="stress ratio in (-3,1]")
def k_internal(H):
    p = H.real("psi", -2.999, 1.0)
    k = pl.buckling_factor_internal(p)
    H.observe("k", k)
    if p > 0:
        H.eq("k", k * (1.05 + p), 8.2)
    elif p > -1:
        H.eq("k", k, 7.81 - 6.29 * p + 9.78 * p * p)
    else:
        H.eq("k", k, 5.98 * (1 - p) * (1 - p), rel=2e-3)
    H.ge("at least uniform compression", k, 4.0)


@job("E05", params=[dict(side=s) for s in ("tip", "support")], bounds="stress ratio in [-1,1] (tip: [-3,1])")
def k_outstand(H, side):
    p = H.real("psi", -3.0 if side == "tip" else -1.0, 1.0)
    k = pl.buckling_factor_outstand(p, side)
    H.observe("k", k)
    if side == "tip":
        H.eq("k", k, 0.57 - 0.21 * p + 0.07 * p * p, rel=5e-3)
    elif p > 0:
        H.eq("k", k * (p + 0.34), 0.578, rel=1e-2)
    else:
        H.eq("k", k, 1.7 - 5 * p + 17.1 * p * p, rel=1e-6)
    H.between("range", 0.43, k, 23.8)


@job("E05", bounds="slenderness in [0,10], stress ratio in [-3,1]")
def rho(H):
    l = H.real("lp", 0.0, 10.0)
    p = H.real("psi", -3.0, 1.0)
    r = pl.reduction_factor_internal(l, p)
    H.check("positive", r > 0)
    H.le("at most one", r, 1.0)
    lim = l - 0.5
    if lim <= 0 or lim * lim <= 0.085 - 0.055 * p:
        H.eq("no reduction", r, 1.0)
    else:
        H.eq("Winter curve", r * l * l, mn(l - 0.055 * (3 + p), l * l))
    q = pl.reduction_factor_outstand(l)
    H.check("outstand positive", q > 0)
    H.le("outstand at most one", q, 1.0)
    if l <= 0.748:
        H.eq("no reduction of outstand", q, 1.0)
    else:
        H.eq("Winter curve of outstand", q * l * l, mn(l - 0.188, l * l))


@job("E05", bounds="two slendernesses in [0,10], stress ratio -1, 0 and 1")
def rho_monotone(H):
    a, b = H.real("l1", 0.0, 10.0), H.real("l2", 0.0, 10.0)
    H.assume(a <= b)
    p = H.choice("psi", [-1.0, 0.0, 1.0])
    H.ge("internal", pl.reduction_factor_internal(a, p), pl.reduction_factor_internal(b, p), abs_=1e-6)
    H.ge("outstand", pl.reduction_factor_outstand(a), pl.reduction_factor_outstand(b), abs_=1e-3)


@job("E05", bounds="b in [1,5000], t in [0.5,100], epsilon in [0.4,1.1], k in [0.3,40]")
def plate_slenderness(H):
    b, t, e, k = H.real("b", 1.0, 5000.0), H.real("t", 0.5, 100.0), H.real("eps", 0.4, 1.1), H.real("k", 0.3, 40.0)
    l = pl.lambda_p(b, t, e, k)
    x = l * 28.4 * e * t
    H.eq("slenderness", x * x * k, b * b)
    H.ge("sign", l, 0.0)


@job("E05", bounds="width in [1,5000], stress ratio in [-3,1], reduction factor in [0,1]")
def widths(H):
    b, p, r = H.real("b", 1.0, 5000.0), H.real("psi", -3.0, 1.0), H.real("rho", 0.0, 1.0)
    be, parts = pl.effective_width_internal(b, p, r)
    bo = pl.effective_width_outstand(b, p, r)
    bc = b if p >= 0 else b / (1 - p)
    H.eq("effective width", be, r * bc)
    H.eq("outstand", bo, r * bc)
    H.same("two parts", len(parts), 2)
    H.eq("sum of parts", parts[0] + parts[1], be)
    if p >= 0:
        H.eq("first part", parts[0] * (5 - p), 2 * be, abs_=1e-3, rel=1e-5)
    else:
        H.eq("first part", parts[0], 0.4 * be)
    H.ge("parts", parts[0], 0.0)
    H.ge("parts", parts[1], parts[0], abs_=1e-6)


# ------------------------------------------------------------- shear
@job("E05", bounds="slenderness in [0,10], yield strength in [200,700]; both end posts")
def shear_factor(H):
    l = H.real("lw", 0.0, 10.0)
    fy = H.real("fy", 200.0, 700.0)
    eta = pl.shear_eta(fy)
    H.eq("eta", eta, 1.2 if fy <= 460 else 1.0)
    post = H.choice("post", ["rigid", "non-rigid"])
    c = pl.shear_buckling_reduction_factor(l, eta, post)
    if l * eta < 0.83:
        H.eq("plateau", c, eta)
    elif post == "rigid" and l >= 1.08:
        H.eq("rigid end post", c * (0.7 + l), 1.37)
    else:
        H.eq("curve", c * l, 0.83)
    H.check("positive", c > 0)
    H.le("at most eta", c, eta)


@job("E05", bounds="two slendernesses in [0,10]")
def shear_factor_order(H):
    a, b = H.real("l1", 0.0, 10.0), H.real("l2", 0.0, 10.0)
    H.assume(a <= b)
    eta = H.choice("eta", [1.0, 1.2])
    n = [pl.shear_buckling_reduction_factor(x, eta, "non-rigid") for x in (a, b)]
    r = [pl.shear_buckling_reduction_factor(x, eta, "rigid") for x in (a, b)]
    H.ge("non-rigid", n[0], n[1])
    H.ge("rigid", r[0], r[1], rel=2e-3)
    H.ge("rigid end post is not worse", r[0], n[0], rel=2e-3)


@job("E05", bounds="web height, stiffener spacing and thickness in [10,1e6], [10,1e6], [1,100]")
def shear_critical(H):
    h, a, t = H.real("hw", 10.0, 5000.0), H.real("a", 10.0, 1e6), H.real("t", 1.0, 100.0)
    fy = H.real("fy", 200.0, 700.0)
    k = pl.shear_buckling_coefficient(h, a)
    r = h / a
    H.eq("coefficient", k, 5.34 + 4 * r * r if a >= h else 4 + 5.34 * r * r)
    tau = pl.tau_crit(h, a, t, h, False)
    H.eq("critical stress", tau * h * h, k * 190000 * t * t)
    l = pl.shear_buckling_slenderness(fy, tau)
    H.eq("slenderness", l * l * tau, 0.76 * 0.76 * fy)
    chi = H.real("chi", 0.01, 1.2)
    v = pl.shear_buckling_web(chi, fy, h, t)
    w = v / (h * t)
    H.eq("web part", w * w * 3, chi * chi * fy * fy)
    H.ge("web part sign", v, 0.0)


@job("E05", bounds="flange 50..800 x 2..80 mm, web 100..4000 x 3..40 mm, spacing [100,1e6], moment ratio in [0,1]")
def shear_flanges(H):
    bf, tf = H.real("bf", 50.0, 800.0), H.real("tf", 2.0, 80.0)
    hw, tw = H.real("hw", 100.0, 4000.0), H.real("tw", 3.0, 40.0)
    a, r = H.real("a", 100.0, 1e6), H.real("rM", 0.0, 1.0)
    fyf, fyw = H.choice("fyf", [235, 355]), H.choice("fyw", [235, 355])
    v = pl.shear_buckling_flanges(bf, tf, fyf, a, hw, tw, fyw, r)
    c = 0.25 + 1.6 * bf * tf * tf * fyf / (tw * hw * hw * fyw)
    H.eq("flange part", v * a * c, bf * tf * tf * fyf * (1 - r * r))


# ------------------------------------------------------------- transverse forces
@job("E05", params=[dict(ltype=l) for l in "abc"],
     bounds="four webs (hw/tw 40..200) with flanges of any width 50..500 and thickness 5, 12, 40, bearing length [0,600] (type c: 0, 20, 90, 500), edge distance 0, 60, 300, spacing none or 0.5..10 hw")
def transverse(H, ltype):
    hw, tw = H.choice("web", [(400.0, 10.0), (600.0, 6.0), (1200.0, 6.0), (300.0, 3.0)])
    tf = H.choice("tf", [5.0, 12.0, 40.0])
    bf = H.real("bf", 50.0, 500.0)
    ss = H.choice("ss", [0.0, 20.0, 90.0, 500.0]) if ltype == "c" else H.real("ss", 0.0, 600.0)
    c = H.choice("c", [0.0, 60.0, 300.0]) if ltype == "c" else 0
    a = H.choice("a", [0, 0.5, 2.0, 10.0]) * hw if ltype != "c" else 0
    f1, f2 = H.choice("fy", [(235, 235), (355, 355), (235, 355)])
    F = pl.transverse_force_resistance(f1, hw, tw, f2, bf, tf, ss, a=a, ltype=ltype, c=c)
    H.observe("F", F)
    s = mn(ss, hw)
    x = hw / a if a else 1e-3
    if ltype == "a":
        kF = 6 + 2 * x * x
    elif ltype == "b":
        kF = 3.5 + 2 * x * x
    else:
        kF = mn(2 + 6 * (s + c) / hw, 6.0)
    Fcr = 0.9 * kF * E * tw ** 3 / hw
    m1 = f2 * bf / f1 / tw
    le = mn(0.5 * kF * E * tw ** 2 / f1 / hw, s + c)

    def length(m2):
        if ltype in "ab":
            return mn(s + 2 * tf * (1 + (m1 + m2) ** 0.5), a if a else 1000 * hw)
        return mn(le + tf * (0.5 * m1 + (le / tf) * (le / tf) + m2) ** 0.5, le + tf * (m1 + m2) ** 0.5)

    ly = length(0.0)
    q = ly * tw * f1 - 0.25 * Fcr
    H.assume((q >= 1e-6 * Fcr) | (q <= -1e-6 * Fcr))      # the rule jumps at this slenderness
    if q > 0:
        ly = length(0.02 * (hw / tf) ** 2)
    # F = ly fy tw chi, chi = min(0.5/lambda, 1)
    y = ly * f1 * tw
    H.le("squash load", F, y)
    if y <= 0.25 * Fcr:
        H.eq("no reduction", F, y)
    else:
        H.eq("reduced", F * F, 0.25 * y * Fcr)
    H.check("positive", F > 0)


# ------------------------------------------------------------- welded sections
WI = [(600.0, 6.0, 250.0, 12.0), (1200.0, 6.0, 300.0, 8.0), (1500.0, 8.0, 400.0, 10.0), (800.0, 12.0, 300.0, 20.0)]
MONO = [(900.0, 5.0, [300.0, 200.0], [8.0, 15.0]), (1400.0, 7.0, [250.0, 350.0], [20.0, 7.0])]


def eff_flange(b, tw, t, aw, eps):
    c = 0.5 * (b - tw) - sqrt(2) * aw
    l = c / t / 28.4 / eps / sqrt(0.43)
    return c, (1.0 if l <= 0.748 else (l - 0.188) / l / l)


@job("E05", bounds="web height 200..2000, web 4..20 mm, flange 100..600 x 5..30 mm, three grades; uniform compression")
def effective_area(H):
    h, tw = H.real("h", 200.0, 2000.0), H.choice("tw", [4.0, 8.0, 20.0])
    b, t = H.real("b", 100.0, 600.0), H.choice("tf", [5.0, 12.0, 30.0])
    fy = H.choice("fy", [235, 355, 420])
    H.assume(h >= 2 * t + 100)
    aw = 4.0
    s = WISection(h, tw, b, t, fy=fy, weld_throat=aw)
    eps = sqrt(235 / fy)
    A = s.Aeff
    H.observe("Aeff", A)
    w2 = sqrt(2) * aw
    cf = 0.5 * (b - tw) - w2
    cw = h - 2 * t - 2 * w2

    def gone(c, th, k, lim, d):
        """ineffective width (1 - rho) c"""
        f = 28.4 * eps * sqrt(k) * th
        l = c / f
        if l <= lim:
            return 0.0
        # rho c = (l - d)/l^2 c = f (1 - d f / c)
        return mx(c - f * (1 - d * f / c), 0.0)

    g = gone(cw, tw, 4.0, 0.5 + sqrt(0.03), 0.22)
    gf = gone(cf, t, 0.43, 0.748, 0.188)
    H.eq("effective area", A, 2 * b * t + (h - 2 * t) * tw - g * tw - 4 * gf * t, rel=1e-5)
    H.le("not above the gross area", A, s.A)


@job("E05", params=[dict(size=i) for i in range(len(WI) + len(MONO))], bounds="six welded sections, stiffener spacing in [200,1e5], bearing length in [0,500]; both end posts, four moments and three axial forces")
def girder(H, size):
    dims = (WI + MONO)[size]
    s = WISection(*dims, fy=355)
    a = H.real("a", 200.0, 1e5)
    post = H.choice("post", ["rigid", "non-rigid"])
    rN = H.choice("N", [0.0, -0.3, 0.2])
    rM = H.choice("M", [0.0, 0.6, -0.6, 0.97])
    fl = (s.At + s.Ab) * 355
    s.Ned = rN * fl
    H.eq("moment of the flanges", s.MfRd, (s.h - 0.5 * (s.tt + s.tb)) * min(s.bt * s.tt, s.bb * s.tb) * 355)
    s.Med = [rM * (1 - abs(rN)) * s.MfRd, 0.0]
    V = s.shear_buckling_resistance(stiffener_spacing=a, end_post=post)
    H.observe("V", V)
    hw, tw = s.hw, s.tw
    eps = sqrt(235 / 355)
    plastic = 355 * hw * tw / sqrt(3)
    if hw / tw < 72 * eps / 1.2:
        H.eq("no buckling", V, s.VRd)
        return
    # the rules of the other jobs applied to this web and to the weaker flange
    chi = pl.shear_buckling_reduction_factor(pl.shear_buckling_slenderness(355, pl.tau_crit(hw, a, tw, hw, False)), 1.2, post)
    top = s.bt * s.tt <= s.bb * s.tb
    bf, tf = (s.bt, s.tt) if top else (s.bb, s.tb)
    bf = min(bf, 30 * eps * tf + tw)
    Vf = pl.shear_buckling_flanges(bf, tf, 355, a, hw, tw, 355, abs(rM))
    H.eq("resistance", V, mn(chi * plastic + Vf, 1.2 * plastic), rel=1e-5)
    ss = H.real("ss", 0.0, 500.0)
    F = s.transverse_load_resistance(bearing_length=ss, load_type="a", stiffener_spacing=0.0)
    H.eq("transverse", F, pl.transverse_force_resistance(355, hw, tw, 355, s.bt, s.tt, ss, ltype="a"))
