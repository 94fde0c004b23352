"""Steel cross-sections: geometry (S01, S02), classification (S03), resistances (S04)."""
from math import pi, sqrt

from symx.registry import job
import metku.eurocodes.en1993.en1993_1_1 as ec
from metku.sections.steel.RHS import RHS, SHS
from metku.sections.steel.CHS import CHS, CustomCHS
from metku.sections.steel.ISection import ISection, IPE, HEA, HEB
from metku.sections.steel.wi import WISection
from metku.sections.steel.wq import WQSection
from metku.profiles.steel.isections import ISection as ProfI

GRADES = [235, 275, 355, 420, 500, 700]


def mx(a, b):
    return a if a >= b else b


def mn(a, b):
    return a if a <= b else b


# ---------------------------------------------------------------- reference geometry
def rr_area(H, B, R):
    return H * B - (4 - pi) * R * R


def rr_I(H, B, R):
    """second moment of a rounded rectangle about its horizontal axis"""
    sq = R ** 4 / 12 + R * R * (H / 2 - R / 2) ** 2
    qc = (pi / 16 - 4 / (9 * pi)) * R ** 4 + pi / 4 * R * R * (H / 2 - R + 4 * R / (3 * pi)) ** 2
    return H ** 3 * B / 12 - 4 * (sq - qc)


def rr_S(H, B, R):
    """sum of |z| dA"""
    sq = R * R * (H / 2 - R / 2)
    qc = pi / 4 * R * R * (H / 2 - R + 4 * R / (3 * pi))
    return H * H * B / 4 - 4 * (sq - qc)


def rhs_dims(H, suf="", square=False, Tlo=2.0, Thi=16.0):
    h = H.real("H" + suf, 30.0, 500.0)
    b = h if square else H.real("B" + suf, 30.0, 500.0)
    T = H.real("T" + suf, Tlo, Thi)
    R = 2 * T if T <= 6 else (2.5 * T if T <= 10 else 3 * T)
    H.assume(h >= 2 * R)
    H.assume(b >= 2 * R)
    return h, b, T, R


def check_rhs(H, s, h, b, T, R, tag=""):
    r = R - T
    A = rr_area(h, b, R) - rr_area(h - 2 * T, b - 2 * T, r)
    Iy = rr_I(h, b, R) - rr_I(h - 2 * T, b - 2 * T, r)
    Iz = rr_I(b, h, R) - rr_I(b - 2 * T, h - 2 * T, r)
    H.eq(tag + "radius", s.R, R)
    H.eq(tag + "area", s.A, A)
    H.eq(tag + "Iy", s.I[0], Iy)
    H.eq(tag + "Iz", s.I[1], Iz)
    H.eq(tag + "Iy property", s.Iy, Iy)
    H.eq(tag + "Wely", s.Wel[0] * h / 2, Iy)
    H.eq(tag + "Welz", s.Wel[1] * b / 2, Iz)
    H.eq(tag + "Wply", s.Wpl[0], rr_S(h, b, R) - rr_S(h - 2 * T, b - 2 * T, r))
    H.eq(tag + "Wplz", s.Wpl[1], rr_S(b, h, R) - rr_S(b - 2 * T, h - 2 * T, r))
    H.eq(tag + "perimeter", s.Au, 2 * (h + b) - (8 - 2 * pi) * R)
    H.eq(tag + "shear area z", s.Ashear[1] * (h + b), A * h)
    H.eq(tag + "shear area y", s.Ashear[0] * (h + b), A * b)
    H.eq(tag + "weight", s.weight(), A * 7850e-9, abs_=0)
    H.eq(tag + "straight web", s.c_web, h - 2 * R)
    H.eq(tag + "straight flange", s.c_flange, b - 2 * R)
    # EN 10219-2 torsional inertia
    Rc = (R + r) / 2
    p = 2 * ((b - T) + (h - T)) - 2 * Rc * (4 - pi)
    Ah = (b - T) * (h - T) - Rc * Rc * (4 - pi)
    H.eq(tag + "It", s.It, T ** 3 * p / 3 + 4 * Ah * Ah * T / p)
    H.eq(tag + "section factor", s.section_factor * s.A, s.Au * 1e3)


@job("S01", bounds="H,B in [30,500], T in [2,16] mm, straight parts non-negative")
def rhs_geometry(H):
    h, b, T, R = rhs_dims(H)
    check_rhs(H, RHS(h, b, T), h, b, T, R)


@job("S01", bounds="H in [30,500], T in [2,16] mm")
def shs_geometry(H):
    h, b, T, R = rhs_dims(H, square=True)
    s = SHS(h, T)
    check_rhs(H, s, h, h, T, R)
    H.eq("Iy=Iz", s.I[0], s.I[1])


@job("S01", params=[dict(order=o) for o in ("HBT", "TBH", "BHT", "T", "B", "H")],
     bounds="a 100x80x4 section changed to any H,B in [30,500], T in [2,16]")
def rhs_update(H, order):
    """assigning dimensions one after the other gives the properties of a new section"""
    h0, b0, t0 = 100.0, 80.0, 4.0
    h = H.real("H", 40.0, 500.0) if "H" in order else h0
    b = H.real("B", 40.0, 500.0) if "B" in order else b0
    T = H.real("T", 2.0, 16.0) if "T" in order else t0
    R = 2 * T if T <= 6 else (2.5 * T if T <= 10 else 3 * T)
    H.assume(h >= 2 * R)
    H.assume(b >= 2 * R)
    s = RHS(h0, b0, t0)
    for k in order:
        setattr(s, k, dict(H=h, B=b, T=T)[k])
    check_rhs(H, s, h, b, T, R)
    H.eq("depth", s.h, h)
    H.eq("width", s.b, b)
    H.eq("wall", s.t, T)


def check_chs(H, s, D, T):
    d = D - 2 * T
    A = pi / 4 * (D * D - d * d)
    I = pi / 64 * (D ** 4 - d ** 4)
    H.eq("area", s.A, A)
    H.eq("perimeter", s.Au, pi * D)
    for i in (0, 1):
        H.eq(f"I[{i}]", s.I[i], I)
        H.eq(f"Wel[{i}]", s.Wel[i] * D / 2, I)
        H.eq(f"Wpl[{i}]", s.Wpl[i], (D ** 3 - d ** 3) / 6)
        H.eq(f"shear area[{i}]", s.Ashear[i], 2 * A / pi)
    H.eq("polar", s.It, 2 * I)
    H.eq("iy", s.iy() * s.iy() * A, I)
    H.eq("weight", s.weight(), A * 7850e-9, abs_=0)


@job("S01", bounds="D in [20,1000], T in [1, D/2)")
def chs_geometry(H):
    D = H.real("D", 20.0, 1000.0)
    T = H.real("T", 1.0, 60.0)
    H.assume(2 * T < D - 0.5)
    check_chs(H, CHS(D, T), D, T)


@job("S01", bounds="D in [20,1000], T in [1, D/2), from a 100x5 tube")
def chs_update(H):
    D = H.real("D", 20.0, 1000.0)
    T = H.real("T", 1.0, 60.0)
    H.assume(2 * T < D - 0.5)
    s = CustomCHS(100.0, 5.0)
    s.D = D
    s.T = T
    check_chs(H, s, D, T)


# ---------------------------------------------------------------- S02
def i_ref(h, b, tf, tw, r):
    """exact geometry of a rolled I-section"""
    a = (1 - pi / 4) * r * r                     # fillet
    x = r * (10 - 3 * pi) / (12 - 3 * pi)        # its centroid from the corner
    own = (1 - 5 * pi / 16 - (1 - pi / 4) * ((10 - 3 * pi) / (12 - 3 * pi)) ** 2) * r ** 4
    hi = h - 2 * tf
    return dict(A=2 * b * tf + hi * tw + 4 * a,
                P=4 * b - 2 * tw + 2 * h - 8 * r + 2 * pi * r,
                Iy=(b * h ** 3 - (b - tw) * hi ** 3) / 12 + 4 * own + 4 * a * (hi / 2 - x) ** 2,
                Iz=(2 * tf * b ** 3 + hi * tw ** 3) / 12 + 4 * own + 4 * a * (tw / 2 + x) ** 2,
                Wply=tw * hi * hi / 4 + b * tf * (h - tf) + 4 * a * (hi / 2 - x),
                Wplz=b * b * tf / 2 + hi * tw * tw / 4 + 4 * a * (tw / 2 + x),
                Avz=2 * b * tf + hi * tw + 4 * a - 2 * b * tf + (tw + 2 * r) * tf,
                Iw=tf * b ** 3 / 24 * (h - tf) ** 2)


def sci_it(h, b, tf, tw, r):
    a1 = -0.042 + 0.2204 * tw / tf + 0.1355 * r / tf - 0.0865 * r * tw / tf ** 2 - 0.0725 * (tw / tf) ** 2
    D1 = ((tf + r) ** 2 + (r + 0.25 * tw) * tw) / (2 * r + tf)
    return (2 * b * tf ** 3 + (h - 2 * tf) * tw ** 3) / 3 + 2 * a1 * D1 ** 4 - 4 * 0.105 * tf ** 4


def i_dims(H):
    tf = H.real("tf", 5.0, 140.0)
    tw = H.real("tw", 3.0, 100.0)
    r = H.real("r", 3.0, 40.0)
    h = H.real("straight_web", 5.0, 900.0) + 2 * tf + 2 * r
    b = H.real("straight_flanges", 5.0, 400.0) + tw + 2 * r
    return h, b, tf, tw, r


@job("S02", bounds="tf in [5,140], tw in [3,100], r in [3,40], straight web in [5,900], straight flanges in [5,400]")
def rolled_geometry(H):
    h, b, tf, tw, r = i_dims(H)
    s = ISection(h, b, tf, tw, r, fy=355)
    R = i_ref(h, b, tf, tw, r)
    H.eq("area", s.A, R["A"])
    H.eq("perimeter", s.Au, R["P"])
    H.eq("Iy", s.I[0], R["Iy"], rel=1e-3)
    H.eq("Iz", s.I[1], R["Iz"], rel=6e-3)
    H.eq("Wely", s.Wel[0] * h / 2, s.I[0])
    H.eq("Welz", s.Wel[1] * b / 2, s.I[1])
    H.eq("Wply", s.Wpl[0], R["Wply"])
    H.eq("Wplz", s.Wpl[1], R["Wplz"])
    H.eq("Avz", s.Ashear[1], R["Avz"])
    H.eq("Avy", s.Ashear[0], 2 * b * tf)
    H.eq("Iw", s.Iw, R["Iw"])
    H.eq("It", s.It, sci_it(h, b, tf, tw, r), scale=h * tf ** 3 + b * tf ** 3)
    H.eq("straight web", s.hw, h - 2 * tf - 2 * r)
    H.eq("straight flange", s.cf, (b - tw) / 2 - r)
    H.eq("weight", s.weight(), R["A"] * 7850e-9, abs_=0)
    H.eq("box factor", s.box_section_factor * s.A, 2e3 * (b + h))
    H.eq("shadow effect", s.shadow_effect() * s.section_factor, 0.9 * s.box_section_factor)


@job("S02", bounds="same sizes as rolled_geometry")
def profile_geometry(H):
    h, b, tf, tw, r = i_dims(H)
    p = ProfI("x", h, b, tw, tf, r)
    R = i_ref(h, b, tf, tw, r)
    H.eq("area", p.A, R["A"])
    H.eq("perimeter", p.P, R["P"])
    H.eq("Iy", p.Iy, R["Iy"], rel=1e-3)
    H.eq("Iz", p.Iz, R["Iz"], rel=6e-3)
    H.eq("Wely", p.Wely * h / 2, p.Iy)
    H.eq("Welz", p.Welz * b / 2, p.Iz)
    H.eq("Wply", p.Wply, R["Wply"])
    H.eq("Wplz", p.Wplz, R["Wplz"])
    H.eq("Avz", p.Avz, R["Avz"])
    H.eq("Iw", p.Iw, R["Iw"])
    H.eq("It", p.It, sci_it(h, b, tf, tw, r), scale=h * tf ** 3 + b * tf ** 3)


def wi_dims(H, mono, t=None):
    tw = H.real("tw", 3.0, 40.0)
    bt = H.real("bt", 60.0, 800.0)
    tt = t[0] if t else H.real("tt", 5.0, 80.0)
    bb = H.real("bb", 60.0, 800.0) if mono else bt
    tb = t[1] if t else (H.real("tb", 5.0, 80.0) if mono else tt)
    h = H.real("web", 20.0, 2000.0) + tt + tb
    return h, tw, bt, tt, bb, tb


def check_wi(H, s, h, tw, bt, tt, bb, tb, light=False):
    hw = h - tt - tb
    At, Ab, Aw = bt * tt, bb * tb, hw * tw
    A = At + Ab + Aw
    H.eq("area", s.A, A)
    H.eq("perimeter", s.Au, 2 * bt + 2 * bb + 2 * tt + 2 * tb + 2 * hw - 2 * tw)
    z = s.elastic_neutral_axis()
    H.eq("first moment about the centroid", At * (h - tt / 2 - z) + Aw * (tb + hw / 2 - z), Ab * (z - tb / 2),
         scale=A * h)
    # second moment by the corner formula  sum b (z2^3-z1^3)/3 about the bottom, then Steiner
    I0 = (bb * tb ** 3 + tw * ((h - tt) ** 3 - tb ** 3) + bt * (h ** 3 - (h - tt) ** 3)) / 3
    Q = (bb * tb ** 2 + tw * ((h - tt) ** 2 - tb ** 2) + bt * (h ** 2 - (h - tt) ** 2)) / 2
    I = s.I
    H.eq("Iy", I[0] * A, I0 * A - Q * Q)
    H.eq("Iz", I[1], (tb * bb ** 3 + tt * bt ** 3 + hw * tw ** 3) / 12)
    W = s.Wel
    H.eq("Welz", W[1] * mx(bt, bb) / 2, I[1])
    H.eq("Wely", W[0] * mx(z, h - z), I[0])
    H.eq("It", s.It, (bt * tt ** 3 + bb * tb ** 3 + hw * tw ** 3) / 3)
    H.eq("web height", s.hw, hw)
    H.eq("Av", s.Ashear[1], (1.2 if s.fy <= 460 else 1.0) * hw * tw)
    H.eq("Wplz", s.Wpl[1], (bb * bb * tb + bt * bt * tt + hw * tw * tw) / 4)


@job("S02", params=[dict(mono=False), dict(mono=True)],
     bounds="b in [60,800], tf in [5,80], tw in [3,40], web in [20,2000]")
def welded_geometry(H, mono):
    d = wi_dims(H, mono)
    h, tw, bt, tt, bb, tb = d
    s = WISection(h, tw, [bt, bb], [tt, tb]) if mono else WISection(h, tw, bt, tt)
    check_wi(H, s, *d)
    if not mono:
        H.eq("Iw", s.Iw, (tt * bt ** 3 / 12) * (1 - (tt * bt ** 3 / 12) / s.I[1]) * (h - tt) ** 2)


@job("S02", params=[dict(t=t, b=b, web=w) for t in ((12.0, 20.0), (30.0, 8.0), (10.0, 10.0)) for b in ((250.0, None), (None, 180.0), (200.0, "same")) for w in ((8.0, 300.0), (12.0, 900.0))],
     bounds="welded sections with three pairs of flange thicknesses, one flange width (or both) in [60,600]; webs 300x8 and 900x12")
def welded_shear_centre(H, t, b, web):
    """shear centre, Wagner's factor and warping constant of monosymmetric sections from their integrals"""
    (tt, tb), (tw, hw) = t, web
    bt = b[0] if b[0] is not None else H.real("bt", 60.0, 600.0)
    bb = b[1] if b[1] not in (None, "same") else H.real("bb", 60.0, 600.0)
    if b[1] == "same":
        bt, tb = bb, tt
    h = hw + tt + tb
    s = WISection(h, tw, [bt, bb], [tt, tb])
    It, Ib, Iw = tt * bt ** 3 / 12, tb * bb ** 3 / 12, hw * tw ** 3 / 12
    Iz = It + Ib + Iw
    A = bt * tt + bb * tb + hw * tw
    # centroid from the bottom
    z = (bt * tt * (h - tt / 2) + bb * tb * tb / 2 + hw * tw * (tb + hw / 2)) / A
    H.eq("shear centre", s.zs * Iz, It * (h - tt / 2 - z) + Ib * (tb / 2 - z) + Iw * (tb + hw / 2 - z), scale=Iz * h)
    # integral of (y^2 + z^2) z over the plates, by the corner formula
    def cub(b0, z1, z2):
        return b0 * ((z2 - z) ** 4 - (z1 - z) ** 4) / 4 + b0 ** 3 / 12 * ((z2 - z) ** 2 - (z1 - z) ** 2) / 2
    J = cub(bb, 0.0, tb) + cub(tw, tb, tb + hw) + cub(bt, tb + hw, h)
    H.eq("Wagner's factor", 2 * s.I[0] * (s.zs - s.zj), J, scale=s.I[0] * h)
    hs = h - tt / 2 - tb / 2
    H.eq("Iw", s.Iw * Iz, It * (Iz - It) * hs * hs)
    if b[1] == "same":
        H.eq("doubly symmetric", s.zj, 0.0, scale=h)


@job("S02", params=[dict(mono=False)] + [dict(mono=True, t=t) for t in ((12.0, 20.0), (30.0, 8.0), (10.0, 10.0))],
     thorough_params=[dict(mono=True)], bounds="as welded_geometry")
def welded_plastic(H, mono, t=None):
    """the plastic neutral axis halves the area and Wpl is the static moment about it"""
    h, tw, bt, tt, bb, tb = wi_dims(H, mono, t)
    s = WISection(h, tw, [bt, bb], [tt, tb])
    At, Ab, hw = bt * tt, bb * tb, h - tt - tb
    A = At + Ab + hw * tw
    z = s.plastic_neutral_axis()
    W = s.Wpl[0]
    H.between("inside", 0.0, z, h)
    if z <= tb:
        below = bb * z
        sm = bb * (z * z + (tb - z) ** 2) / 2 + hw * tw * (tb + hw / 2 - z) + At * (h - tt / 2 - z)
    elif z <= h - tt:
        below = Ab + tw * (z - tb)
        sm = Ab * (z - tb / 2) + tw * ((z - tb) ** 2 + (h - tt - z) ** 2) / 2 + At * (h - tt / 2 - z)
    else:
        below = A - bt * (h - z)
        sm = Ab * (z - tb / 2) + hw * tw * (z - tb - hw / 2) + bt * ((h - z) ** 2 + (z - h + tt) ** 2) / 2
    H.eq("halves the area", 2 * below, A)
    H.eq("Wply", W, sm)


WI_SET = {"b": ("bt", "bb"), "tf": ("tt", "tb"), "h": ("h",), "tw": ("tw",), "bt": ("bt",), "bb": ("bb",),
          "tt": ("tt",), "tb": ("tb",), "hw": ("hw",)}


@job("S02", params=[dict(attrs=a) for a in ("h,tw,b,tf", "tf,b,tw,h", "bt", "bb", "tt", "tb", "hw", "bt,tt,tw,hw", "hw,tb,bb")],
     bounds="a 300x8 section with flanges 200x12/150x10 changed to any size in the ranges of welded_geometry")
def welded_update(H, attrs):
    cur = dict(h=300.0, tw=8.0, bt=200.0, tt=12.0, bb=150.0, tb=10.0)
    s = WISection(300.0, 8.0, [200.0, 150.0], [12.0, 10.0])
    rng = dict(h=(250.0, 2000.0), tw=(3.0, 40.0), b=(60.0, 800.0), tf=(5.0, 80.0), bt=(60.0, 800.0), bb=(60.0, 800.0),
               tt=(5.0, 80.0), tb=(5.0, 80.0), hw=(50.0, 1900.0))
    for k in attrs.split(","):
        v = H.real(k, *rng[k])
        setattr(s, k, v)
        if k == "hw":
            cur["h"] = v + cur["tt"] + cur["tb"]
        else:
            for t in WI_SET[k]:
                cur[t] = v
    check_wi(H, s, cur["h"], cur["tw"], cur["bt"], cur["tt"], cur["bb"], cur["tb"])


@job("S02", bounds="h in [100,800], lips non-negative, plates 5-60 mm")
def wq_geometry(H):
    h = H.real("h", 100.0, 800.0)
    tw = H.real("tw", 4.0, 20.0)
    bt = H.real("bt", 100.0, 500.0)
    bb = H.real("bb", 200.0, 900.0)
    tt = H.real("tt", 5.0, 60.0)
    tb = H.real("tb", 5.0, 60.0)
    H.assume(bb >= bt + 2 * tw)
    H.assume(h >= tt + 10)
    s = WQSection(h, tw, [bt, bb], [tt, tb])
    A = 2 * h * tw + bt * tt + bb * tb
    H.eq("area", s.A, A)
    z = s.elastic_neutral_axis()
    Q = bb * tb * tb / 2 + 2 * tw * h * (tb + h / 2) + bt * tt * (tb + h - tt / 2)
    H.eq("centroid", z * A, Q)
    I0 = (bb * tb ** 3 + 2 * tw * ((tb + h) ** 3 - tb ** 3) + bt * ((tb + h) ** 3 - (tb + h - tt) ** 3)) / 3
    H.eq("Iy", s.I[0] * A, I0 * A - Q * Q)
    Iz = (tb * bb ** 3 + tt * bt ** 3 + h * ((bt + 2 * tw) ** 3 - bt ** 3)) / 12
    H.eq("Iz", s.I[1], Iz)
    H.eq("Wely", s.Wel[0] * mx(z, h + tb - z), s.I[0])
    H.eq("Welz", s.Wel[1] * bb / 2, s.I[1])
    d = s.plastic_neutral_axis()
    if d >= 0 and d <= h - tt:
        H.eq("plastic axis", bt * tt + 2 * tw * (d + tt), bb * tb + 2 * tw * (h - tt - d), scale=A)
        zp = tb + h - tt - d
        H.eq("Wply", s.Wpl[0], bb * tb * (zp - tb / 2) + tw * (zp - tb) ** 2 + tw * (tb + h - zp) ** 2
             + bt * tt * (tb + h - tt / 2 - zp))


TABLE62 = [  # h/b>1.2, (limit on tf, curves <=S420, curves above)
    (True, 40, ("a", "b"), ("a0", "a0")), (True, 100, ("b", "c"), ("a", "a")),
    (False, 100, ("b", "c"), ("a", "a")), (False, 1e9, ("d", "d"), ("c", "c"))]


@job("S02", params=[dict(fy=f) for f in GRADES + ["S355", "S460M"]],
     bounds="h in [80,1100], b in [40,450], tf in [5,140] (at most 100 when h/b > 1.2)")
def rolled_curves(H, fy):
    """buckling curves of rolled I-sections (EN 1993-1-1 Table 6.2 and 6.5)"""
    h = H.real("h", 80.0, 1100.0)
    b = H.real("b", 40.0, 450.0)
    tf = H.real("tf", 5.0, 140.0)
    slender = bool(h > 1.2 * b)
    if slender:
        H.assume(tf <= 100)
    s = ISection(h, b, tf, 5.0, 3.0, fy=fy)
    hi = (fy if not isinstance(fy, str) else float(fy[1:4])) > 420
    for sl, lim, lo_c, hi_c in TABLE62:
        if sl == slender and tf <= lim:
            c = hi_c if hi else lo_c
            break
    H.same("curves", list(s.imp_factor), [ec.buckling_curve[c[0]], ec.buckling_curve[c[1]]])
    if h <= 2 * b:
        H.same("LT curves", (s.imp_factor_LT_gen, s.imp_factor_LT), (0.21, 0.34))
    else:
        H.same("LT curves", (s.imp_factor_LT_gen, s.imp_factor_LT), (0.34, 0.49))
    H.eq("fy", s.fy, float(fy[1:4]) if isinstance(fy, str) else fy)


# ---------------------------------------------------------------- S03
def by_limits(r, lims):
    for i, l in enumerate(lims):
        if r <= l:
            return i + 1
    return 4


def near(r, lims, tol=1e-9):
    """within rounding distance of a limit"""
    return [abs(r - l) > tol * (1 + l) for l in lims]


def classify_ok(H, label, r, lims, cls):
    for l in lims:
        H.assume(abs(r - l) > 1e-9 * l)
    H.same(label, cls, by_limits(r, lims))


@job("S03", bounds="c/t in [0.1,400], epsilon in [0.5,1.2]")
def part_classes(H):
    r = H.real("r", 0.1, 400.0)
    e = H.real("e", 0.5, 1.2)
    which = H.choice("part", ["bend", "comp", "out", "chs"])
    if which == "bend":
        classify_ok(H, "internal bending", r, [72 * e, 83 * e, 124 * e], ec.internal_part_in_bending(r, e))
    elif which == "comp":
        classify_ok(H, "internal compression", r, [33 * e, 38 * e, 42 * e], ec.internal_part_in_compression(r, e))
    elif which == "out":
        classify_ok(H, "outstand", r, [9 * e, 10 * e, 14 * e], ec.outstand_part_in_compression(r, e))
    else:
        classify_ok(H, "tube", r, [50 * e * e, 70 * e * e, 90 * e * e], ec.CHS_class(r, e))


def sqrt_lims(e, a, p):
    l1 = 396 * e / (13 * a - 1) if a > 0.5 else 36 * e / a
    l2 = 456 * e / (13 * a - 1) if a > 0.5 else 41.5 * e / a
    return l1, l2


@job("S03", bounds="c/t in [0.1,400], epsilon in [0.5,1.2], alpha in [0.01,1], psi in [-3,1]")
def part_comp_bend(H):
    r = H.real("r", 0.1, 400.0)
    e = H.real("e", 0.5, 1.2)
    a = H.real("a", 0.01, 1.0)
    p = H.real("p", -3.0, 1.0)
    C = ec.internal_part_comp_bend(r, e, a, p)
    l1, l2 = sqrt_lims(e, a, p)
    for l in (l1, l2):
        H.assume(abs(r - l) > 1e-9 * l)
    if r <= l1:
        H.same("class 1", C, 1)
    elif r <= l2:
        H.same("class 2", C, 2)
    else:
        if p > -1:
            l3 = 42 * e / (0.67 + 0.33 * p)
            H.assume(abs(r - l3) > 1e-9 * l3)
            H.same("class 3 or 4", C, 3 if r <= l3 else 4)
        else:
            # r <= 62 e (1-p) sqrt(-p), squared
            s = 62 * e * (1 - p)
            H.assume(abs(r * r - s * s * (-p)) > 1e-6)
            H.same("class 3 or 4, psi<=-1", C, 3 if r * r <= s * s * (-p) else 4)


@job("S03", bounds="c/t in [0.1,400], yield strengths in [100,1000] (epsilon up to 1.6)")
def part_by_fy(H):
    """limits scale with sqrt(235/fy)"""
    r = H.real("r", 0.1, 200.0)
    fy = H.real("fy", 100.0, 1000.0)
    e = ec.epsilon(fy)
    H.eq("epsilon", e * e * fy, 235.0)
    which = H.choice("part", ["comp", "out", "bend"])
    f, lims = dict(comp=(ec.internal_part_in_compression, (33, 38, 42)), out=(ec.outstand_part_in_compression, (9, 10, 14)),
                   bend=(ec.internal_part_in_bending, (72, 83, 124)))[which]
    C = f(r, e)
    q = r * r * fy / 235.0
    for l in lims:
        H.assume(abs(q - l * l) > 1e-6)
    H.same(which, C, by_limits(q, [l * l for l in lims]))


def eps(fy):
    return sqrt(235.0 / fy)


def comp_lims(c, e, lims):
    return by_limits(c, [l * e for l in lims])


def avoid(H, r, e, lims):
    for l in lims:
        H.assume(abs(r - l * e) > 1e-7)


@job("S03", params=[dict(fy=f, load=l) for f in GRADES for l in ("N", "M")],
     bounds="H,B in [30,500], T in [2,16]; S235..S700")
def rhs_class(H, fy, load):
    h, b, T, R = rhs_dims(H)
    s = RHS(h, b, T, fy=fy)
    e = eps(fy)
    rf, rw = (b - 2 * R) / T, (h - 2 * R) / T
    H.eq("epsilon", s.epsilon, e)
    avoid(H, rf, e, (33, 38, 42))
    cf = comp_lims(rf, e, (33, 38, 42))
    if load == "N":
        s.Ned = -H.real("N", 1.0, 1e7)
        avoid(H, rw, e, (33, 38, 42))
        H.same("compression", s.section_class(), max(cf, comp_lims(rw, e, (33, 38, 42))))
    else:
        m = H.real("M", -1e9, 1e9)
        H.assume(abs(m) > 1.0)
        s.Med[0] = m
        avoid(H, rw, e, (72, 83, 124))
        H.same("bending", s.section_class(), max(cf, comp_lims(rw, e, (72, 83, 124))))


@job("S03", name="rhs_comp_bend", params=[dict(fy=355)], finding="S03-1",
     bounds="H,B in [30,500], T in [2,16]; compression with bending")
def rhs_comp_bend(H, fy):
    """web of a hollow section in compression and bending is at least as slender as in bending"""
    h, b, T, R = rhs_dims(H)
    s = RHS(h, b, T, fy=fy)
    s.Ned = -H.real("N", 1.0, 1e7)
    s.Med[0] = H.real("M", 1.0, 1e9)
    rw = (h - 2 * R) / T
    avoid(H, rw, eps(fy), (72, 83, 124))
    H.check("web class", s.web_class_comp_bend(s.Ned) >= comp_lims(rw, eps(fy), (72, 83, 124)))


@job("S03", params=[dict(fy=f) for f in GRADES], bounds="D in [20,1000], T in [1,60], compression and/or bending")
def chs_class(H, fy):
    D = H.real("D", 20.0, 1000.0)
    T = H.real("T", 1.0, 60.0)
    H.assume(2 * T < D - 0.5)
    s = CHS(D, T, fy=fy)
    r, e2 = D / T, 235.0 / fy
    for l in (50, 70, 90):
        H.assume(abs(r - l * e2) > 1e-7)
    c = by_limits(r, [50 * e2, 70 * e2, 90 * e2])
    load = H.choice("load", ["N", "M", "NM", "T"])
    if "N" in load:
        s.Ned = -H.real("N", 1.0, 1e7)
    if "M" in load:
        s.Med[0] = H.real("M", 1.0, 1e9)
    if load == "T":
        s.Ned = H.real("NT", 1.0, 1e7)
        c = 1
    H.same("class", s.section_class(), c)


SIZES = {"RHS": [(200.0, 100.0, 6.3), (80.0, 80.0, 4.0), (150.0, 300.0, 12.5)],
         "CHS": [(168.3, 6.3), (508.0, 10.0)],
         "I": [(200.0, 100.0, 8.5, 5.6, 12.0), (290.0, 300.0, 14.0, 8.5, 27.0), (200.0, 186.0, 24.0, 14.5, 15.0),
               (600.0, 220.0, 10.0, 5.0, 12.0)],
         "WI": [(400.0, 8.0, 200.0, 15.0), (900.0, 6.0, 250.0, 20.0)]}


def sized(kind, i, fy):
    return dict(RHS=RHS, CHS=CHS, I=ISection, WI=WISection)[kind](*SIZES[kind][i], fy=fy)


def sizes(kinds=("RHS", "CHS", "I", "WI"), **k):
    return [dict(kind=q, size=i, **k) for q in kinds for i in range(len(SIZES[q]))]


@job("S03", params=[dict(fy=f, load=l) for f in (235, 355, 500) for l in ("N", "M", "T")] +
     [dict(fy=f, load=l, size=i) for f in (235, 355, 500) for l in ("NM", "NM-") for i in range(4)],
     bounds="tf in [5,140], tw in [3,100], r in [3,40], straight web in [5,900], straight flanges in [5,400]; "
     "compression, tension, bending; both together for four sizes")
def rolled_class(H, fy, load, size=None):
    h, b, tf, tw, r = i_dims(H) if size is None else SIZES["I"][size]
    s = ISection(h, b, tf, tw, r, fy=fy)
    e = eps(fy)
    cw, cf = h - 2 * tf - 2 * r, (b - tw) / 2 - r
    rw, rf = cw / tw, cf / tf
    if load == "T":
        s.Ned = H.real("N", 0.0, 1e7)
        s.Med[0] = H.choice("m", [0.0, 1e6, -1e6])
        H.assume(s.Ned > 1e-3 or s.Med[0] == 0)
        H.same("tension", s.section_class(), 1)
        return
    avoid(H, rf, e, (9, 10, 14))
    c = comp_lims(rf, e, (9, 10, 14))
    if load == "N":
        s.Ned = -H.real("N", 1.0, 1e7)
        avoid(H, rw, e, (33, 38, 42))
        H.same("compression", s.section_class(), max(c, comp_lims(rw, e, (33, 38, 42))))
    elif load == "M":
        m = H.real("M", -1e9, 1e9)
        H.assume(abs(m) > 1.0)
        s.Med[0] = m
        avoid(H, rw, e, (72, 83, 124))
        H.same("bending", s.section_class(), max(c, comp_lims(rw, e, (72, 83, 124))))
    else:
        N = H.real("N", 1.0, 1e7)
        m = H.real("M", 1.0, 1e9)
        s.Ned = -N
        s.Med[0] = m if load == "NM" else -m
        # plastic: share of the web in compression; elastic: ratio of the extreme fibre stresses
        a = mn((1 + N / (cw * tw * fy)) / 2, 1.0)
        sn, sm = N / s.A, m / s.Wel[0]
        p = (sn - sm) / (sn + sm)
        l1, l2 = sqrt_lims(e, a, p)
        for l in (l1, l2):
            H.assume(abs(rw - l) > 1e-6)
        if rw <= l1:
            k = 1
        elif rw <= l2:
            k = 2
        else:
            H.assume(p > -1 + 1e-6)
            l3 = 42 * e / (0.67 + 0.33 * p)
            H.assume(abs(rw - l3) > 1e-6)
            k = 3 if rw <= l3 else 4
        H.same("compression and bending", s.section_class(), max(c, k))


@job("S03", params=[dict(fy=f, load=l) for f in (235, 355, 500) for l in ("N", "M")],
     bounds="doubly symmetric welded sections b in [60,800], tf in [5,80], tw in [3,40], weld 3-12")
def welded_class(H, fy, load):
    h, tw, b, tf, _, _ = wi_dims(H, False)
    a = H.real("weld", 3.0, 12.0)
    s = WISection(h, tw, b, tf, fy=fy, weld_throat=a)
    e = eps(fy)
    cw, cf = h - 2 * tf - 2 * sqrt(2) * a, (b - tw) / 2 - sqrt(2) * a
    H.assume(cw >= 5)
    H.assume(cf >= 1)
    H.eq("web part", s.cw, cw)
    H.eq("flange part", s.cf_top, cf)
    rw, rf = cw / tw, cf / tf
    avoid(H, rf, e, (9, 10, 14))
    c = comp_lims(rf, e, (9, 10, 14))
    if load == "N":
        s.Ned = -H.real("N", 1.0, 1e7)
        avoid(H, rw, e, (33, 38, 42))
        H.same("compression", s.section_class(), max(c, comp_lims(rw, e, (33, 38, 42))))
    else:
        s.Med[0] = H.real("M", 1.0, 1e9)
        # half of the web compressed, psi = -1: limits 72, 83, 124
        avoid(H, rw, e, (72, 83, 124))
        for lo, hi in ((72, 72), (83, 83), (124, 42 / 0.34)):
            H.assume(rw < (lo - 0.7) * e or rw > (hi + 0.7) * e)
        H.same("bending", s.section_class(), max(c, comp_lims(rw, e, (72, 83, 124))))


@job("S03", params=[dict(fy=f, load=l) for f in (235, 355, 500) for l in ("N", "M", "M-")],
     bounds="monosymmetric welded sections: flanges 60..800 x 12 and 60..800 x 20 mm, tw in [3,40], web [300,1500] mm; compression or bending")
def welded_mono_flanges(H, fy, load):
    """the class of the compressed flanges when the web is stocky (bending) or by its own limits (compression)"""
    tw = H.real("tw", 3.0, 40.0) if load == "N" else 40.0
    bt, bb = H.real("bt", 60.0, 800.0), H.real("bb", 60.0, 800.0)
    hw = H.real("web", 300.0, 1500.0) if load == "N" else 500.0
    s = WISection(hw + 32, tw, [bt, bb], [12, 20], fy=fy, weld_throat=5)
    e = eps(fy)
    w = sqrt(2) * 5
    cs = [((bt - tw) / 2 - w) / 12, ((bb - tw) / 2 - w) / 20]
    for c in cs:
        H.assume(c >= 0.1)
        avoid(H, c, e, (9, 10, 14))
    k = [comp_lims(c, e, (9, 10, 14)) for c in cs]
    if load == "N":
        s.Ned = -H.real("N", 1.0, 1e7)
        rw = (hw - 2 * w) / tw
        avoid(H, rw, e, (33, 38, 42))
        H.same("compression", s.section_class(), max(*k, comp_lims(rw, e, (33, 38, 42))))
    else:
        m = H.real("M", 1.0, 1e9)
        s.Med[0] = m if load == "M" else -m
        H.same("bending", s.section_class(), k[0] if load == "M" else k[1])


WELDED = [(600.0, 6.0, (250.0, 250.0), (15.0, 15.0)), (900.0, 8.0, (250.0, 300.0), (20.0, 20.0)), (700.0, 10.0, (300.0, 200.0), (15.0, 20.0)),
          (1200.0, 12.0, (300.0, 360.0), (20.0, 20.0))]


@job("S03", params=[dict(fy=f, size=i, load=l) for f in (235, 355, 500) for i in range(4) for l in ("M", "M-", "NM", "NM-")],
     bounds="four welded sections, three of them monosymmetric; any bending moment, any compression")
def welded_web(H, fy, size, load):
    """web in bending and in compression and bending: plastic and elastic stress distribution of the forces"""
    h, tw, b, t = WELDED[size]
    s = WISection(h, tw, list(b), list(t), fy=fy, weld_throat=4)
    e, w = eps(fy), sqrt(2) * 4
    hw = h - t[0] - t[1]
    cw = hw - 2 * w
    A = b[0] * t[0] + b[1] * t[1] + hw * tw
    zel = (b[0] * t[0] * (h - t[0] / 2) + b[1] * t[1] ** 2 / 2 + hw * tw * (t[1] + hw / 2)) / A
    I = (b[0] * t[0] ** 3 / 12 + b[0] * t[0] * (h - t[0] / 2 - zel) ** 2 + b[1] * t[1] ** 3 / 12 + b[1] * t[1] * (zel - t[1] / 2) ** 2 +
         tw * hw ** 3 / 12 + hw * tw * (t[1] + hw / 2 - zel) ** 2)
    # plastic axis in the web
    zpl = t[1] + (A / 2 - b[1] * t[1]) / tw
    a = (h - t[0] - w - zpl) / cw
    N = H.real("N", 1.0, 1e7) if "N" in load else 0.0
    m = H.real("M", 1.0, 1e9)
    hog = load.endswith("-")
    s.Ned, s.Med[0] = -N, -m if hog else m
    if hog:
        a = 1 - a
    if "N" in load:
        a = mn(a + N / (2 * tw * fy * cw), 1.0)
    # elastic stresses at the edges of the web: the flanges or the welds
    ps = []
    for q in (0.0, w):
        top, bot = (-1 if hog else 1) * (h - t[0] - q - zel), (-1 if hog else 1) * (t[1] + q - zel)
        st, sb = N / A + m * top / I, N / A + m * bot / I
        if hog:
            st, sb = sb, st
        ps.append(sb / st)
    kf = [comp_lims(((b[i] - tw) / 2 - w) / t[i], e, (9, 10, 14)) for i in (0, 1)]
    edge = N / A - m * (h - zel - t[0] / 2 if hog else zel - t[1] / 2) / I
    H.assume((edge > 1e-3) | (edge < -1e-3))
    kf = max(kf) if edge > 0 else kf[1 if hog else 0]
    r = cw / tw
    l1, l2 = sqrt_lims(e, a, 0)
    for l in (l1, l2):
        H.assume(abs(r - l) > 1e-6)
    if r <= l1:
        k = 1
    elif r <= l2:
        k = 2
    else:
        ks = []
        for p in ps:
            # either formula within 1% of psi = -1
            if p > -1.01:
                l = 42 * e / (0.67 + 0.33 * p)
                H.assume(abs(r - l) > 1e-5 * l)
                ks.append(3 if r <= l else 4)
            if p < -0.99:
                x = 62 * e * (1 - p)
                q = x * x * (-p)
                H.assume(abs(r * r - q) > 1e-5 * q)
                ks.append(3 if r * r <= q else 4)
        # both edges give the same class
        H.assume(len(set(ks)) == 1)
        k = ks[0]
    H.same("class", s.section_class(), max(kf, k))


# ---------------------------------------------------------------- S04
def make(H, kind, fy):
    if kind == "RHS":
        h, b, T, R = rhs_dims(H, Tlo=4.0)
        return RHS(h, b, T, fy=fy)
    if kind == "CHS":
        D = H.real("D", 20.0, 1000.0)
        T = H.real("T", 2.0, 60.0)
        H.assume(2 * T < D - 0.5)
        return CHS(D, T, fy=fy)
    if kind == "I":
        h, b, tf, tw, r = i_dims(H)
        return ISection(h, b, tf, tw, r, fy=fy)
    h, tw, bt, tt, bb, tb = wi_dims(H, False)
    return WISection(h, tw, bt, tt, fy=fy)


@job("S04", params=[dict(kind=k, fy=f) for k in ("RHS", "CHS", "I", "WI") for f in (235, 355, 420)],
     bounds="sizes as in S01/S02; tension or no axial force, so the section is class 1")
def plain_resistances(H, kind, fy):
    s = make(H, kind, fy)
    H.eq("compression", s.NRd, s.A * fy)
    H.eq("axial", s.axial_force_resistance(), s.A * fy)
    for ax, i in (("y", 0), ("z", 1)):
        H.eq("elastic " + ax, s.elastic_bending_resistance(ax), s.Wel[i] * fy)
        H.eq("plastic " + ax, s.plastic_bending_resistance(ax), s.Wpl[i] * fy)
        for C in (1, 2, 3):
            M, cc = s.bending_resistance(C=C, axis=ax)
            H.eq(f"bending {ax} class {C}", M, (s.Wpl[i] if C < 3 else s.Wel[i]) * fy)
            H.same("class returned", cc, C)
        if kind != "WI" or ax == "z":
            pass
    H.eq("MyRd", s.MyRd, s.Wpl[0] * fy)
    H.eq("MzRd", s.MzRd, s.Wpl[1] * fy)
    H.eq("MRd", s.MRd, s.Wpl[0] * fy)
    V = s.VzRd
    H.eq("shear z", V * V * 3, (s.Ashear[1] * fy) * (s.Ashear[1] * fy))
    H.eq("shear", s.VRd, V)
    H.eq("shear resistance z", s.shear_force_resistance(C=1, axis="z"), V)
    if kind != "WI":
        V = s.VyRd
        H.eq("shear y", V * V * 3, (s.Ashear[0] * fy) * (s.Ashear[0] * fy))
        H.eq("shear resistance y", s.shear_force_resistance(C=1, axis="y"), V)
    H.ge("plastic at least elastic y", s.Wpl[0], s.Wel[0])
    H.ge("plastic at least elastic z", s.Wpl[1], s.Wel[1])


@job("S04", params=sizes(), bounds="listed sizes scaled by any yield strength grade")
def gyration(H, kind, size):
    s = sized(kind, size, H.choice("fy", [235, 275, 355, 420, 500, 700]))
    H.eq("radius of gyration y", s.iy() * s.iy() * s.A, s.I[0])
    H.eq("radius of gyration z", s.iz() * s.iz() * s.A, s.I[1])


@job("S04", params=[dict(axis=a, **d) for d in sizes() for a in "yz" if (d["kind"], a) != ("WI", "z")],
     bounds="11 section sizes, tension up to twice the resistance, moments and shear of either sign up to twice")
def utilisation(H, kind, size, axis):
    """tension: the section is class 1; EN 1993-1-1 6.2.9"""
    fy = 355
    s = sized(kind, size, fy)
    n = H.real("n", 0.0, 2.0) if kind != "CHS" else H.choice("n", [0.0, 0.05, 0.3, 0.6, 0.95, 1.4])
    m = H.real("m", -2.0, 2.0)
    v = H.real("v", -2.0, 2.0)
    H.assume(abs(n - 1) > 1e-6)
    i = 0 if axis == "y" else 1
    M = s.Wpl[i] * fy
    s.Ned = n * s.A * fy
    s.Med[i] = m * M
    V = s.VzRd if axis == "y" else s.VyRd
    s.Ved[1 - i] = v * V
    H.assume(n >= 1e-6 or i == 1)
    UN, UV, UM, UMN = s.section_resistance(axis=axis)
    H.eq("axial", UN, n)
    H.eq("shear", UV, abs(v))
    H.eq("bending", UM, abs(m))
    if kind == "CHS":
        pass
    else:
        if kind == "RHS":
            aw = mn((s.A - 2 * s.B * s.T) / s.A, 0.5)
        elif kind == "I":
            aw = mn((s.A - 2 * s.b * s.tf) / s.A, 0.5)
        else:
            aw = mn((s.A - s.bt * s.tt - s.bb * s.tb) / s.A, 0.5)
        if n > 1:
            H.eq("beyond axial resistance", UMN, n + abs(m))
        else:
            H.eq("combined", UMN * mn((1 - n) / (1 - 0.5 * aw), 1.0), abs(m))
    H.ge("combined at least bending alone", UMN, abs(m))
    r = s.section_resistance(axis=axis, return_list=False)
    for x in (UN, UV, UM, UMN):
        H.ge("largest", r, x)
    H.check("is one of them", (r == UN) | (r == UV) | (r == UM) | (r == UMN) if hasattr(r == UN, "__or__") else
            r in (UN, UV, UM, UMN))


CLASSED = [("RHS", (200.0, 100.0, 6.3)), ("RHS", (250.0, 250.0, 6.0)), ("RHS", (300.0, 300.0, 5.0)), ("CHS", (168.3, 6.3)), ("CHS", (500.0, 6.0)),
           ("I", (200.0, 200.0, 15.0, 9.0, 18.0)), ("I", (600.0, 220.0, 10.0, 5.0, 12.0)), ("I", (400.0, 300.0, 10.0, 9.0, 10.0)),
           ("WI", (300.0, 10.0, 200.0, 15.0)), ("WI", (500.0, 10.0, 300.0, 15.0))]


@job("S04", params=[dict(which=i, axis=a, hog=g) for i in range(len(CLASSED)) for a in "yz" for g in (0, 1) if (CLASSED[i][0], a) != ("WI", "z")],
     bounds="ten section sizes of classes 1 to 4 in compression, compression up to twice the resistance, moments of either sign and shear up to twice")
def utilisation_compressed(H, which, axis, hog):
    """compression: the modulus follows the class (elastic also in class 4 of hollow and rolled sections)"""
    kind, d = CLASSED[which]
    fy = 355
    s = dict(RHS=RHS, CHS=CHS, I=ISection, WI=WISection)[kind](*d, fy=fy)
    n, m, v = H.real("n", 0.01, 2.0), H.real("m", 0.01, 2.0), H.real("v", -2.0, 2.0)
    if kind == "CHS":
        n = H.choice("nc", [0.05, 0.3, 0.6, 0.95, 1.4])
    H.assume(abs(n - 1) > 1e-6)
    i = 0 if axis == "y" else 1
    s.Ned = -n * s.A * fy
    s.Med[i] = (-1 if hog else 1) * m * s.Wpl[i] * fy
    V = s.VzRd if axis == "y" else s.VyRd
    s.Ved[1 - i] = v * V
    C = s.section_class()
    H.same("class", s.C, C)
    W = s.Wpl[i] if C < 3 else s.Wel[i]
    if kind == "WI":
        H.assume(C < 4)
    H.eq("axial resistance", s.axial_force_resistance(), s.A * fy)
    H.eq("bending resistance", s.bending_resistance(axis=axis)[0], W * fy)
    UN, UV, UM, UMN = s.section_resistance(axis=axis)
    M = m * s.Wpl[i] / W
    H.eq("axial", UN, n)
    H.eq("shear", UV, abs(v))
    H.eq("bending", UM, M)
    if C > 2 or n > 1:
        H.eq("sum", UMN, n + M)
    elif kind != "CHS":
        fl = 2 * s.B * s.T if kind == "RHS" else 2 * s.b * s.tf if kind == "I" else s.bt * s.tt + s.bb * s.tb
        H.eq("combined", UMN * mn((1 - n) / (1 - 0.5 * mn((s.A - fl) / s.A, 0.5)), 1.0), M)
    H.ge("combined at least bending alone", UMN, M)


@job("S04", params=[dict(t=t, free=f) for t in ((12, 12), (8, 20)) for f in range(4)],
     bounds="welded section of class 4: one of: top flange 100..800 mm, bottom flange 100..800 mm, web 500..2000 x 6 mm, effective widths of the web at will")
def effective_section(H, t, free):
    """effective section: full tension flange, reduced compressed flange, two parts of the web; whatever was calculated before"""
    bt = H.real("bt", 100.0, 800.0) if free == 0 else 450.0
    bb = H.real("bb", 100.0, 800.0) if free == 1 else 350.0
    hw = H.real("web", 500.0, 2000.0) if free == 2 else 1200.0
    h = hw + t[0] + t[1]
    s = WISection(h, 6.0, [bt, bb], list(t), fy=355, weld_throat=4)
    w = sqrt(2) * 4
    e1, hole = (H.real("e1", 10.0, 200.0), H.real("hole", 0.0, 300.0)) if free == 3 else (130.0, 90.0)

    def web(psi=None, verb=False):
        s.eff_web.update(rho=0.5, be=[e1, 1.5 * e1], bc=0.5 * hw, bneg=hole)
        return 2.5 * e1
    s.effective_web = web
    if H.flag("before"):
        s.effective_area()
    W = s.W_eff_y
    I = s.I_eff_y
    c = (bt - 6.0) / 2 - w
    lp = c / t[0] / (28.4 * eps(355) * sqrt(0.43))
    rho = 1.0 if lp <= 0.748 else mn((lp - 0.188) / (lp * lp), 1.0)
    be = bt - 2 * (1 - rho) * c
    lo, up = t[1], h - t[0]
    P = [(be, up, h), (bb, 0.0, lo), (6.0, up - w - e1, up), (6.0, lo, up - w - e1 - hole)]
    A = sum(b * (z2 - z1) for b, z1, z2 in P)
    Q = sum(b * (z2 * z2 - z1 * z1) / 2 for b, z1, z2 in P)
    I0 = sum(b * (z2 ** 3 - z1 ** 3) / 3 for b, z1, z2 in P)
    z = s.effective_neutral_axis()
    H.eq("effective axis", z * A, Q)
    H.eq("effective second moment", I * A, I0 * A - Q * Q, scale=1e14)
    H.eq("effective modulus", W * mx(z, h - z), I, scale=1e8)


@job("S04", params=[dict(kind=k) for k in ("RHS", "CHS", "WI")] + sizes(("I",)),
     bounds="axial utilisation in [0,2], plastic moment 1e3..1e10")
def moment_reduction(H, kind, size=None):
    """reduced moment resistance lies between 0 and the full one and falls with axial force"""
    s = make(H, kind, 355) if size is None else sized(kind, size, 355)
    M = H.real("M", 1e3, 1e10)
    u1 = H.real("u1", 0.0, 2.0)
    a = s.moment_axial_force_interact(u1, M)
    H.observe("MN", a)
    H.between("range", 0.0, a, M)
    if u1 > 1:
        H.eq("none left", a, 0.0)
    if kind != "CHS":
        u2 = H.real("u2", 0.0, 2.0)
        H.assume(u1 <= u2)
        H.ge("falls with axial force", a, s.moment_axial_force_interact(u2, M))


@job("S04", bounds="every assignment through the axis names, section rotated or not")
def rotated(H):
    s = RHS(120.0, 80.0, 5.0)
    names = [("Iy", "I", 0), ("Iz", "I", 1), ("Wply", "Wpl", 0), ("Wplz", "Wpl", 1), ("Wely", "Wel", 0), ("Welz", "Wel", 1)]
    for n, a, i in names:
        H.eq(n, getattr(s, n), getattr(s, a)[i])
    s.rotate = True
    for n, a, i in names:
        H.eq("rotated " + n, getattr(s, n), getattr(s, a)[1 - i])
    rot = H.flag("rot")
    s.rotate = rot
    n, a, i = H.choice("which", names)
    v = H.real("v", 1.0, 1e8)
    j = 1 - i if rot else i
    arr = getattr(s, a)
    other = arr[1 - j]
    try:
        setattr(s, a, [arr[0], arr[1]])
    except AttributeError:
        pass
    setattr(s, n, v)
    H.eq("set " + n, getattr(s, n), v)
    H.eq("other axis kept " + n, getattr(s, a)[1 - j], other)
