"""EN 1995: timber strengths, charring and sections (E11), resistance of timber members (M02)."""
from math import pi, sqrt, tan, radians, cos
from types import SimpleNamespace

import numpy as np

from symx.registry import job
import metku.frame2d  # noqa: F401  (import order of the package)
from metku.eurocodes.en1995 import en1995_1_1 as ec, en1995_1_2 as fire
from metku.eurocodes.en1995 import fire_protection as fpm
from metku.materials.timber_data import Timber, T
from metku.sections.timber.timber_section import TimberSection, PulpettiPalkki, HarjaPalkki, MahaPalkki, KaarevaPalkki, KaarevaHarjaPalkki
from metku.structures.timber.timber_member import TimberMember
from harness.ec3_member import mx, mn

# EN 1995-1-1 tables 2.3, 3.1 and 3.2
KMOD = {1: (0.6, 0.7, 0.8, 0.9, 1.1), 2: (0.6, 0.7, 0.8, 0.9, 1.1), 3: (0.5, 0.55, 0.65, 0.7, 0.9)}
LDC = ("perm", "lt", "mt", "st", "inst")
KDEF = {1: 0.6, 2: 0.8, 3: 2.0}
GAMMA = {"solid_timber": 1.3, "glt": 1.25, "lvl": 1.2}
SOLID = [t for t in T if t.name[0] in "CD"]
GLT = [t for t in T if t.name.startswith("GL")]
LVL = [t for t in T if t.name.startswith("Kerto")]
KIND = {**{t: "solid_timber" for t in SOLID}, **{t: "glt" for t in GLT}, **{t: "lvl" for t in LVL}}


# ---------------------------------------------------------------------------
# E11
# ---------------------------------------------------------------------------
@job("E11", bounds="every timber type, service class and load duration class; strength in [0,100]")
def factors(H):
    kind, sc = H.choice("kind", list(GAMMA)), H.choice("sc", [1, 2, 3])
    i = H.choice("ldc", [0, 1, 2, 3, 4])
    k = ec.kmod(kind, sc, LDC[i])
    H.eq("kmod", k, KMOD[sc][i])
    H.eq("kdef", ec.kdef(kind, sc), KDEF[sc])
    g = ec.get_gammaM(kind)
    H.eq("partial factor", g, GAMMA[kind])
    f = H.real("f", 0.0, 100.0)
    H.eq("design strength", ec.k_to_d(f, k, g), f * KMOD[sc][i] / GAMMA[kind])
    km, gm = H.real("km", 0.1, 1.5), H.real("gm", 1.0, 2.0)
    H.eq("design value", ec.k_to_d(f, km, gm) * gm, f * km)


@job("E11", params=[dict(group=g) for g in ("solid", "glt", "lvl")], bounds="every strength class")
def classes(H, group):
    t = H.choice("class", dict(solid=SOLID, glt=GLT, lvl=LVL)[group])
    m = Timber(t)
    H.same("kind", m.type, KIND[t])
    H.check("stiffness", (m.E0mean > m.E005) & (m.E005 > 0) & (m.Gmean > m.G005) & (m.G005 > 0) & (m.rhomean >= m.rhok))
    H.eq("material of the analysis", m.young, m.E0mean)
    H.eq("density of the analysis", m.density, m.rhomean)
    if group == "solid":
        H.eq("bending strength", m.fmk, float(t.name[1:]))
        # EN 384: strengths of sawn timber
        H.eq("tension", m.ft0k, 0.6 * m.fmk, abs_=1.2)
        H.eq("compression", m.fc0k, 5 * m.fmk ** 0.45, abs_=3.0)
        H.eq("E005", m.E005, (0.67 if t.name[0] == "C" else 0.84) * m.E0mean, abs_=400)
        H.eq("Gmean", m.Gmean, m.E0mean / 16, abs_=32)
        H.eq("E90", m.E90mean, m.E0mean / (30 if t.name[0] == "C" else 15), abs_=25)
    if group == "glt":
        H.eq("bending strength", m.fmk, float(t.name[2:4]))
    if group != "lvl":
        H.check("tension perpendicular to the grain is the weakest", (m.ft90k < m.fc90k) & (m.fc90k < m.fc0k) & (m.ft0k < m.fmk))


@job("E11", params=[dict(kind=k, hard=h) for k in ("solid_timber", "glt") for h in ("softwood", "hardwood")] + [dict(kind="lvl", hard="softwood"), dict(kind="panel", hard="softwood")],
     bounds="density in [290,1100] (lvl: [410,1100]), thickness in [5,1000]")
def charring(H, kind, hard):
    r, h = H.real("rho", 410.0 if kind == "lvl" else 290.0, 1100.0), H.real("h", 5.0, 1000.0)
    b = fire.charring_speed(r, kind, hard, h)
    if kind == "panel":
        b0, bn = 1.0, 1.0
    elif kind == "lvl":
        b0, bn = (0.65, 0.7) if r >= 480 else (0.7, 0.75)
    elif hard == "softwood":
        b0, bn = 0.65, (0.8 if kind == "solid_timber" else 0.7)
    elif r >= 450:
        b0, bn = 0.5, 0.55
    else:
        b0, bn = 0.65 - 0.15 * (r - 290) / 160, 0.7 - 0.15 * (r - 290) / 160
    H.eq("notional charring rate", b[1], bn)
    if h >= 20:
        H.eq("charring rate", b[0], b0)
    else:
        H.eq("charring rate of thin panels", b[0] * b[0] * r * h, b0 * b0 * 450 * 20)
    H.check("number of rates", len(b) == 2)


class Cover:
    """a fire protection with its times"""
    def __init__(self, t_ch, t_f, t_a):
        self.t_ch, self.t_f, self.t_a = t_ch, t_f, t_a


def depth(fp, t, beta):
    """depth of charring of RIL 205-2, 4.2.2: charring rate integrated over time and the zero-strength layer"""
    if fp is None:
        return t * beta + 7 * mn(t / 20, 1.0)
    if t < fp.t_ch:
        return 0.0
    lim = mx(fp.t_ch, 20.0)
    k0 = mn(t / lim, 1.0)
    d = mn(mx(t - fp.t_ch, 0.0), mx(fp.t_f - fp.t_ch, 0.0)) * 0.73
    d = d + 2 * mx(mn(t, fp.t_a) - fp.t_f, 0.0) + mx(t - fp.t_a, 0.0)
    return d * beta + 7 * k0


@job("E11", params=[dict(kind=k) for k in ("none", "burns through", "falls off")],
     bounds="fire time in [0,180], charring starts in [2,70], protection fails at most 60 later, normal rate after at most 60 more, rate in [0.5,1]")
def char_depth(H, kind):
    beta = H.real("beta", 0.5, 1.0)
    fp = None
    if kind != "none":
        ch = H.real("t_ch", 2.0, 70.0)
        tf = ch + H.real("dtf", 0.01, 60.0) if kind == "burns through" else ch
        fp = Cover(ch, tf, tf + H.real("dta", 0.01, 60.0))
    t = H.real("t", 0.0, 180.0)
    d = fire.d_char_n(fp, t, beta)
    H.eq("depth", d, depth(fp, t, beta))


@job("E11", params=[dict(kind=k) for k in ("none", "burns through", "falls off")], bounds="two times of the fire, otherwise as for the depth")
def char_grows(H, kind):
    beta = 0.7
    fp = None
    if kind != "none":
        ch = H.real("t_ch", 2.0, 70.0)
        tf = ch + H.real("dtf", 0.01, 60.0) if kind == "burns through" else ch
        fp = Cover(ch, tf, tf + H.real("dta", 0.01, 60.0))
    t = H.real("t", 0.0, 180.0)
    t2 = t + H.real("dt", 0.0, 60.0)
    a, b = fire.d_char_n(fp, t, beta), fire.d_char_n(fp, t2, beta)
    H.ge("not negative", a, 0.0)
    H.ge("grows with time", b, a)
    if fp is None:
        H.le("unprotected wood chars at the notional rate", b - a, (t2 - t) * beta + 7 * mn((t2 - t) / 20, 1.0))


# table 3.? of RIL 205-2: starting time of charring behind gypsum boards (joint filled, joint open) and thickness
BOARDS = {"GypsumPlasterboardA": (22, 13, 13), "GypsumPlasterboardF": (28, 19, 15), "GypsumPlasterboardH": (11, 2, 9), "GypsumPlasterboardAA": (40, 31, 26),
          "GypsumPlasterboardFF": (61, 52, 30), "GypsumPlasterboardHH": (23, 14, 18), "GypsumPlasterboardAF": (46, 37, 28)}


@job("E11", params=[dict(board=b) for b in BOARDS], bounds="joint width in [0,5], every class of solid timber and glued laminated timber")
def boards(H, board):
    s = H.real("joint", 0.0, 5.0)
    t = H.choice("class", [T.C24, T.GL30c, T.Kerto_S])
    fp = getattr(fpm, board)(s)
    sec = TimberSection(200, 500, t, fire_protection_generic=fp)
    ch = BOARDS[board][0] if s < 2 else BOARDS[board][1]
    bn = {T.C24: 0.8, T.GL30c: 0.7, T.Kerto_S: 0.7}[t]
    H.eq("thickness", fp.h_p, BOARDS[board][2])
    H.eq("charring starts", fp.t_ch, ch)
    tf = ch + (12.5 / (0.73 * bn) if "F" in board[18:] else 0.0)
    H.eq("board falls off", fp.t_f, tf)
    H.eq("normal rate again", fp.t_a, mn(2 * tf, tf + 12.5 / bn))
    H.same("protected sides", [x is fp for x in (sec.fire_protection_left, sec.fire_protection_right, sec.fire_protection_bottom, sec.fire_protection_top)],
           [True, True, True, False])


@job("E11", bounds="thickness of the wooden board in [5,60]")
def wooden_board(H):
    h = H.real("h", 5.0, 60.0)
    fp = fpm.WoodenFireProtection(T.C24, h)
    b0 = 0.65
    if h >= 20:
        H.eq("charring starts", fp.t_ch * b0, h)
    else:
        H.eq("charring starts earlier behind a thin board", fp.t_ch * fp.t_ch * (0.65 ** 2 * 450 / 350 * 20), h * h * h)
    H.eq("falls off when charred", fp.t_f, fp.t_ch)


@job("E11", params=[dict(sides=s, fs=f) for s in (3, 4) for f in (3, 4)] , bounds="width and height in [150,1200], fire time in [0,90]; one side protected on its own, the others by the common protection or none")
def burnt_section(H, sides, fs):
    B, Hh, R = H.real("B", 150.0, 1200.0), H.real("H", 150.0, 1200.0), H.real("R", 0.0, 90.0)
    own = Cover(30.0, 30.0, 40.0)
    own.protected_material = lambda m: None
    own.set_ta = lambda: None
    which = H.choice("own", ["none", "left", "top", "bottom"])
    kw = {} if which == "none" else {"fire_protection_" + which: own}
    gen = None
    if H.flag("common"):
        gen = Cover(15.0, 15.0, 25.0)
        gen.protected_material, gen.set_ta = (lambda m: None), (lambda: None)
    s = TimberSection(B, Hh, T.GL30c, fire_protection_generic=gen, fire_protection_sides=fs, sides_on_fire=sides, **kw)
    s.R = R
    p = {k: own if which == k else (gen if k != "top" or fs == 4 else None) for k in ("left", "right", "bottom", "top")}
    b = B - depth(p["left"], R, 0.7) - depth(p["right"], R, 0.7)
    h = Hh - depth(p["bottom"], R, 0.7) - (depth(p["top"], R, 0.7) if sides == 4 else 0.0)
    H.assume((b > 1.0) | (b < 0.0))
    H.assume((h > 1.0) | (h < 0.0))
    b, h = mx(b, 1e-5), mx(h, 1e-5)
    H.eq("width", s.B, b)
    H.eq("height", s.H, h)
    H.eq("area", s.A, b * h)
    H.eq("area along the member", s.get_A(0.3), b * h)
    for nm, v, ref in (("I", s.I, (b * h ** 3 / 12, h * b ** 3 / 12)), ("Wel", s.Wel, (b * h * h / 6, h * b * b / 6))):
        for j in range(2):
            H.eq(f"{nm}{j}", v[j], ref[j])
            H.eq(f"{nm}{j} along the member", getattr(s, "get_" + nm)(0.7)[j], ref[j])


@job("E11", params=[dict(shape=s) for s in ("single", "double", "belly")], bounds="heights in [200,2000], width in [50,300], place in [0,1], apex at three places, fire time in [0,60]")
def tapered(H, shape):
    B, h0 = H.real("B", 150.0, 300.0), H.real("h0", 300.0, 1000.0)
    x, R = H.real("x", 0.0, 1.0), H.choice("R", [0, 30, 60])
    sides = H.choice("sides", [3, 4])
    if shape == "single":
        h1 = H.real("h1", 300.0, 2000.0)
        s = PulpettiPalkki(B, h0, h1, material=T.GL30c, sides_on_fire=sides)
        h = h0 + (h1 - h0) * x
    elif shape == "double":
        h1, a = h0 + H.real("rise", 50.0, 1000.0), H.choice("apex", [0.5, 0.2, 0.75])
        s = HarjaPalkki(B, h0, h1, a, material=T.GL30c, sides_on_fire=sides)
        h = h0 + (h1 - h0) * x / a if x <= a else h0 + (h1 - h0) * (1 - x) / (1 - a)
    else:
        a = H.choice("apex", [0.5, 0.3])
        s = MahaPalkki(B, h0, 5.0, a, material=T.GL30c, sides_on_fire=sides)
        s.parent = SimpleNamespace(length=12000.0)
        ta = tan(radians(5.0)) * 12000.0
        h = (h0 + ta * x if x <= a else h0 + ta * x - (x - a) * ta / (1 - a)) / cos(radians(5.0))
    s.R = R
    d = 0.7 * R + (7.0 if R else 0.0)
    b, h = B - 2 * d, h - d * (2 if sides == 4 else 1)
    H.eq("height", s.get_H(x), h)
    H.eq("area", s.get_A(x), b * h)
    for nm, ref in (("I", (b * h ** 3 / 12, h * b ** 3 / 12)), ("Wel", (b * h * h / 6, h * b * b / 6))):
        v = getattr(s, "get_" + nm)(x)
        for j in range(2):
            H.eq(f"{nm}{j}", v[j], ref[j])


@job("E11", params=[dict(shape=s, ang=a) for s in ("single", "double") for a in range(3)], bounds="end height in [300,700], apex or other end in [700,1500], four elements: the elements follow a changed height")
def elements(H, shape, ang):
    h0, h1 = H.real("h0", 300.0, 700.0), H.real("h1", 700.0, 1500.0)
    s = (PulpettiPalkki if shape == "single" else HarjaPalkki)(200.0, 400.0, 700.0, material=T.GL30c)
    s.num_elements = 4
    s.create_elements()
    s.H0 = h0
    if ang:
        s.Hap = h1
    top = h1 if ang else 700.0
    if ang == 2:
        s.R = 30
        s.update_elements()
    for i, e in enumerate(s.small_elements):
        x = (i + 0.5) / 4
        h = h0 + (top - h0) * (x if shape == "single" else 1 - abs(1 - 2 * x))
        b = 200.0
        if ang == 2:
            b, h = b - 56.0, h - 28.0
        H.eq(f"area {i}", e.A, b * h)
        H.eq(f"second moment {i}", e.I[0], b * h ** 3 / 12)


ARCHES = [(20, 15, 15000.0, 12000.0, 600.0), (10, 5, 20000.0, 20000.0, 900.0), (12, 12, 9000.0, 15000.0, 700.0)]


@job("E11", params=[dict(cls=c, k=k) for c in ("KaarevaPalkki", "KaarevaHarjaPalkki") for k in range(3)],
     bounds="three curved beams, end height in [300,1200], place in [0,0.5]")
def curved(H, cls, k):
    al, be, r, L, _ = ARCHES[k]
    h0, x = H.real("h0", 300.0, 1200.0), H.real("x", 0.0, 0.5)
    s = {"KaarevaPalkki": KaarevaPalkki, "KaarevaHarjaPalkki": KaarevaHarjaPalkki}[cls](200.0, h0, al, be, r, material=T.GL30c)
    s.parent = SimpleNamespace(length=L)
    s.update_circles()
    ta, tb = tan(radians(al)), tan(radians(be))
    sa, sb = np.sin(radians(al)), np.sin(radians(be))
    X = x * L
    xb, xa = L / 2 - r * sb, L / 2 - r * sa
    # lower edge: straight, then an arch that continues it smoothly
    lo = tb * X
    if X > xb:
        lo = tb * xb + (r * r - (L / 2 - X) ** 2) ** 0.5 - r * cos(radians(be))
    up = h0 + ta * X
    if cls == "KaarevaPalkki" and X > xa:
        up = h0 + ta * xa + (r * r - (L / 2 - X) ** 2) ** 0.5 - r * cos(radians(al))
    H.assume((X < xb - 1) | (X > xb + 1))
    H.assume((X < xa - 1) | (X > xa + 1))
    h = up - lo
    H.eq("height", s.get_H(x), h, abs_=1e-6)
    H.eq("symmetric height", s.get_H(1 - x), h, abs_=1e-6)
    H.eq("area", s.get_A(x), 200.0 * h, abs_=1e-3)
    H.eq("end height", s.get_H(0), h0)
    H.eq("apex height", s.hap, s.get_H(0.5), abs_=1e-6)


@job("E11", params=[dict(kind=k, dim=d) for k in ("solid", "glt", "lvl") for d in ("bending", "tension")],
     bounds="width and height in [40,1000], bending only or tension only")
def size_factor(H, kind, dim):
    B, h = (H.real("B", 40.0, 1000.0), 300.0) if dim == "tension" else (100.0, H.real("h", 40.0, 1000.0))
    t = dict(solid=T.C24, glt=T.GL30c, lvl=T.Kerto_S)[kind]
    m = member(TimberSection(B, h, t), 4000.0)
    if dim == "tension":
        put(m, ned=1000.0)
    else:
        put(m, myed=1e6, vzed=1000.0)
    k = m.section.k_h
    ref, e, top = dict(solid=(150.0, 0.2, 1.3), glt=(600.0, 0.1, 1.1), lvl=(300.0, 0.12, 1.2))[kind]
    w = B if dim == "tension" else h
    if kind == "lvl":
        f = mn(top, (ref / w) ** e) if dim == "bending" else 1.0
    else:
        f = mx(1.0, mn(top, (ref / w) ** e))
    H.eq("size factor", k, f)


# ---------------------------------------------------------------------------
# M02
# ---------------------------------------------------------------------------
def member(sec, L, ldc="mt", sc=1, y=(), z=(), **kw):
    par = SimpleNamespace(length=L, n1=SimpleNamespace(parents=[]), n2=SimpleNamespace(parents=[]), loads=[])
    m = TimberMember(sec, sec.material, L, ldc, sc, lateral_support_y=list(y), lateral_support_z=list(z), parent=par, nodes={}, **kw)
    sec.timber_member = m
    sec.parent = par
    m.calc_l_c()
    return m


def put(m, loc=0.0, **kw):
    kw = {**dict(ned=0.0, myed=0.0, mzed=0.0, vyed=0.0, vzed=0.0, ted=0.0), **kw}
    m.add_section(loc=loc, **kw)


CASES = {"C24": (T.C24, {}, 24.0, 14.0, 21.0, 2.5 * 1.0, 1.3, 1.0), "GL30c": (T.GL30c, {}, 30.0, 20.0, 25.0, 3.5, 1.25, 1.0),
         "LVL edge": (T.Kerto_S, dict(lvldir="edge"), 44.0, 35.0, 35.0, 4.1, 1.2, 1.0), "LVL flat": (T.Kerto_S, dict(lvldir="flat"), 50.0, 35.0, 35.0, 4.1, 1.2, 1.0)}


@job("M02", params=[dict(case=c, which=w) for c in CASES for w in ("forces", "bending")],
     bounds="section 200 x 600 (lvl 300 deep), forces in [-1e5,1e5] N, moments in [-5e7,5e7] Nmm, every load duration and service class 1 to 3")
def section(H, case, which):
    t, kw, fm, ft, fc, fv, g, _ = CASES[case]
    h = 300.0 if "LVL" in case else 600.0
    b = 200.0
    sc = H.choice("sc", [1, 2, 3])
    i = H.choice("ldc", [0, 2, 4])
    m = member(TimberSection(b, h, t, **kw), 3000.0, LDC[i], sc, varnished=H.flag("varnished") if which == "forces" else False)
    N = H.real("N", -1e5, 1e5) if which == "forces" else H.choice("N", [-5e4, 0.0, 5e4])
    V = [H.real(f"V{c}", -1e5, 1e5) if which == "forces" else 0.0 for c in "yz"]
    M = [H.real(f"M{c}", -5e7, 5e7) if which == "bending" else 0.0 for c in "yz"]
    H.assume((N > 1.0) | (N < -1.0) | (N == 0.0))
    put(m, ned=N, vyed=V[0], vzed=V[1], myed=M[0], mzed=M[1])
    k = KMOD[sc][i] / g
    kh = 1.0 if case != "GL30c" else None
    if case == "C24":
        kh = 1.0
    # tension increases the strength of narrow glued laminated timber
    kt = kb = 1.0
    if case == "GL30c" and not (N == 0.0):
        kt = kb = 1.1
    if which == "forces":
        H.eq("normal force", m.check_normal_force(0), mx(N / (b * h * ft * k * kt), -N / (b * h * fc * k)))
        kcr = 0.67 if not m.varnished and ("LVL" not in case or sc == 1) else 1.0
        H.eq("shear force", m.check_shear_force(0, reduce=False), 1.5 * mx(abs(V[0]), abs(V[1])) / (b * h * kcr * fv * k))
        return
    sm = [abs(M[0]) / (b * h * h / 6) / (fm * k * kb), abs(M[1]) / (h * b * b / 6) / (fm * k * kb)]
    UM = mx(sm[0] + 0.7 * sm[1], 0.7 * sm[0] + sm[1])
    H.eq("biaxial bending", m.check_bending_moment(0), UM)
    if N > 0:
        H.eq("tension and bending", m.check_bending_tension(0), N / (b * h * ft * k * kt) + UM)
    if N < 0:
        H.eq("compression and bending", m.check_bending_compression(0), (N / (b * h * fc * k)) ** 2 + UM)
    r = m.check_section(0, reduce_uv=False)
    one = [m.check_normal_force(0), m.check_shear_force(0, reduce=False), m.check_bending_moment(0), m.check_torsion(0), m.check_bending_tension(0), m.check_bending_compression(0)]
    for i, u in enumerate(one):
        H.eq(f"listed check {i}", r[i], u)
    H.eq("largest check", m.section_resistance(0, return_list=False, reduce_uv=False), max_of(one))


def max_of(v):
    r = v[0]
    for x in v[1:]:
        r = mx(r, x)
    return r


# torsion of a rectangle h x b, h/b, from the theory of elasticity: (stress factor, stiffness factor)
TORS = [(1.0, .2082, .1406), (1.25, .2212, .1717), (1.5, .2310, .1958), (2.0, .2459, .2287), (2.5, .2576, .2494), (3.0, .2672, .2633), (4.0, .2817, .2808),
        (5.0, .2915, .2913), (6.0, .2984, .2983), (8.0, .3071, .3071), (10.0, .3123, .3123), (20.0, .3228, .3228)]


def tors(r, j):
    for a, b in zip(TORS, TORS[1:]):
        if r <= b[0]:
            return a[j] + (b[j] - a[j]) * (r - a[0]) / (b[0] - a[0])
    return TORS[-1][j]


@job("M02", params=[dict(upright=u, part=p) for u in (True, False) for p in ("stiffness", "stress")], bounds="side ratio in [1,20], narrow side 100, torque in [-1e7,1e7]")
def torsion(H, upright, part):
    r = H.real("ratio", 1.0, 20.0)
    h, b = (100.0 * r, 100.0) if upright else (100.0, 100.0 * r)
    m = member(TimberSection(b, h, T.C24), 4000.0)
    Tq = H.real("T", -1e7, 1e7) if part == "stress" else 0.0
    put(m, ted=Tq)
    if part == "stiffness":
        I = m.I_tor(0.0)
        ref = tors(r, 2) * r * 1e8
        H.between("torsional constant", 0.97 * ref, I, 1.03 * ref)
        return
    u = m.check_torsion(0)
    fv, ks = 2.5 * 0.8 / 1.3, mn(1.3, 1 + 0.05 * r)
    ref = abs(Tq) / (tors(r, 1) * r * 1e6) / (fv * ks)
    H.between("torsion", 0.97 * ref, u, 1.03 * ref)


def kc(lrel, bc):
    k = 0.5 * (1 + bc * (lrel - 0.3) + lrel * lrel)
    return 1 / (k + (k * k - lrel * lrel) ** 0.5)


@job("M02", params=[dict(case=c, braced=z) for c in CASES for z in ((), (0.5,), (0.25, 0.75))],
     bounds="section 200 x 600 (lvl 300 deep), length in [2000,15000] (three lengths when braced twice), compression 100 kN at three sections, moments fixed")
def buckling(H, case, braced):
    t, kw, fm, ft, fc, fv, g, _ = CASES[case]
    h, b = (300.0 if "LVL" in case else 600.0), 200.0
    L = H.real("L", 2000.0, 15000.0) if len(braced) < 2 else H.choice("L", [2500.0, 6000.0, 14000.0])
    m = member(TimberSection(b, h, t, **kw), L, y=(), z=braced, beta=[1.0, 0.9], mtype="column")
    My, Mz = [1e7, -3e7, 2e7], [1e6, 2e6, -4e6]
    for x, a, c in zip((0.0, 0.5, 1.0), My, Mz):
        put(m, loc=x, ned=-1e5, myed=a, mzed=c)
    k = 0.8 / g
    kh = 1.1 if case == "GL30c" else 1.0
    bc = 0.2 if case == "C24" else 0.1
    s = sqrt(fc / m.material.E005) / pi
    got = m.check_buckling()
    U = []
    ends = [0.0, *braced, 1.0]
    for ax, (seg, d, beta) in enumerate((((0.0, 1.0), h, 1.0), (ends, b, 0.9))):
        for a, e in zip(seg, seg[1:]):
            ins = [i for i, x in enumerate((0.0, 0.5, 1.0)) if a <= x <= e]
            sy = max(abs(My[i]) for i in ins) / (b * h * h / 6) / (fm * k * kh)
            sz = max(abs(Mz[i]) for i in ins) / (h * b * b / 6) / (fm * k * kh)
            lrel = beta * (e - a) * L / (d / sqrt(12.0)) * s
            U.append((ax, 1e5 / (b * h) / (kc(lrel, bc) * fc * k) + (sy + 0.7 * sz if ax == 0 else 0.7 * sy + sz)))
    for ax in range(2):
        vals = [u for a, u in U if a == ax]
        H.eq(f"buckling about axis {ax}", got[ax], max_of(vals))


@job("M02", params=[dict(case=c, edge=e, big=w) for c in ("C24", "GL30c", "LVL edge") for e in ("compression", "tension") for w in (False, True)],
     bounds="section 80 x 600 (lvl 300), span in [2000,14000]; moments of either sign at the ends and mid-span in [-5e7,5e7]")
def lateral_torsional(H, case, edge, big):
    t, kw, fm, ft, fc, fv, g, _ = CASES[case]
    b, h = (80.0, 300.0) if "LVL" in case else (80.0, 600.0)
    L = H.real("L", 2000.0, 14000.0) if not big else 6000.0
    M = [H.real(f"M{i}", -5e7, 5e7) if big else v for i, v in enumerate((1e7, -5e7, 3e7))]
    m = member(TimberSection(b, h, t, **kw), L, z=(0.5,) if big else (), edge_load=edge, mtype="beam", beta=[1.0, 1.0])
    for x, a in zip((0.0, 0.5, 1.0), M):
        put(m, loc=x, myed=a)
    m.perm = None
    lef = 0.9 * L * (0.5 if big else 1.0) + (2 * h if edge == "compression" else -0.5 * h)
    r = h / b
    It = m.I_tor(0.0)
    scr = pi * sqrt(m.material.E005 * h * b ** 3 / 12 * m.material.G005 * It) / (lef * (b * h * h / 6))
    lr = (fm / scr) ** 0.5
    kcrit = 1.0 if lr <= 0.75 else (1.56 - 0.75 * lr if lr <= 1.4 else 1 / lr ** 2)
    k = 0.8 / g
    ref = max_of([abs(a) for a in M]) / (b * h * h / 6) / (kcrit * fm * k)
    if big:
        H.assume((M[0] > 1.0) | (M[0] < -1.0))
    H.eq("lateral torsional buckling", m.check_LT_buckling(), ref)


@job("M02", params=[dict(shape=s) for s in ("double", "curved", "cambered")], bounds="apex moment in [-1e9,1e9], lamella in [15,50], three geometries")
def apex(H, shape):
    t = H.choice("lamella", [20.0, 33.0, 45.0])
    j = H.choice("geometry", [0, 1, 2])
    al, be, r, L, h0 = ARCHES[j]
    b = 160.0
    if shape == "double":
        s = HarjaPalkki(b, h0, h0 + tan(radians(al)) * L / 2, 0.5, material=T.GL30c)
    else:
        s = {"curved": KaarevaPalkki, "cambered": KaarevaHarjaPalkki}[shape](b, h0, al, be, r, material=T.GL30c, t=t)
    m = member(s, L)
    if shape != "double":
        s.update_circles()
    M = H.real("M", -1e9, 1e9)
    for x, a in ((0.0, 0.0), (0.5, M), (1.0, 0.0)):
        put(m, loc=x, myed=a)
    h, ta = s.hap, tan(radians(al))
    fm, ft90 = 30.0 * 0.8 / 1.25, 0.5 * 0.8 / 1.25
    x = 0.0 if shape == "double" else h / (r + h / 2)
    if shape == "curved":
        ta = 0.0
    kl = 1 + 1.4 * ta + 5.4 * ta ** 2 + (0.35 - 8 * ta) * x + (0.6 + 8.3 * ta - 7.8 * ta ** 2) * x ** 2 + 6 * ta ** 2 * x ** 3
    kp = 0.2 * ta + (0.25 - 1.5 * ta + 2.6 * ta ** 2) * x + (2.1 * ta - 4 * ta ** 2) * x ** 2
    kr = 1.0 if shape == "double" or r / t >= 240 else 0.76 + 0.001 * r / t
    W = b * h * h / 6
    H.eq("bending", m.check_apex_bending_stress(), kl * M / W / (kr * fm))
    H.eq("bending of a tapered beam", m.check_tapered_beam_bending_tension(), kl * M / W / (kr * fm))
    kdis = 1.7 if shape == "cambered" else 1.4
    V = mn(m.V(), 2 / 3 * m.V_tot())
    H.eq("volume factor", m.k_vol() ** 5 * V, 1e7)
    H.eq("tension perpendicular to the grain", m.check_perpendicular_to_grain_tension(), kp * M / W / (kdis * m.k_vol() * ft90))
    H.eq("tension perpendicular to the grain at the apex", m.check_apex_perpendicular_tension(), kp * M / W / (kdis * m.k_vol() * ft90))


@job("M02", params=[dict(flipped=f) for f in (False, True)], bounds="end heights in [300,1500], length 10 m, moment of either sign")
def tapered_edge(H, flipped):
    h1 = H.real("h1", 300.0, 1500.0)
    s = PulpettiPalkki(160.0, 300.0, 300.0 + h1 / 2, material=T.GL30c, flipped=flipped)
    m = member(s, 10000.0)
    M = H.choice("M", [4e7, -4e7])
    put(m, loc=0.0, myed=M)
    put(m, loc=1.0, myed=0.0)
    ta = h1 / 2 / 10000.0
    k = 0.8 / 1.25
    fm, fv, ft90, fc90 = 30 * k * 1.0, 3.5 * k, 0.5 * k, 3.0 * k
    kh = m.section.k_h
    fm = fm * kh
    tens = (M > 0) == flipped
    q = 1 + (fm / ((0.75 if tens else 1.5) * fv) * ta) ** 2 + (fm / (ft90 if tens else fc90) * ta * ta) ** 2
    km = m.k_m_alpha()
    H.eq("reduction of the strength at the edge", km * km * q, 1.0)
    H.eq("check of the edge", m.check_single_tapered_beam_bending_tension() * km * fm, abs(M) / (160.0 * 300.0 ** 2 / 6))


@job("M02", params=[dict(kind=k) for k in ("C24", "GL30c")], bounds="span in [8000,30000], 1 to 3 braces, number of beams in [1,20], moment in [1e6,1e9]")
def bracing(H, kind):
    t = CASES[kind][0]
    nb = H.choice("braces", [1, 2, 3])
    L, M, n = H.real("L", 8000.0, 30000.0), 2e8, H.real("n", 1.0, 20.0)
    z = [(i + 1) / (nb + 1) for i in range(nb)]
    m = member(TimberSection(160.0, 900.0, t), L, z=z, mtype="beam", beta=[1.0, 1.0])
    put(m, loc=0.0)
    put(m, loc=0.5, myed=M)
    put(m, loc=1.0)
    # the brace next to mid-span
    i = nb // 2
    kcrit = m.k_crit(i, 1, 0.5)
    Nd = (1 - kcrit) * M / 900.0
    C, F, q = m.bracing(n)
    ks = 2 + 2 * cos(pi / (nb + 1))
    a = L / (nb + 1)
    H.eq("stiffness of a brace", C, ks * Nd / a)
    H.eq("force of a brace", F, Nd / (50 if kind == "C24" else 80))
    H.eq("load of the bracing", q, mn(1.0, (15000.0 / L) ** 0.5) * n * Nd / (50 * L))


@job("M02", bounds="two braces at any order of places in [0.05,0.95], length in [1000,20000]")
def segments(H):
    L = H.real("L", 1000.0, 20000.0)
    a, b = H.real("a", 0.05, 0.95), H.real("b", 0.05, 0.95)
    c = H.real("c", 0.05, 0.95)
    m = member(TimberSection(200.0, 600.0, T.GL30c), L, y=[c], z=[a, b], beta=0.9)
    lo, hi = mn(a, b), mx(a, b)
    H.same("number of segments", (len(m.L_c[0]), len(m.L_c[1])), (2, 3))
    for nm, v, ref in (("y", m.L_c[0], (c * L, (1 - c) * L)), ("z", m.L_c[1], (lo * L, (hi - lo) * L, (1 - hi) * L))):
        for i, r in enumerate(ref):
            H.eq(f"segment {nm}{i}", v[i], r)
    ln = m.Ln()
    for i in range(2):
        for j in range(len(ln[i])):
            H.eq(f"buckling length {i}{j}", ln[i][j], 0.9 * m.L_c[i][j])


@job("M02", params=[dict(n=n) for n in (1, 2, 3)], bounds="one to three sections with normal forces in [-2e6,2e6]: the design of a column takes the worst of all")
def design(H, n):
    m = member(TimberSection(200.0, 600.0, T.C24), 4000.0, beta=[1.0, 1.0], mtype="column")
    N = [H.real(f"N{i}", -2e6, 2e6) for i in range(n)]
    if n == 3:
        N[2] = H.choice("middle", [-1.5e6, 8e5])
    locs = [0.0, 1.0, 0.5][:n] if n > 1 else [0.0]
    order = sorted(range(n), key=lambda i: locs[i])
    for i in order:
        put(m, loc=locs[i], ned=N[i], vzed=1e4 * (i + 1))
    H.assume(N[0] < -1.0)
    r = m.design()
    A, k = 200.0 * 600.0, 0.8 / 1.3
    s = sqrt(21 / 7400) / pi
    kz = kc(4000.0 / (200.0 / sqrt(12.0)) * s, 0.2)
    ky = kc(4000.0 / (600.0 / sqrt(12.0)) * s, 0.2)
    vals = [1.5 * 1e4 * n / (A * 0.67 * 2.5 * k)]
    for x in N:
        vals += [x / (A * 14 * k), -x / (A * 21 * k), -x / (A * 21 * k * min(ky, kz))]
    H.eq("utilization", r, max_of(vals))


@job("M02", params=[dict(which=w) for w in ("normal", "shear", "bending")],
     bounds="three sections of a member 200 x 600 with forces in [-1e6,1e6] N and moments in [-5e8,5e8] Nmm: every check is the worst of its values at the sections")
def sections(H, which):
    m = member(TimberSection(200.0, 600.0, T.C24), 8000.0, beta=[1.0, 1.0], mtype="column")
    k = 0.8 / 1.3
    A, W = 200.0 * 600.0, (200.0 * 600.0 ** 2 / 6, 600.0 * 200.0 ** 2 / 6)
    v = [H.real(f"v{i}", -1.0, 1.0) for i in range(3)]
    w = [0.3, -0.8, 0.5]
    for i, x in enumerate((0.0, 0.5, 1.0)):
        if which == "normal":
            put(m, loc=x, ned=1e6 * v[i], myed=1e8 * w[i])
        elif which == "shear":
            put(m, loc=x, vyed=1e6 * v[i], vzed=1e6 * w[i])
        else:
            put(m, loc=x, myed=5e8 * v[i], mzed=5e7 * w[i])
    r = m.check_sections(reduce_uv=False)
    H.same("number of sections", m.nsect(), 3)
    av = [abs(x) for x in v]
    if which == "normal":
        H.eq("largest normal force", m.NEd, 1e6 * max_of(av))
        H.eq("largest moment", m.MEdY, 8e7)
        H.eq("normal force", r[0], max_of([mx(x / (14 * k), -x / (21 * k)) for x in v]) * 1e6 / A)
    elif which == "shear":
        H.eq("shear force", r[1], 1.5e6 * mx(max_of(av), 0.8) / (A * 0.67 * 2.5 * k))
    else:
        H.eq("largest moment", m.MEdY, 5e8 * max_of(av))
        H.eq("largest minor moment", m.MEdZ, 4e7)
        s = [(5e8 * av[i] / W[0] / (24 * k), 5e7 * abs(w[i]) / W[1] / (24 * k)) for i in range(3)]
        H.eq("bending", r[2], max_of([mx(a + 0.7 * b, 0.7 * a + b) for a, b in s]))
    m.clear_sections()
    H.same("no section left", m.nsect(), 0)


@job("M02", params=[dict(end=e) for e in ("start", "end")],
     bounds="beam 200 x 600 of 6 m with sections at the supports, at one place in [0.01,0.99] and at the middle; shear in [1,1e5] N")
def end_shear(H, end):
    """Near a support the shear force at the distance of the depth of the beam governs (EN 1995-1-1, 6.1.7 (3)); a section outside that zone takes its own."""
    m = member(TimberSection(200.0, 600.0, T.C24), 6000.0, beta=[1.0, 1.0], mtype="beam")
    c = H.real("c", 0.01, 0.45)
    H.assume((c < 0.0999) | (c > 0.1001))
    V = [H.real(f"V{i}", 1.0, 1e5) for i in range(2)]
    Vm = 2e4
    f = 1.5 / (200.0 * 600.0 * 0.67 * 2.5 * 0.8 / 1.3)
    if end == "start":
        for x, q in ((0.0, V[0]), (c, V[1]), (0.5, Vm), (1.0, 0.0)):
            put(m, loc=x, vzed=q)
        a, b = 0, 1
    else:
        for x, q in ((0.0, 0.0), (0.5, Vm), (1 - c, V[1]), (1.0, V[0])):
            put(m, loc=x, vzed=-q)
        a, b = 3, 2
    H.eq("section at the support", m.check_shear_force(a), f * (V[1] if c < 0.1 else V[0]))
    H.eq("section near the support", m.check_shear_force(b), f * V[1])
    H.eq("section at the middle", m.check_shear_force(3 - b), f * Vm)
    H.eq("no reduction", m.check_shear_force(a, reduce=False), f * V[0])


@job("M02", params=[dict(n=n) for n in (1, 2, 3)], bounds="compressed column with one to three segments about each axis, supports of every kind, length in [1000,20000]")
def ln_given(H, n):
    """With no buckling factor given, the member that is neither a beam nor a column uses the stiffness of its ends."""
    L = H.real("L", 1000.0, 20000.0)
    ys = [0.4, 0.7][:n - 1]
    m = member(TimberSection(200.0, 600.0, T.C24), L, y=ys, z=[], mtype="brace")
    e = H.choice("ends", [(1e20, 1e20, 0.7), (1e20, 0.0, 0.85), (0.0, 1e20, 0.85), (0.0, 0.0, 1.0)])
    m.Sj1, m.Sj2 = e[0], e[1]
    got = m.Ln()
    ends = [0.0, *ys, 1.0]
    for i, (a, b) in enumerate(zip(ends, ends[1:])):
        H.eq(f"buckling length y{i}", got[0][i], e[2] * (b - a) * L)
    H.eq("buckling length z", got[1][0], e[2] * L)
