"""Cold-formed members: open thin-walled profiles (K01), Z and C sections (K02), rules of EN 1993-1-3 (K03)."""
import math

import numpy as np

from symx.registry import job
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf
from harness.ec3_member import mx, mn

# polylines: list of (length name or number, direction)
SHAPES = {
    "angle": [("a", (0.0, -1.0)), ("b", (1.0, 0.0))],
    "channel": [("a", (-1.0, 0.0)), ("h", (0.0, -1.0)), ("b", (1.0, 0.0))],
    "zed": [("a", (1.0, 0.0)), ("h", (0.0, 1.0)), ("b", (1.0, 0.0))],
    "lipped": [("c", (0.0, 1.0)), ("a", (-1.0, 0.0)), ("h", (0.0, -1.0)), ("b", (1.0, 0.0)), ("d", (0.0, 1.0))],
    "hat": [("c", (1.0, 0.0)), ("a", (0.6, 0.8)), ("h", (1.0, 0.0)), ("b", (0.6, -0.8)), ("d", (1.0, 0.0))],
    "slanted": [("a", (-1.0, 0.0)), ("h", (0.28, -0.96)), ("b", (1.0, 0.0))],
}
SIZE = {"a": (20.0, 90.0, 47.0), "b": (20.0, 90.0, 62.0), "h": (60.0, 350.0, 155.0), "c": (8.0, 30.0, 16.0), "d": (8.0, 30.0, 21.0)}
TH = [1.5, 2.5, 1.2, 3.0, 2.0]


def profile(H, shape, free, start=(13.0, -7.0), turn=(1.0, 0.0)):
    segs = SHAPES[shape]
    p = [list(start)]
    for name, d in segs:
        l = H.real(name, *SIZE[name][:2]) if name == free else SIZE[name][2]
        u = (d[0] * turn[0] - d[1] * turn[1], d[0] * turn[1] + d[1] * turn[0])
        p.append([p[-1][0] + l * u[0], p[-1][1] + l * u[1]])
    t = [TH[i] for i in range(len(segs))]
    if free == "t":
        t[1] = H.real("t", 0.5, 6.0)
    return p, t


def lengths(p):
    r = []
    for a, b in zip(p, p[1:]):
        r.append(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5)
    return r


def integrals(p, t):
    """area, centroid, second moments, shear centre and warping constant by integrating along the polyline"""
    L = lengths(p)
    A = sum(a * b for a, b in zip(L, t))
    yc = sum(l * w * 0.5 * (a[0] + b[0]) for l, w, a, b in zip(L, t, p, p[1:])) / A
    zc = sum(l * w * 0.5 * (a[1] + b[1]) for l, w, a, b in zip(L, t, p, p[1:])) / A
    q = [(a[0] - yc, a[1] - zc) for a in p]
    Iy = Iz = Iyz = 0.0
    for l, w, a, b in zip(L, t, q, q[1:]):
        # Simpson's rule is exact for quadratics
        m = (0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1]))
        Iy = Iy + l * w * (a[1] ** 2 + 4 * m[1] ** 2 + b[1] ** 2) / 6
        Iz = Iz + l * w * (a[0] ** 2 + 4 * m[0] ** 2 + b[0] ** 2) / 6
        Iyz = Iyz + l * w * (a[0] * a[1] + 4 * m[0] * m[1] + b[0] * b[1]) / 6
    return dict(A=A, yc=yc, zc=zc, Iy=Iy, Iz=Iz, Iyz=Iyz, q=q, L=L)


def flow_moment(g, t, al, be):
    """moment about the centroid of the shear flow that balances the axial stress gradient al*y+be*z"""
    q0, M = 0.0, 0.0
    for l, w, a, b in zip(g["L"], t, g["q"], g["q"][1:]):
        s0 = al * a[0] + be * a[1]
        s1 = al * b[0] + be * b[1]
        # flow q0 + w*l*(s0*x + (s1-s0)*x^2/2), its mean over the segment
        mean = q0 + w * l * (s0 / 2 + (s1 - s0) / 6)
        arm = a[0] * b[1] - b[0] * a[1]
        M = M + mean * arm
        q0 = q0 + w * l * 0.5 * (s0 + s1)
    return M, q0


def warping(p, t, L, pole):
    w = [0.0]
    for a, b in zip(p, p[1:]):
        w.append(w[-1] + (a[0] - pole[0]) * (b[1] - pole[1]) - (b[0] - pole[0]) * (a[1] - pole[1]))
    A = sum(l * x for l, x in zip(L, t))
    mean = sum(l * x * 0.5 * (u + v) for l, x, u, v in zip(L, t, w, w[1:])) / A
    w = [u - mean for u in w]
    return sum(l * x * (u * u + u * v + v * v) / 3 for l, x, u, v in zip(L, t, w, w[1:]))


def values(o):
    y, z, A = o.centroid()
    sy, sz = o.shear_center()
    Iy, Iz = o.second_moments_gc()
    return dict(A=A, y=y, z=z, Iy=Iy, Iz=Iz, Iyz=o.product_moment_gc(), sy=sy, sz=sz, Iw=o.warping_constant())


FREES = {s: [n for n, _ in v] + ["t"] for s, v in SHAPES.items()}


@job("K01", params=[dict(shape=s, free=f) for s in SHAPES for f in FREES[s]],
     bounds="six shapes of two to five plates; flanges 20..90, webs 60..350, lips 8..30 mm, thickness 0.5..6 mm, one free at a time")
def moments(H, shape, free):
    p, t = profile(H, shape, free)
    o = OpenProf(p, t)
    g = integrals(p, t)
    y, z, A = o.centroid()
    H.eq("area", A, g["A"])
    H.eq("area method", o.area(), g["A"])
    H.eq("centroid y", y, g["yc"], scale=50.0)
    H.eq("centroid z", z, g["zc"], scale=50.0)
    Iy, Iz = o.second_moments_gc()
    H.eq("Iy", Iy, g["Iy"])
    H.eq("Iz", Iz, g["Iz"])
    H.eq("Iy method", o.Iy(), g["Iy"])
    H.eq("Iz method", o.Iz(), g["Iz"])
    H.eq("Iyz", o.product_moment_gc(), g["Iyz"], scale=1e5)
    H.ge("positive definite", Iy * Iz - o.product_moment_gc() ** 2, 0.0)
    It = sum(l * w ** 3 for l, w in zip(g["L"], t)) / 3
    H.eq("torsion constant", o.torsion_constant(), It)
    H.eq("torsion modulus", o.torsion_modulus(), It / min(t) if free != "t" else It / mn(t[1], min(t[:1] + t[2:])))


@job("K01", params=[dict(shape=s, free=f) for s in SHAPES for f in FREES[s]],
     bounds="as moments")
def shear_centre(H, shape, free):
    p, t = profile(H, shape, free)
    o = OpenProf(p, t)
    g = integrals(p, t)
    D = g["Iy"] * g["Iz"] - g["Iyz"] ** 2
    # unit shear force along z: stress gradient without a moment about z, and the other way round
    Mz, end = flow_moment(g, t, -g["Iyz"] / D, g["Iz"] / D)
    My, _ = flow_moment(g, t, g["Iy"] / D, -g["Iyz"] / D)
    sy, sz = o.shear_center()
    # the flow opposes the gradient: its resultant is a unit force against the axis
    H.eq("shear centre y", sy, g["yc"] - Mz, scale=10.0)
    H.eq("shear centre z", sz, g["zc"] + My, scale=10.0)
    Iw = warping(p, t, g["L"], (sy, sz))
    H.eq("warping constant", o.warping_constant(), Iw, rel=1e-4 if shape in ("hat", "slanted") else 1e-5, abs_=1.0)
    H.ge("warping constant not negative", o.warping_constant(), -1.0)


TURNS = [(0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (-0.28, 0.96)]


@job("K01", params=[dict(shape=s, turn=k) for s in SHAPES for k in range(len(TURNS) + 2)],
     bounds="thickness of one plate 0.5..6 mm and turned by 90, 180, 270, 53 and 106 degrees, or dimensions as chosen and moved by up to 500 mm along y or z")
def placed(H, shape, turn):
    moved = turn >= len(TURNS)
    p, t = profile(H, shape, None if moved else "t", start=(0.0, 0.0))
    a = values(OpenProf(p, t))
    if moved:
        d = H.real("d", -500.0, 500.0)
        dy, dz = (d, 0.0) if turn == len(TURNS) else (20.0, d)
        c, s = 1.0, 0.0
        q = [[u[0] + dy, u[1] + dz] for u in p]
    else:
        dy = dz = 0.0
        c, s = TURNS[turn]
        q = [[u[0] * c - u[1] * s, u[0] * s + u[1] * c] for u in p]
    b = values(OpenProf(q, t))
    H.eq("area", b["A"], a["A"])
    for n, (y, z) in (("centroid", ("y", "z")), ("shear centre", ("sy", "sz"))):
        H.eq(n + " y", b[y], a[y] * c - a[z] * s + dy, scale=50.0)
        H.eq(n + " z", b[z], a[y] * s + a[z] * c + dz, scale=50.0)
    H.eq("Iy", b["Iy"], a["Iy"] * c * c + a["Iz"] * s * s + 2 * a["Iyz"] * s * c, scale=1e5)
    H.eq("Iz", b["Iz"], a["Iz"] * c * c + a["Iy"] * s * s - 2 * a["Iyz"] * s * c, scale=1e5)
    H.eq("Iyz", b["Iyz"], a["Iyz"] * (c * c - s * s) + (a["Iz"] - a["Iy"]) * s * c, scale=1e5)
    H.eq("warping constant", b["Iw"], a["Iw"], rel=1e-5, abs_=1.0)


def alike(H, name, a, b):
    va, v = values(a), values(b)
    for k in va:
        H.eq(f"{name}, {k}", v[k], va[k], rel=1e-5, scale={"A": 1, "Iw": 100.0, "Iyz": 1e5}.get(k, 50.0))
    H.eq(f"{name}, torsion constant", b.torsion_constant(), a.torsion_constant())
    H.eq(f"{name}, torsion modulus", b.torsion_modulus(), a.torsion_modulus())


@job("K01", params=[dict(shape=s) for s in SHAPES], bounds="nodes listed from the other end; thickness 0.5..6 mm or flange 20..90 mm")
def reversed_nodes(H, shape):
    p, t = profile(H, shape, H.choice("free", [FREES[shape][0], "t"]))
    alike(H, "reversed", OpenProf(p, t), OpenProf(p[::-1], t[::-1]))


@job("K01", params=[dict(shape=s) for s in SHAPES],
     bounds="any plate split anywhere (the hat: at 0.4, with free thickness), up to twice; dimensions as chosen")
def split(H, shape):
    free = shape == "hat"
    p, t = profile(H, shape, "t" if free else None)
    c = OpenProf(p, t)
    n = H.choice("plate", range(len(t)))
    c.split_segment(n, 0.4 if free else H.real("s", 0.05, 0.95))
    m = H.choice("second", [None, 0, len(t)])
    if m is not None:
        c.split_segment(m, 0.3)
    H.same("nodes", c.n, len(p) + 1 + (m is not None))
    alike(H, "split", OpenProf(p, t), c)


@job("K01", params=[dict(shape=s) for s in SHAPES], bounds="as moments")
def principal(H, shape):
    free = H.choice("free", FREES[shape])
    p, t = profile(H, shape, free)
    o = OpenProf(p, t)
    I, a = o.principal_axes()
    Iy, Iz = o.second_moments_gc()
    P = o.product_moment_gc()
    H.eq("sum", I[0] + I[1], Iy + Iz)
    H.eq("product", I[0] * I[1], Iy * Iz - P * P, rel=1e-5)
    H.ge("order", I[0], I[1] - 1e-6 * Iy)


# ------------------------------------------------------------------ K03: rules of EN 1993-1-3
import metku.eurocodes.en1993.en1993_1_3.en1993_1_3 as ec

BIG = 1e6


@job("K03", params=[dict(free=f) for f in ("fyb", "t", "Ag", "n")], bounds="fyb 220..420, t 0.5..6, A 50..3000, up to 8 bends, k 5 or 7")
def average_yield(H, free):
    fyb = H.real("fyb", 220.0, 420.0) if free == "fyb" else H.choice("fyb", [235.0, 350.0])
    fu = fyb + H.real("df", 20.0, 200.0)
    t = H.real("t", 0.5, 6.0) if free == "t" else H.choice("t", [1.0, 2.5])
    A = H.real("Ag", 50.0, 3000.0) if free == "Ag" else H.choice("Ag", [120.0, 900.0])
    n = H.int("n", 0, 8) if free == "n" else H.choice("n", [2, 4])
    k = H.choice("k", [None, 5])
    r = ec.fya(fyb, fu, t, A, n) if k is None else ec.fya(fyb, fu, t, A, n, k)
    H.eq("average yield strength", r, mn(fyb + (fu - fyb) * (k or 7) * n * t * t / A, 0.5 * (fyb + fu)))
    H.ge("not below basic", r, fyb)
    H.le("not above ultimate", r, fu)


@job("K03", params=[dict(q=q) for q in ("width", "gr", "delta")], bounds="angles 30..150 degrees as listed, widths 5..400, radii 0.5..12")
def rounded_corners(H, q):
    rm = H.real("rm", 0.5, 12.0)
    phi = [H.choice("phi1", [45.0, 90.0, 120.0]), H.choice("phi2", [30.0, 90.0, 150.0])]
    if q == "width":
        b = H.real("b", 5.0, 400.0)
        r2 = H.real("r2", 0.5, 12.0)
        H.eq("two corners", ec.notional_width(b, [rm, r2], phi),
             b + rm * math.sin(math.radians(phi[0] / 2)) + r2 * math.sin(math.radians(phi[1] / 2)))
        H.eq("one corner", ec.notional_width(b, [rm], [phi[0]]), b + rm * math.sin(math.radians(phi[0] / 2)))
    elif q == "gr":
        t = H.real("t", 0.5, 4.0)
        v = math.radians(phi[0] / 2)
        H.eq("gr", ec.gr(rm, t, phi[0] / 2), (rm + t / 2) * (math.tan(v) - math.sin(v)))
    else:
        bp = [H.real("b1", 5.0, 400.0), H.real("b2", 5.0, 400.0)]
        r2 = H.real("r2", 0.5, 12.0)
        H.eq("delta", ec.rounding_factor([rm, r2], phi, bp), 0.43 * (rm * phi[0] / 90 + r2 * phi[1] / 90) / (bp[0] + bp[1]))


@job("K03", bounds="slenderness 0..6")
def distortional(H):
    x = H.real("lam", 0.0, 6.0)
    r = ec.distortional_buckling_reduction_factor(x)
    for name, c, v in (("plastic", x <= 0.65, 1.0), ("linear", (x > 0.65) & (x <= 1.38), 1.47 - 0.723 * x)):
        H.check("chi_d " + name, ~c | ((r - v < 1e-6) & (v - r < 1e-6)))
    H.check("chi_d elastic", (x <= 1.38) | ((r * x - 0.66 < 1e-5) & (0.66 - r * x < 1e-5)))
    y = x + H.real("dx", 0.0, 3.0)
    H.le("decreases", ec.distortional_buckling_reduction_factor(y), r + 6.1e-3)


@job("K03", bounds="lip to flange ratio 0..0.6")
def edge_stiffener(H):
    x = H.real("ratio", 0.0, 0.6)
    r = ec.buckling_factor_edge_stiffener(x)
    H.check("short lip", (x > 0.35) | ((r - 0.5 < 1e-6) & (0.5 - r < 1e-6)))
    u = (r - 0.5) / 0.83
    e = u * u * u - (x - 0.35) * (x - 0.35)
    H.check("long lip", (x <= 0.35) | ((e < 1e-6) & (e > -1e-6) & (r > 0.5 - 1e-6)))


@job("K03", bounds="Is 1..1e6 mm4, As 5..2000 mm2, K 1e-4..50 N/mm2")
def distortional_stress(H):
    Is, As, K = H.real("Is", 1.0, 1e6), H.choice("As", [5.0, 60.0, 2000.0]), H.choice("K", [1e-4, 0.02, 50.0])
    s = ec.distortional_buckling_stress(Is, As, 210e3, K)
    H.eq("square of the stress", s * s, 4 * K * 210e3 * Is / As ** 2)
    H.ge("positive", s, 0.0)


@job("K03", params=[dict(tension=k) for k in (0, 1)], bounds="fyb 220..420, A 100..3000, slenderness ratio 0..1")
def axial_resistance(H, tension):
    A = H.real("A", 100.0, 3000.0)
    fyb = H.choice("fyb", [235.0, 350.0])
    fya = fyb + H.choice("d", [0.0, 25.0])
    if tension:
        N = H.real("N", 0.0, BIG)
        H.eq("tension", ec.axial_force_resistance(None, N, A, fya=fya, fyb=fyb), fya * A)
        return
    N = H.real("N", -BIG, -1.0)
    if H.flag("slender"):
        Aeff = A * H.real("e", 0.2, 0.999)
        H.eq("effective area", ec.axial_force_resistance(None, N, A, fya=fya, fyb=fyb, Aeff=Aeff), fyb * Aeff)
    else:
        lam = H.real("lam", 0.0, 1.0)
        H.eq("fully effective", ec.axial_force_resistance(None, N, A, fya=fya, fyb=fyb, Aeff=A, lambda_ratio=lam),
             A * mn(fyb + 4 * (fya - fyb) * (1 - lam), fya))


def ref_one_web(H, fyb, t, hw, ss, c, r, phi, opposed, stiff_flange, stiff_web):
    k = fyb / 228
    h, s = hw / t, ss / t
    near = c <= 1.5 * hw
    if stiff_web:
        if near:
            f, a, b = ((1 + h / 750 if h < 150 else 1.2) if not opposed else (0.98 - h / 865) / k * (0.64 + 0.31 * t / 1.9)), 8.8, 1.1
        else:
            f, a, b = (mx(1.49 - 0.53 * k, 0.6) * (0.88 - 0.12 * t / 1.9) if not opposed
                       else (1 / k if h < 66.5 else (1.1 - h / 665) / k) * (0.82 + 0.15 * t / 1.9)), 13.2, 2.87
        return f * (a + b * s ** 0.5) * t * t * fyb
    k3 = 0.7 + 0.3 * (phi / 90) ** 2
    if near:
        f = (1.33 - 0.33 * k) * mn(mx(1.15 - 0.15 * r / t, 0.5), 1.0) * k3
        if opposed:
            g = (6.66 - h / 64) * (1 + 0.01 * s)
        elif stiff_flange:
            g = (9.04 - h / 60) * (1 + 0.01 * s)
        else:
            g = (5.92 - h / 132) * (1 + 0.01 * s if s <= 60 else 0.71 + 0.015 * s)
    else:
        f = k3 * (1.22 - 0.22 * k) * mn(1.06 - 0.06 * r / t, 1.0)
        if opposed:
            g = (21.0 - h / 16.3) * (1 + 0.0013 * s)
        else:
            g = (14.7 - h / 49.5) * (1 + 0.007 * s if s <= 60 else 0.75 + 0.011 * s)
    return f * g * t * t * fyb


@job("K03", params=[dict(free=f, opposed=o, flange=a, web=w) for f in ("hw", "ss", "r", "phi", "fyb", "c")
                    for o, a, w in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1), (1, 0, 1))],
     bounds="one web: fyb 220..460, t 0.8 or 2 mm, web height 40..300, bearing 10..150, c 0..600, r 0.5..10, 45..90 degrees, one free at a time")
def one_web(H, free, opposed, flange, web):
    t = H.choice("t", [0.8, 2.0])
    hw = H.real("hw", 40.0, 150 if t == 0.8 else 300.0) if free == "hw" else H.choice("hw", [50.0, 140.0])
    ss = H.real("ss", 10.0, 150.0) if free == "ss" else H.choice("ss", [20.0, 140.0])
    r = H.real("r", 0.5, 10.0) if free == "r" else 3.0
    phi = H.real("phi", 45.0, 90.0) if free == "phi" else 90.0
    fyb = H.real("fyb", 220.0, 460.0) if free == "fyb" else 350.0
    c = H.real("c", 0.0, 600.0) if free == "c" else H.choice("c", [20.0, 500.0])
    kw = {}
    if free == "phi" or H.flag("keywords"):
        kw = dict(phi=phi)
    if opposed:
        kw["e"] = 10.0
    if flange:
        kw["flange_stiffeners"] = True
    if web:
        kw["web_stiffeners"] = True
    R = ec.RwRd(fyb, t, hw, ss, c, r, **kw)
    H.eq("resistance", R, ref_one_web(H, fyb, t, hw, ss, c, r, phi, opposed, flange, web))


@job("K03", params=[dict(where=w, free=f) for w in ("end", "opposed", "far_end", "far_opposed", "support") for f in ("ss", "phi", "r", "V")],
     bounds="two or more webs (2006 rules): bearing 5..200 mm, 45..90 degrees, r 0..10t, any ratio of shear forces")
def two_webs(H, where, free):
    t = H.choice("t", [0.7, 1.5])
    hw = 100.0
    ss = H.real("ss", 5.0, 200.0) if free == "ss" else H.choice("ss", [40.0, 160.0])
    phi = H.real("phi", 45.0, 90.0) if free == "phi" else 70.0
    r = H.real("r", 0.0, 10 * t) if free == "r" else 3.0
    V = [H.choice("V0", [100.0, -100.0]), H.real("V1", -100.0, 100.0) if free == "V" else H.choice("V1", [0.0, 60.0, -76.0, 95.0])]
    k, lo, hi = {"end": ("c", 0.0, 149.0), "opposed": ("e", 0.0, 149.0), "far_end": ("c", 151.0, 900.0),
                 "far_opposed": ("e", 151.0, 900.0), "support": (None, 0, 0)}[where]
    kw = {k: H.real(k, lo, hi)} if k else {}
    two = where in ("far_end", "far_opposed", "support")
    R = ec.RwRd_two_webs(350.0, r, t, phi, hw, ss, VEd=V, **kw)
    if two:
        v0, v1 = abs(V[0]), mx(V[1], -V[1])
        beta = (v0 - v1) / (v0 + v1)
        la = ss if beta <= 0.2 else 10.0 if beta >= 0.3 else ss + (10.0 - ss) * (beta - 0.2) / 0.1
        a = 0.15
    else:
        a, la = 0.075, 10.0
    H.eq("resistance", R, a * t * t * (350.0 * 210e3) ** 0.5 * (1 - 0.1 * (r / t) ** 0.5) * (0.5 + (0.02 * la / t) ** 0.5) * (2.4 + (phi / 90) ** 2))


@job("K03", params=[dict(case=c) for c in ("equal", "thick", "between")],
     bounds="screws 3..8 mm, sheets 0.4..1.8 mm, supporting part up to 10 mm")
def screw_bearing(H, case):
    d = H.choice("d", [3.0, 4.8, 5.5, 6.3, 8.0])
    t = H.real("t", 0.4, 1.8)
    fu = H.real("fu", 300.0, 550.0)
    thin = mn(3.2 * (t / d) ** 0.5, 2.1)
    if case == "equal":
        t1, a = t, thin
    elif case == "thick":
        t1 = 2.5 * t + H.real("dt", 1e-6, 5.0)
        a = thin if t < 1.0 else 2.1
    else:
        s = H.real("s", 0.01, 0.99)
        t1 = t + 1.5 * t * s
        hi = thin if t < 1.0 else 2.1
        a = thin + s * (hi - thin)
    F, al = ec.screw_bearing_resistance(fu, d, t, t1)
    H.eq("alpha", al, a)
    H.eq("bearing resistance", F, a * fu * d * t / 1.25)


@job("K03", bounds="distances 0..60 mm, diameter 2..10 mm; areas and strengths arbitrary")
def screws(H):
    d = H.real("d", 2.0, 10.0)
    e1, e2, p1, p2 = (H.real(n, 0.0, 60.0) for n in ("e1", "e2", "p1", "p2"))
    ok = (e1 >= 3 * d) & (e2 >= 1.5 * d) & (p1 >= 3 * d) & (p2 >= 3 * d) & (d >= 3.0) & (d <= 8.0)
    r = ec.screw_validity(e1, e2, p1, p2, d, 1.0, 2.0)
    H.check("validity", ok if r else ~ok)
    A, fu = H.real("A", 1.0, 1e4), H.real("fu", 100.0, 900.0)
    H.eq("net section", ec.screw_net_secton_resistance(A, fu), A * fu / 1.25)
    for n, tab in (("hardened", {4.8: 5200, 5.5: 7200, 6.3: 9800, 8.0: 16300}), ("stainless", {4.8: 4600, 5.5: 6500, 6.3: 8500, 8.0: 14300})):
        for k, v in tab.items():
            H.eq(f"shear {n} {k}", ec.screw_shear_resistance_fin(k, n), v)


@job("K03", bounds="t 0.4..2 mm, purlin distance 300..4000, height 15..200, roof length as listed")
def sheeting_stiffness(H):
    t = H.real("t", 0.4, 2.0)
    s, hw = H.real("s", 300.0, 4000.0), H.real("hw", 15.0, 200.0)
    L = H.choice("broof", [3000.0, 12000.0, 48000.0])
    S = ec.sheeting_shear_stiffness(t, s, hw, L)
    q = S * hw / s / (50 + 10 * L ** (1 / 3)) / 1000
    H.eq("square", q * q, t * t * t)
    H.ge("positive", S, 0.0)


@job("K03", params=[dict(free=f, load=l, pos=p) for f in ("ba", "tnom", "A", "bT", "bR") for l in ("gravity", "uplift") for p in ("pos", "neg")
                    if (l, p) != ("uplift", "neg")],
     bounds="flange 40..200 mm, sheet 0.75..1.0 mm and as listed, load 1..12 kN, trough widths 10..300 mm")
def rotational_stiffness(H, free, load, pos):
    ba = H.real("ba", 40.0, 199.0) if free == "ba" else H.choice("ba", [60.0, 140.0])
    tn = H.real("tnom", 0.75, 1.0) if free == "tnom" else H.choice("tnom", [0.75, 0.8, 1.0, 1.25])
    A = H.real("A", 1.0, 12.0) if free == "A" else 8.0
    bT = H.real("bT", 10.0, 300.0) if free == "bT" else H.choice("bT", [30.0, 80.0, 150.0])
    bR = H.real("bR", 50.0, 400.0) if free == "bR" else H.choice("bR", [150.0, 250.0])
    C, bmax = {("gravity", "pos"): (5.2, 40), ("gravity", "neg"): (3.1, 120), ("uplift", "pos"): (2.6, 40)}[load, pos]
    kba = 1.25 * (ba / 100) if ba >= 125 else (ba / 100) ** 2
    kA = 1.0
    if load == "gravity":
        lo = 0.08 if pos == "pos" else 0.16
        k = lo + (0.095 - lo) * ((mn(tn, 1.0) if free == "tnom" else min(tn, 1.0)) - 0.75) / 0.25
        kA = 1 + (A - 1) * k
    R = ec.CD_A(ba, tn, pos, A, bT, bR, load)
    kbR = 1.0 if bR <= 185 else 185 / bR
    kbT = 1.0 if bT <= bmax else (bmax / bT) ** 0.5
    kt = (tn / 0.75) ** (1.1 if pos == "pos" else 1.5)
    if free == "ba":
        H.assume((ba < 124.999) | (ba > 125.001))
    H.eq("stiffness", R, C * kba * kt * kbR * kA * kbT)


# ------------------------------------------------------------------ K02: Z and C sections, trapezoidal sheets
import contextlib
import io
import metku.frame2d  # noqa: F401  (import order of the repository)
from metku.eurocodes.en1993.en1993_1_3 import cf_profs as cf
from metku.eurocodes.en1993.en1993_1_3.trapezoidal import TrapezoidalSheet

LIPS = {"both": (1, 1), "top": (1, 0), "bottom": (0, 1), "none": (0, 0)}
ARC = 12


def cold(H, kind, lips, free, **kw):
    g = dict(t=2.0, h=150.0, a=60.0, b=52.0, ca=21.0, cb=18.0, r=3.0)
    R = dict(t=(0.8, 3.0), h=(80.0, 350.0), a=(35.0, 95.0), b=(35.0, 95.0), ca=(12.0, 32.0), cb=(12.0, 32.0), r=(1.0, 7.0))
    if free:
        g[free] = H.real(free, *R[free])
    if not LIPS[lips][0]:
        g["ca"] = 0
    if not LIPS[lips][1]:
        g["cb"] = 0
    with contextlib.redirect_stdout(io.StringIO()):
        s = (cf.ZSection if kind == "Z" else cf.CSection)(t_nom=g["t"], h=g["h"], a=g["a"], b=g["b"], ca=g["ca"], cb=g["cb"], r=g["r"], **kw)
    return s, g


def outline(kind, g):
    """centre line from the tip of the bottom lip to that of the top lip, with finely divided corners"""
    t, r = g["t"], g["r"] + g["t"] / 2
    hc = (g["h"] - t) / 2
    bb = g["b"] - (t if g["cb"] else t / 2)
    bt = g["a"] - (t if g["ca"] else t / 2)
    sb = -1.0 if kind == "Z" else 1.0

    def arc(cy, cz, u, v):
        # from centre + r*u to centre + r*v, u and v being perpendicular
        cs = [(1.0, 0.0)] + [(math.cos(math.pi / 2 * i / ARC), math.sin(math.pi / 2 * i / ARC)) for i in range(1, ARC)] + [(0.0, 1.0)]
        return [[cy + r * (x * u[0] + y * v[0]), cz + r * (x * u[1] + y * v[1])] for x, y in cs]
    p = []
    if g["cb"]:
        p += [[sb * bb, -hc + (g["cb"] - t / 2)]]
        p += arc(sb * (bb - r), -hc + r, (sb, 0), (0, -1))
    else:
        p += [[sb * bb, -hc]]
    p += arc(sb * r, -hc + r, (0, -1), (-sb, 0))
    p += arc(r, hc - r, (-1, 0), (0, 1))
    if g["ca"]:
        p += arc(bt - r, hc - r, (0, 1), (1, 0))
        p += [[bt, hc - (g["ca"] - t / 2)]]
    else:
        p += [[bt, hc]]
    return p


GEO = {"both": ["h", "a", "b", "ca", "cb", "r", "t"], "top": ["a", "ca"], "bottom": ["b", "cb"], "none": ["a", "b"]}


@job("K02", params=[dict(kind=k, lips=l, free=f) for k in "ZC" for l in GEO for f in GEO[l]],
     bounds="height 80..350, flanges 35..95, lips 0 or 12..32, radius 1..7, thickness 0.8..3 mm; one free at a time")
def widths(H, kind, lips, free):
    s, g = cold(H, kind, lips, free)
    t, r, h = g["t"], g["r"], g["h"]
    rm = r + t / 2
    q = rm * math.sin(math.radians(45))
    top, bot = LIPS[lips]
    H.eq("t", s.t, t - 0.04)
    ct, cb, hw = g["a"] - (1 + top) * (r + t), g["b"] - (1 + bot) * (r + t), h - 2 * (r + t)
    lt, lb = (g["ca"] - r - t if top else 0), (g["cb"] - r - t if bot else 0)
    for n, c, e in (("c_top", s.c_top, ct), ("c_bottom", s.c_bottom, cb), ("hw", s.hw, hw), ("top lip", s.ca_straight, lt), ("bottom lip", s.cb_straight, lb),
                    ("web centre", s.hw_center, h - t), ("top centre", s.bt_center, g["a"] - (t if top else t / 2)),
                    ("bottom centre", s.bb_center, g["b"] - (t if bot else t / 2)),
                    ("top lip centre", s.bt_lip_center, g["ca"] - t / 2 if top else 0), ("bottom lip centre", s.bb_lip_center, g["cb"] - t / 2 if bot else 0),
                    ("bp web", s.bp_w, hw + 2 * q), ("bp top", s.bp_t, ct + (1 + top) * q), ("bp bottom", s.bp_b, cb + (1 + bot) * q),
                    ("bp top lip", s.bp_t_lip, lt + q if top else 0), ("bp bottom lip", s.bp_b_lip, lb + q if bot else 0)):
        H.eq(n, c, e, scale=10.0)
    H.eq("gr", s.gr, rm * (1 - math.sqrt(0.5)))
    L = ct + cb + hw + lt + lb + (2 + top + bot) * math.pi / 2 * rm
    H.eq("length", s.center_line_length(), L)
    H.eq("area", s.Agross(), L * (t - 0.04))
    H.eq("weight", s.weight(), L * (t - 0.04) * 7850e-9)
    H.same("symmetric", bool(s.issymmetric()), bool((g["a"] == g["b"]) & (g["ca"] == g["cb"])))
    fya = 350 + (420 - 350) * 7 * 4 * (t - 0.04) / L
    H.eq("average yield strength", s.fya, mn(fya, 385.0))


SOFT = {"both": ["h", "a", "cb", "t"], "top": ["b"], "bottom": ["a"], "none": ["b"]}


@job("K02", params=[dict(kind=k, lips=l, free=f) for k in "ZC" for l in SOFT for f in SOFT[l]],
     bounds="as widths; against the centre line with exact corners, tolerance 0.5 %")
def gross(H, kind, lips, free):
    s, g = cold(H, kind, lips, free)
    p = outline(kind, g)
    ref = integrals(p, [g["t"] - 0.04] * (len(p) - 1))
    tol = dict(rel=5e-3)
    H.eq("area", s.A, ref["A"], **tol)
    y, z = s.centroid()
    H.eq("centroid y", y, ref["yc"], scale=40.0, **tol)
    H.eq("centroid z", z, ref["zc"], scale=40.0, **tol)
    H.eq("Iy", s.Iy, ref["Iy"], **tol)
    H.eq("Iz", s.Iz, ref["Iz"], **tol)
    H.eq("Iyz", s.Iyz, ref["Iyz"], scale=6e5 if kind == "Z" else 2e5, **tol)
    t = g["t"] - 0.04
    H.eq("torsion constant", s.It, s.Agross() * t * t / 3, **tol)


@job("K02", params=[dict(kind=k, part=q, free=f) for k in "ZC" for q in ("top", "bottom", "top_out", "bottom_out", "web") for f in ("a", "b", "h", "t")
                    if f == "t" or (f == "a") == q.startswith("top") and (f == "h") == (q == "web")],
     bounds="as widths; stress ratio of the web -2..1")
def plates(H, kind, part, free):
    lips = {"top": "both", "bottom": "both", "web": "both", "top_out": "bottom", "bottom_out": "top"}[part]
    s, g = cold(H, kind, lips, free)
    t = s.t
    eps = math.sqrt(235 / 350)
    if part == "web":
        psi = H.choice("psi", [1.0, 0.5, 0.0, -0.4, -1.0, -1.7])
        s.effective_width_web(psi)
        k = 8.2 / (1.05 + psi) if psi >= 0 else (7.81 - 6.29 * psi + 9.78 * psi * psi if psi > -1 else 5.98 * (1 - psi) ** 2)
        lam = s.bp_w / t / (28.4 * eps * math.sqrt(k))
        c = 0.055 * (3 + psi)
        lim = 0.5 + math.sqrt(max(0.085 - 0.055 * psi, 0))
        rho, got, gl = (1.0 if lam <= lim else mn((lam - c) / lam ** 2, 1.0)), s._rho_w, s._lambda_w
        H.eq("psi", s._psi_w, psi)
        H.assume((lam < lim - 1e-4) | (lam > lim + 1e-4))
    else:
        f = part.split("_")[0]
        s.effective_width_flange(1.0, f)
        bp = s.bp_t if f == "top" else s.bp_b
        k, c, lim = (0.43, 0.188, 0.748) if "out" in part else (4.0, 0.22, 0.673)
        lam = bp / t / (28.4 * eps * math.sqrt(k))
        H.assume((lam < lim - 1e-4) | (lam > lim + 1e-4))
        rho = 1.0 if lam <= lim else (lam - c) / lam ** 2
        got, gl = (s._rho_t, s._lambda_t) if f == "top" else (s._rho_b, s._lambda_b)
        other = s._rho_b if f == "top" else s._rho_t
        H.eq("other flange untouched", other, 1.0)
    H.eq("slenderness", gl, lam, rel=2e-3)
    H.eq("reduction", got, rho, rel=3e-3)


@job("K02", params=[dict(kind=k, f=f, free=v) for k in "ZC" for f, v in (("top", "a"), ("top", "ca"), ("top", "t"), ("bottom", "b"), ("bottom", "cb"))],
     bounds="as widths, lip at most 0.6 of the flange")
def lips(H, kind, f, free):
    s, g = cold(H, kind, "both", free)
    bp, bc = (s.bp_t, s.bp_t_lip) if f == "top" else (s.bp_b, s.bp_b_lip)
    q = bc / bp
    H.assume(q < 0.599)
    s.effective_width_edge_stiffener(f)
    lam, rho = (s._lambda_t_lip, s._rho_t_lip) if f == "top" else (s._lambda_b_lip, s._rho_b_lip)
    k = (bc / s.t / (28.4 * math.sqrt(235 / 350) * lam))
    k = k * k
    u = (k - 0.5) / 0.83
    e = u * u * u - (q - 0.35) * (q - 0.35)
    H.check("buckling factor of a short lip", (q > 0.35) | ((k < 0.5003) & (k > 0.4997)))
    H.check("buckling factor of a long lip", (q <= 0.351) | ((e < 1e-3) & (e > -1e-3)))
    H.check("reduction", ((lam <= 0.7491) & (rho == 1.0)) | ((lam > 0.7479) & (rho * lam * lam - lam + 0.188 < 1e-5) & (rho * lam * lam - lam + 0.188 > -1e-5)))


@job("K02", params=[dict(kind="Z", free=f) for f in ("t", "a", "h")], bounds="as widths; fastener at 0..60 mm, CD 50..5000")
def sheeting(H, kind, free):
    s, g = cold(H, kind, "both", None if free != "t" else None)
    for n, lo, hi in (("t", 0.8, 3.0), ("a", 35.0, 95.0), ("h", 80.0, 350.0)):
        if n == free:
            v = H.real(n, lo, hi)
            if n == "t":
                s.t_core = v
            elif n == "a":
                s._a = v
            else:
                s._h = v
    afp = H.choice("afp", [0.0, 25.0, 60.0])
    load = H.choice("load", ["gravity", "uplift"])
    kh = s.kh(load)
    bm = afp or s.a / 2
    if not kh > 0:
        bm = 2 * bm + s.b
    hd = s.h - s.t_nom
    KB = s.t ** 3 * 210e3 / (4 * (1 - 0.3 ** 2) * hd ** 2 * (hd + bm))
    H.eq("KB", s.KB(load, afp), KB)
    CD = H.real("CD", 50.0, 5000.0)
    with contextlib.redirect_stdout(io.StringIO()):
        K = s.K(load, afp, CD)
    H.eq("K", K * (1 / KB + hd * hd / CD), 1.0)


@job("K02", bounds="sheets of 0.5..2 mm, height 20..200, flanges 20..200, webs at 45..90 degrees, 1..6 troughs")
def trapezoidal(H):
    t, h = H.real("t", 0.5, 2.0), H.real("h", 20.0, 200.0)
    bt, bb = H.real("bt", 20.0, 200.0), H.real("bb", 20.0, 200.0)
    ang = H.choice("angle", [45.0, 55.0, 61.0, 70.0, 80.0, 90.0])
    n = H.choice("n", [1, 3, 6])
    s = TrapezoidalSheet(t, h, bt, bb, ang, ntroughs=n)
    v = math.radians(ang)
    H.eq("thickness", s.t, t - 0.04)
    H.eq("height between centre lines", s.hw, h - t)
    H.eq("web", s.sw * math.sin(v), h - t)
    H.between("pitch", bt + bb + 2 * (h - t) / math.tan(v) - 1e-6, s.pitch, bt + bb + 2 * h / math.tan(v) + 1e-6)
    H.eq("width", s.width, n * s.pitch)
    H.eq("area", s.A, n * (t - 0.04) * (bt + bb + 2 * (h - t) / math.sin(v)))


# ------------------------------------------------------------------ K04: stressed skin diaphragms
import metku.structures.steel.steel_member  # noqa: F401,E402
from metku.structures.steel import stressed_skin as sk  # noqa: E402
from metku.sections.steel.RHS import RHS  # noqa: E402


def skin(H, free, loc, **kw):
    g = dict(t=1.0, h=130.0, bt=111.0, bb=75.0, a=24000.0, b=6000.0, d=4.8, s1=500.0, s2=250.0, ang=61.0)
    R = dict(t=(0.5, 1.5), h=(100.0, 135.0), bt=(85.0, 120.0), bb=(70.0, 90.0), a=(6000.0, 40000.0), b=(3000.0, 12000.0))
    g.update(kw)
    if free:
        g[free] = H.real(free, *R[free])
    g["n"] = H.choice("n", [4, 12])
    g["nt"] = H.choice("troughs", [3, 4, 5])
    sheet = TrapezoidalSheet(g["t"], g["h"], g["bt"], g["bb"], g["ang"], ntroughs=g["nt"])
    edge = RHS(100, 100, 5)
    s = sk.StressedSkinRafters(sheet, g["a"], g["b"], g["n"], {"d": g["d"], "spacing": g["s1"], "loc": loc},
                               {"d": 5.5, "spacing": g["s2"]}, RHS(160, 160, 6), edge)
    return s, g, sheet, edge



@job("K04", params=[dict(loc=l, free=f) for l in ("trough", "crest") for f in ("t", "a", "b", "bt")],
     bounds="sheets of 0.5..1.5 mm, panels 6..40 m by 3..12 m; screws 4.8 or 5.5 mm; 3 to 5 corrugations per sheet")
def strength(H, loc, free):
    d = H.choice("d", [4.8, 5.5])
    s, g, sheet, edge = skin(H, free, loc, d=d)
    t, nt = sheet.t, g["nt"]
    if free == "t":
        H.assume((t < 0.999) | (t > 1.001))
        H.assume(t < 2.39 / 1.0)
    fu = 420.0
    thin = mn(3.2 * (t / d) ** 0.5, 2.1)
    Fs = thin * fu * d * t / 1.25
    # the members are at least 2.5 times thicker than the sheet, or the factor is interpolated

    def member(d, t1):
        lo = mn(3.2 * (t / d) ** 0.5, 2.1)
        hi = lo if t < 1.0 else 2.1
        k = hi if t1 >= 2.5 * t else lo + (hi - lo) * (t1 - t) / (1.5 * t)
        return k * fu * d * t / 1.25
    Fp, Fc = member(d, 6.0), member(5.5, 5.0)
    H.eq("seam fastener", s.Fs(), Fs)
    H.eq("rafter fastener", s.Fp(), Fp)
    H.eq("edge fastener", s.Fsc(), Fc)
    m = nt - 1 if loc == "trough" else nt
    # fasteners on both sides of the middle of the sheet, cubes of their relative distances
    b1 = sum((2 * abs(i - (nt - 1) / 2) / m) ** 3 for i in range(nt)) / 2
    b3 = 1.0 if loc == "trough" else (nt - 1) / nt
    H.eq("beta1", s.beta1(), b1)
    H.eq("beta3", s.beta3(), b3)
    a, b = g["a"], g["b"]
    if free == "b":
        ns = s.ns
        H.between("seam fasteners", b - g["s1"] - 1e-6, (ns + 1) * g["s1"], b + 1e-6)
        nc = s.nsc
        H.between("edge fasteners", b - g["s2"] - 1e-6, nc * g["s2"], b + 1e-6)
    else:
        ns, nc = int(b / g["s1"]) - 1, int(b / g["s2"])
        H.same("seam fasteners", s.ns, ns)
        H.same("edge fasteners", s.nsc, nc)
    H.eq("seam", s.seam_strength(), a / b * (ns * Fs + b1 / b3 * Fp))
    H.eq("edge members", s.edge_member_fastener_strength(), a / b * Fc * nc)
    H.eq("rafters", s.sheet_rafter_fastener_strength() * s.sheet.pitch, 0.6 * a * Fp)
    V = s.end_collapse()
    H.eq("end collapse", V * V * s.sheet.pitch, (0.9 * a * 350.0) ** 2 * t ** 3)


@job("K04", params=[dict(free=f) for f in ("t", "a", "b", "h", "bt")], bounds="as strength")
def flexibility(H, free):
    s, g, sheet, edge = skin(H, free, "trough")
    a, b, t, d = g["a"], g["b"], sheet.t, sheet.pitch
    E = 210.0
    c12 = 2 * a * 1.3 * (1 + 2 * g["h"] / d) / (E * t * b)
    H.eq("shear strain", s.shear_strain(False), c12)
    l, h = sheet.bt / d, sheet.h / d
    for q in (l, h):
        for k in (0.1, 0.2, 0.3, 0.4, 0.5, 0.6):
            H.assume((q > k + 1e-6) | (q < k - 1e-6))
    K = sk.K1[25][int(h * 10) - 1][int(l * 10) - 1]
    H.eq("distortion factor", s.K(), K)
    c11 = s.profile_distortion(False)
    q = c11 * E * b * b / (a * K)
    # c11 = a d^2.5 K / (E t^2.5 b^2); squared, 5th powers
    H.eq("distortion", q * q * t ** 5, d ** 5)
    sp, ss, sc = 0.35, 0.25, 0.35
    ns, nc, nsh = s.ns, s.nsc, s.nsh
    if free not in ("a", "bt"):
        H.same("sheets", nsh, round(g["a"] / sheet.width))
    else:
        H.between("sheets", a - 0.5001 * sheet.width, nsh * sheet.width, a + 0.5001 * sheet.width)
    c2 = s.fastener_deformation(False)
    H.eq("rafter fasteners", c2[0], 2 * a * sp * d / b ** 2)
    H.eq("seams", c2[1] * (ns * sp + s.beta1() * ss), ss * sp * (nsh - 1))
    H.eq("edge fasteners", c2[2], 2 * sc / nc)
    c3 = g["n"] ** 2 * b ** 3 / (E * edge.A * a * a)
    H.eq("edge member", s.edge_member_strain(False), c3)
    H.eq("panel", s.shear_flexibility(False), b * b / (a * a) * (c11 + c12 + c2[0] + c2[1] + c2[2]) + c3)
