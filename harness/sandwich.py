"""Sandwich panels with steel faces (K05)."""
import math

from symx.registry import job
import metku.structures.steel.steel_member  # noqa: F401  (import order of the repository)
from metku.sandwich.sandwich import SandwichPanel, SandwichScrew, Face, Core

RANGE = dict(t1=(0.4, 1.2), t2=(0.42, 1.2), tc=(40.0, 240.0), G=(1.0, 8.0), b=(400.0, 1400.0), d1=(3.0, 8.0), dS=(3.0, 8.0), coat=(0.0, 0.1), tsup=(1.0, 15.0))


def panel(H, free):
    g = dict(t1=0.6, t2=H.choice("t2", [0.5, 0.8]), tc=98.9, G=3.7, b=1200.0, d1=4.59, dS=5.1, coat=0.04, tsup=H.choice("tsup", [4.0, 10.0]))
    for f in free.split():
        g[f] = H.real(f, *RANGE[f])
    # the two formulas for thin and thick inner faces do not meet exactly
    core2 = g["t2"] - g["coat"]
    H.assume((core2 < 0.7 - 1e-6) | (core2 > 0.7 + 1e-6))
    n = H.choice("screw pairs", [1, 3])
    c = [1000.0, 560.0, 130.0][:n]
    if free == "t1 t2":
        c[0] = H.real("c0", 100.0, 1200.0)
    p = SandwichPanel([Face(g["t1"], "S280GD", tcoat=g["coat"]), Face(g["t2"], "S280GD", tcoat=g["coat"])], Core(g["tc"], g["G"], 110e-9),
                      g["b"], 6000.0, c, SandwichScrew(5.5, g["dS"], g["d1"]))
    return p, g, c


@job("K05", params=[dict(free=f) for f in ("t1 t2", "t1 tc", "b G")], bounds="faces 0.4..1.2 mm, core 40..240 mm, width 400..1400 mm, two free at a time")
def stiffness(H, free):
    p, g, _ = panel(H, free)
    t1, t2, tc, b, E = g["t1"], g["t2"], g["tc"], g["b"], 210e3
    H.eq("thickness", p.thickness, t1 + t2 + tc)
    d = tc + (t1 + t2) / 2
    H.eq("distance of the faces", p.d, d)
    H.eqs("areas", [p.Atop, p.Abottom], [t1 * b, t2 * b])
    H.eq("shear stiffness", p.S * tc, g["G"] * b * d * d)
    H.eq("faces alone", p.EIo, E * b * (t1 ** 3 + t2 ** 3) / 12)
    # first and second moments of the faces about their common axis, taken from the middle of the bottom face
    zs = t1 * d / (t1 + t2)
    H.eq("both faces", p.EIs, E * b * (t1 * (d - zs) ** 2 + t2 * zs ** 2))


@job("K05", params=[dict(free=f) for f in ("t2", "tc", "d1", "dS", "coat", "tsup", "t1")],
     bounds="faces 0.4..1.2 mm, coating up to 0.1 mm, core 40..240 mm, screws 3..8 mm, support 1..15 mm, one free at a time")
def fastener(H, free):
    p, g, c = panel(H, free)
    fu, D, ts = 360.0, g["t1"] + g["t2"] + g["tc"], g["tsup"]
    t = g["t2"] - g["coat"]
    V = p.fastener_shear_resistance()
    H.check("resistance positive", V > 0)
    H.eq("resistance", (V * 1.25) ** 2, 4.2 ** 2 * t ** 3 * g["d1"] * fu * fu, scale=1e6)
    # springs: hole in the face, clamping in the support, bending of the screw
    hole = fu * (t ** 3 * g["d1"]) ** 0.5 * (6.93 / (0.26 + 0.8 * g["t2"]) if t < 0.7 else 4.2 / 0.373)
    clamp = 2400.0 * (ts * g["d1"] ** 5) ** 0.5
    EI = 200e3 * math.pi * g["dS"] ** 4 / 64
    x = 1 - (1 / hole - D * ts / 2 / clamp - D * ts * ts / 8 / EI) / (1 / hole + D * D / clamp + D * D * (2 * D + 3 * ts) / 6 / EI)
    soft = x / hole + (ts * ts + 2 * (1 - x) * D * ts) / 4 / clamp + (3 * (1 - x) * D * ts * ts + ts ** 3) / 24 / EI
    k = p.fastener_transverse_stiffness(ts)
    H.eq("stiffness", k * soft, 1.0)
    L = H.real("L", 1000.0, 20000.0)
    n = H.choice("panels", [1, 5])
    H.eq("shear stiffness for a member", p.shear_stiffness_for_support(ts, L, n) * L, 0.5 * k * n * sum(ci * ci for ci in c))
