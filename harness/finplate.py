"""Fin plate joints (J01)."""
import contextlib
import io
import math

import metku.structures.steel.steel_member  # noqa: F401  (import order of the repository)
from symx.registry import job
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlate, RectPlateWithHoles
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt, nut_size, washer_size
from metku.sections.steel.ISection import IPE, HEA
from metku.cost.workshop import Workshop
from metku.cost import cost_data
from harness.ec3_member import mx, mn

S3 = math.sqrt(3.0)
BASE = dict(bp=150.0, hp=260.0, tp=10.0, x0=55.0, p1=72.0, p2=58.0, gh=10.0, pos=0.0, d=20)
RANGE = dict(bp=(110.0, 260.0), hp=(190.0, 400.0), tp=(4.0, 25.0), x0=(35.0, 120.0), p1=(40.0, 90.0), p2=(40.0, 90.0),
             gh=(0.0, 25.0), pos=(-60.0, 60.0))
AS = {12: 84.3, 16: 157.0, 20: 245.0, 24: 353.0}
D0 = {12: 13, 16: 18, 20: 22, 24: 26}
FUB = {4.6: 400.0, 5.6: 500.0, 8.8: 800.0, 10.9: 1000.0}
FU = {"S235": 360.0, "S355": 510.0}


def values(H, free, n1, n2):
    g = dict(BASE)
    if n1 == 4:
        g["hp"] = 330.0
    if free:
        g[free] = H.real(free, *RANGE[free])
    g["d"] = H.choice("d", [12, 20, 24]) if free in ("tp", "hp") else 20
    if n2 == 1:
        g["p2"] = 0
    g["cls"] = H.choice("class", [8.8, 10.9, 4.6] if free == "tp" else [8.8])
    g["grade"] = H.choice("grade", ["S355", "S235"])
    return g


def make(g, n1, n2, beam):
    pl = RectPlateWithHoles(g["bp"], g["hp"], g["tp"], 1.0, [g["x0"], 45.0], g["p2"], g["p1"], n1, n2, g["grade"])
    j = FinPlateJoint(beam, pl, Bolt(g["d"], g["cls"]), g["gh"])
    j.plate_pos_y = g["pos"]
    return j


def bearing(fu, t, d, cls, e1, e2, p2):
    d0 = D0[d]
    k1 = mn(mn(2.8 * e2 / d0 - 1.7, 1.4 * p2 / d0 - 1.7), 2.5)
    return k1 * mn(mn(e1 / 3 / d0, FUB[cls] / fu), 1.0) * fu * d * t / 1.25


def reference(g, n1, n2, beam, groups=False):
    """resistances of ECCS 126 for a fin plate with n1 rows and n2 columns of bolts"""
    d0, n, fy, fu = D0[g["d"]], n1 * n2, float(g["grade"][1:]), FU[g["grade"]]
    hp, tp, p1, p2 = g["hp"], g["tp"], g["p1"], g["p2"]
    e1 = (hp - (n1 - 1) * p1) / 2
    e2 = g["bp"] - g["x0"] - (n2 - 1) * p2
    z = g["x0"] + (n2 - 1) * p2 / 2
    e2b = g["x0"] - g["gh"]
    e1b = beam.h / 2 - g["pos"] - (n1 - 1) * p1 / 2
    Fv = (0.5 if g["cls"] == 10.9 else 0.6) * FUB[g["cls"]] * AS[g["d"]] / 1.25
    # the force on the outermost bolt from a unit shear force at the support: vertical and horizontal parts
    # from the polar moment of the bolt group
    I = sum(((i - (n2 - 1) / 2) * p2) ** 2 + ((k - (n1 - 1) / 2) * p1) ** 2 for i in range(n2) for k in range(n1))
    up = 1 / n + z * ((n2 - 1) / 2 * p2) / I
    across = z * ((n1 - 1) / 2 * p1) / I
    pp = p2 if n2 > 1 else 1e5
    r = dict(e1=e1, e2=e2, z=z, e1b=e1b, e2b=e2b)
    inv = {}
    inv["shear"] = (up * up + across * across) / Fv ** 2
    if groups:
        a, b = bearing(fu, tp, g["d"], g["cls"], e1, e2, pp), bearing(fu, tp, g["d"], g["cls"], e2, e1, p1)
        inv["bearing"] = up * up / a ** 2 + across * across / b ** 2, a, b
    fyb, fub, tw = beam.fy, beam.fu, beam.tw
    if groups:
        a, b = bearing(fub, tw, g["d"], g["cls"], e1, e2b, pp), bearing(fub, tw, g["d"], g["cls"], e2b, e1, p1)
        inv["web"] = up * up / a ** 2 + across * across / b ** 2, a, b
    r["gross"] = hp * tp * fy / 1.27 / S3
    r["net"] = tp * (hp - n1 * d0) * fu / S3 / 1.25
    r["block"] = 0.5 * fu * tp * (e2 + (n2 - 1) * p2 - (n2 - 0.5) * d0) / 1.25 + fy * tp * (hp - e1 - (n1 - 0.5) * d0) / S3
    r["bending"] = tp * hp * hp / 6 * fy / z
    r["beam_gross"] = beam.Ashear[1] * fyb / S3
    r["beam_net"] = (beam.Ashear[1] - n1 * d0 * tw) * fub / S3 / 1.25
    r["beam_block"] = 0.5 * fub * tw * (e2b + (n2 - 1) * p2 - (n2 - 0.5) * d0) / 1.25 + fyb * tw * (e1b + (n1 - 1) * p1 - (n1 - 0.5) * d0) / S3
    return r, inv


METHODS = dict(gross="fin_plate_shear_gross", net="fin_plate_shear_net", block="fin_plate_block_tearing", bending="fin_plate_bending",
               beam_gross="beam_web_shear_gross", beam_net="beam_web_shear_net", beam_block="beam_web_block_tearing")
BEAM = IPE(400)
CASES = [(n1, n2) for n1 in (2, 3, 4) for n2 in (1, 2)]


@job("J01", params=[dict(n1=a, n2=b, free=f) for a, b in CASES for f in RANGE if b == 2 or f != "p2"],
     bounds="2 to 4 rows and 1 or 2 columns of bolts; plate 110..260 x 190..400 x 4..25 mm, distances 35..120 mm, gap 0..25, eccentricity +-60 mm, one free at a time")
def plates(H, n1, n2, free):
    g = values(H, free, n1, n2)
    j = make(g, n1, n2, BEAM)
    r, _ = reference(g, n1, n2, BEAM)
    for k in ("e1", "e2", "z", "e1b", "e2b"):
        H.eq(k, getattr(j, k), r[k], scale=10.0)
    H.eq("bolts", j.plate.n, n1 * n2)
    H.eq("hole", j.plate.d0, D0[g["d"]])
    for k, m in METHODS.items():
        H.eq(k, getattr(j, m)(), r[k], scale=1e5)


@job("J01", params=[dict(n1=a, n2=b, free=f) for a, b in CASES for f in RANGE if b == 2 or f != "p2"],
     bounds="as plates")
def bolts(H, n1, n2, free):
    g = values(H, free, n1, n2)
    e1 = (g["hp"] - (n1 - 1) * g["p1"]) / 2
    e2 = g["bp"] - g["x0"] - (n2 - 1) * g["p2"]
    for e in (e1, e2, g["x0"] - g["gh"]):
        H.assume(e > 1.05 * D0[g["d"]])
    j = make(g, n1, n2, BEAM)
    _, inv = reference(g, n1, n2, BEAM, True)
    V = j.bolt_shear()
    H.ge("shear positive", V, 0.0)
    H.eq("bolt shear", V * V * inv["shear"], 1.0)
    for name, m in (("bearing", j.fin_plate_bearing), ("web", j.beam_web_bearing)):
        q, a, b = inv[name]
        V = m()
        H.ge(name + " positive", V, 0.0)
        H.eq(name, V * V * q, 1.0)


@job("J01", params=[dict(free=f, slender=s) for f in ("hp", "x0", "tp") for s in (0, 1) if (f, s) != ("tp", 1)], bounds="as plates; one column of three bolts; plates of 4..12 mm when slender")
def ltb(H, free, slender):
    g = values(H, free, 3, 1)
    if free != "tp":
        g["tp"] = H.choice("tp", [4.0, 8.0, 12.0])
    z = g["x0"]
    H.assume(z > g["tp"] / 0.15 + 1e-6 if slender else z < g["tp"] / 0.15 - 1e-6)
    j = make(g, 3, 1, BEAM)
    fy = float(g["grade"][1:])
    V = g["tp"] * g["hp"] ** 2 / 6 * fy / z
    R = j.fin_plate_ltb()
    if not slender:
        H.eq("plate bending", R, V)
        return
    lam2 = (2.8 / (math.pi * math.sqrt(210e3 / fy))) ** 2 * z * g["hp"] / 1.5 / g["tp"] ** 2
    # curve d: chi solves (1 - chi)(1/chi - lam^2) = 0.76 (lam - 0.2), i.e. lam = chi-dependent; squared to avoid the root
    c = R / V
    H.between("within", 0.0, c, 1.0 + 1e-9)
    chi = 0.6 * c
    u = (1 - chi) * (1 - chi * lam2)
    low = 1.0 - 1e-7 > c
    w = u / (0.76 * chi) + 0.2
    # w is the slenderness that would give chi
    H.check("buckling curve", ~low | ((w * w - lam2 < 1e-4 * lam2) & (lam2 - w * w < 1e-4 * lam2)))
    H.check("full", low | (lam2 < 1.0))


@job("J01", params=[dict(n2=n, free=f) for n in (1, 2) for f in ("hp", "bp", "x0", "p1", "gh", "p2") if n == 2 or f != "p2"],
     bounds="as plates, 2 or 3 rows; bolt distances from 20 mm")
def positions(H, n2, free):
    n1 = H.choice("n1", [2, 3])
    g = values(H, None, n1, n2)
    g["d"] = H.choice("d", [12, 20, 24])
    lo, hi = RANGE[free]
    g[free] = H.real(free, lo if free in ("hp", "bp") else 10.0 if free != "gh" else 0.0, hi)
    if free != "hp":
        g["hp"] = 260.0
    d0 = D0[g["d"]]
    e1 = (g["hp"] - (n1 - 1) * g["p1"]) / 2
    e2 = g["bp"] - g["x0"] - (n2 - 1) * g["p2"]
    terms = [(e1, 1.2), (e2, 1.2), (g["x0"] - g["gh"], 1.2), (g["p1"], 2.2)] + ([(g["p2"], 2.4)] if n2 == 2 else [])
    for v, k in terms:
        H.assume((v > k * d0 + 1e-6) | (v < k * d0 - 1e-6))
    j = make(g, n1, n2, BEAM)
    ok = j.check_bolt_position()
    good = terms[0][0] > terms[0][1] * d0
    for v, k in terms[1:]:
        good = good & (v > k * d0)
    if isinstance(good, (bool,)):
        H.same("allowed", bool(ok), good)
    else:
        H.check("allowed", good if ok else ~good)


@job("J01", params=[dict(attr=a) for a in ("hp", "tp", "p1", "p2", "bp")], bounds="as plates; the dimension changed after the resistances were evaluated")
def updated(H, attr):
    n1, n2 = 3, 2
    g = values(H, None, n1, n2)
    j = make(g, n1, n2, BEAM)
    for m in METHODS.values():
        getattr(j, m)()
    j.bolt_shear(), j.fin_plate_bearing(), j.beam_web_bearing(), j.check_bolt_position()
    g[attr] = H.real(attr, *RANGE[attr])
    setattr(j, attr, g[attr])
    H.eq("attribute", getattr(j, attr), g[attr])
    r, _ = reference(g, n1, n2, BEAM)
    for k in ("e1", "e2", "z", "e1b", "e2b"):
        H.eq(k, getattr(j, k), r[k], scale=10.0)
    for k, m in METHODS.items():
        H.eq(k, getattr(j, m)(), r[k], scale=1e5)


@job("J01", params=[dict(n2=n, free=f) for n in (1, 2) for f in ("hp", "tp", "bp")], bounds="as plates; bolts M12..M24, 50 or 70 mm long, both thread types")
def costs(H, n2, free):
    n1 = H.choice("n1", [2, 4])
    g = values(H, free, n1, n2)
    if free == "tp":
        g["tp"] = H.choice("tp2", [5.0, 8.0, 12.0, 25.0])
    j = make(g, n1, n2, BEAM)
    L = H.choice("length", [30.0, 50.0, 68.0])
    with contextlib.redirect_stdout(io.StringIO()):
        j.bolt = Bolt(g["d"], g["cls"], length=L)
    ws = Workshop()
    with contextlib.redirect_stdout(io.StringIO()):
        total = j.cost(ws)
        again = j.cost(ws)
    H.eq("same again", again, total)
    c = j._cost
    H.eq("total", total, sum(c.values()))
    n = n1 * n2
    # the shortest partially threaded bolt that is long enough, else a fully threaded one
    price = next(t[k][g["d"]] for t in (cost_data.bolt_unit_cost_part_thread, cost_data.bolt_unit_cost_full_thread)
                 for k in t if k >= L and t[k][g["d"]] != "N/A")
    H.eq("bolts", c["bolts"], n * (price + cost_data.nut_unit_cost[g["d"]] + cost_data.washer_unit_cost[g["d"]]))
    H.eq("beam holes", c["beam holes"], ws.cost_centres["cutting"].cost(BEAM.tw, n * D0[g["d"]] * math.pi))
    H.eq("welding", c["welding"], ws.cost_centres["assembly_welding"].cost(5.0, 2 * g["hp"]))
    p = RectPlate(g["bp"], g["hp"], g["tp"], g["grade"])
    H.eq("plate", c["plate"], p.cost(ws, ws.steel_price["plates"]) + ws.cost_centres["cutting"].cost(g["tp"], n * D0[g["d"]] * math.pi))
