"""Load combinations of EN 1990 (E09) and wind loads of EN 1991-1-4 (E10)."""
import math

import numpy as np

from symx.registry import job
import metku.eurocodes.en1991.en1991 as e1
import metku.eurocodes.en1991.en1991_1_4 as w4
from harness.ec3_member import mx, mn

PSI = {"A": [0.7, 0.5, 0.3], "B": [0.7, 0.5, 0.3], "C": [0.7, 0.7, 0.3], "D": [0.7, 0.7, 0.6], "E": [1.0, 0.9, 0.8]}
KFI = {1: 0.9, 2: 1.0, 3: 1.1}
IDS = 3
KINDS = {"G": e1.Load, "A": e1.AreaLoad, "S": e1.SnowLoad, "W": e1.WindLoad, "I": e1.ImposedLoad}
PLACES = [("y", [0]), ("y", [0, 2]), ("x", [1]), ("x", [2, 0])]


SPACING = {"A": 1, "B": 4, "C": 5.5, "D": 3, "E": 2.5}


def setup(H, kinds, cls, spacing):
    """the loads as given to the combiner and as they should count: (value, psi, direction, ids)"""
    given, ref = [], []
    for i, k in enumerate(kinds):
        lo = {"W": -3.0, "S": 0.0, "I": 0.0}.get(k, 0.1)
        v = H.real(f"{k}{i}", lo, 6.0)
        # directions and loaded parts differ from load to load
        d, ids = PLACES[(i + ord(cls)) % 4]
        if k == "S":
            H.assume((v <= 2.74) | (v >= 2.75))
            psi = [0.7, 0.4, 0.2] if v < 2.75 else [0.7, 0.5, 0.2]
        else:
            psi = {"W": [0.6, 0.2, 0.0], "I": PSI[cls]}.get(k)
        given.append([KINDS[k](v), d, list(ids)])
        ref.append((v if k == "G" else v * spacing, psi, d, ids, k))
    return given, ref


def per_id(combo, ref):
    out = {}
    for f, (v, psi, d, ids, k) in zip(combo, ref):
        for i in ids:
            out[i, d] = out.get((i, d), 0.0) + f * v
    return out


def chosen(H, label, res, combos, ref):
    """the result is that of a combination with the largest total"""
    tot = [sum(f * r[0] for f, r in zip(c, ref)) for c in combos]
    conds = None
    for c, t in zip(combos, tot):
        # parts that carry no load may be missing from the answer
        p = per_id(c, ref)
        ok = True
        for o in tot:
            if o is not t:
                ok = (t >= o - 1e-6) & ok
        for i in range(IDS):
            for d in "xy":
                vals = res[d]
                got = vals[i] if i < len(vals) and vals[i] is not None else 0.0
                dev = got - p.get((i, d), 0.0)
                ok = ok & (dev <= 0.021) & (dev >= -0.021)
        conds = ok if conds is None else conds | ok
    H.check(label, conds, "no largest combination gives these line loads")


SETS = ["G", "GS", "GAW", "GSW", "AIW", "GSI", "GASI", "GSWI"]


def lead(ref, cases):
    """one list of factors for every variable load taken as the leading one"""
    out = []
    for q, r in enumerate(ref):
        if r[1] is not None:
            out.append([cases(r, n == q, s) for n, s in enumerate(ref)])
    return out


@job("E09", params=[dict(kinds=k, cls=c) for k in SETS for c in ("A", "C", "E")],
     bounds="up to four loads of every kind and value, on three parts in two directions, wind of either sign; three load categories and consequence classes, frame spacings 1..8 m")
def uls(H, kinds, cls):
    cc = H.choice("CC", [1, 2, 3])
    sp = SPACING[cls]
    given, ref = setup(H, kinds, cls, sp)
    c = e1.ULSCombiner(cls, cc, sp)
    for g in given:
        c.add(g)
    K = KFI[cc]
    combos = [[1.35 * K if r[1] is None else 0.0 for r in ref]]
    combos += lead(ref, lambda q, first, r: 1.15 * K if r[1] is None else 1.5 * K * (1.0 if first else r[1][0]))
    chosen(H, "ULS", c.get_result(), combos, ref)
    for g, r in zip(given, ref):
        # the loads given are not changed
        H.eq("given load", g[0].value * (1 if r[4] == "G" else sp), r[0])


@job("E09", params=[dict(kinds=k, cls=c) for k in SETS for c in ("A", "C", "E")], bounds="as uls")
def sls(H, kinds, cls):
    sp = SPACING[cls]
    given, ref = setup(H, kinds, cls, sp)
    c = e1.SLSCombiner(cls, 2, sp)
    c.add(*given)
    res = c.get_result()
    g = [[1.0 if r[1] is None else 0.0 for r in ref]]
    ch = lead(ref, lambda q, first, r: 1.0 if r[1] is None or first else r[1][0]) or g
    fr = lead(ref, lambda q, first, r: 1.0 if r[1] is None else r[1][1 if first else 2]) or g
    chosen(H, "characteristic", res["char"], ch, ref)
    chosen(H, "frequent", res["freq"], fr, ref)
    chosen(H, "quasi-permanent", res["quasi"], [[1.0 if r[1] is None else r[1][2] for r in ref]], ref)
    # the split answer adds up to the whole
    sp_ = c.get_result(split_result=True)
    for k in ("char", "freq", "quasi"):
        for d in "xy":
            for i in range(IDS):
                tot = 0.0
                for part in sp_[k].values():
                    if i < len(part[d]) and part[d][i] is not None:
                        tot = tot + part[d][i]
                whole = res[k][d][i] if i < len(res[k][d]) and res[k][d][i] is not None else 0.0
                H.eq(f"{k} split {d}{i}", tot, whole, abs_=1e-6)


@job("E09", params=[dict(kinds=k, cls=c) for k in SETS for c in ("A", "C", "E")], bounds="as uls")
def acc(H, kinds, cls):
    sp = SPACING[cls]
    given, ref = setup(H, kinds, cls, sp)
    c = e1.ACCCombiner(cls, 2, sp)
    c.add(*given)
    combos = [[1.0 if r[1] is None else 0.0 for r in ref]]
    combos += lead(ref, lambda q, first, r: 1.0 if r[1] is None else r[1][1 if first and r[4] in "SW" else 2])
    chosen(H, "accidental", c.get_result(), combos, ref)


@job("E09", params=[dict(cls=c) for c in "ABCDE"], bounds="all live loads to 6 kN/m2, spans 1..60 m, spacings 1..8 m")
def reduction(H, cls):
    sp = H.choice("spacing", [1, 4, 8])
    L, v, s = H.real("L", 1.0, 60.0), H.real("live", 0.1, 6.0), H.real("snow", 0.1, 2.5)
    c = e1.SLSCombiner(cls, 2, sp)
    c.add([e1.Load(1.0), "y", [0]], [e1.ImposedLoad(v), "y", [0]], [e1.SnowLoad(s), "x", [0]])
    c.use_reduction_factor(L)
    a = 1.0
    if cls != "E":
        a = mn(mx(5 / 7 * PSI[cls][0] + 10 / (sp * L), 0.7), 1.0)
    H.eq("live load", c.Q_k[0][0].value, a * v * sp)
    H.eq("snow is not reduced", c.Q_k[1][0].value, s * sp)
    r = c.get_result()["quasi"]
    H.eq("quasi-permanent", r["y"][0], 1 + PSI[cls][2] * a * v * sp, abs_=0.011)
    H.eq("quasi-permanent snow", r["x"][0], 0.2 * s * sp, abs_=0.011)


@job("E09", params=[dict(cls=c) for c in ("B", "E")], bounds="three loads, values 0..6 kN/m2")
def multi(H, cls):
    given, ref = setup(H, "GSI", cls, 4)
    m = e1.MultiCombiner(cls, 3, 4)
    m.add(*given)
    r = m.get_result()
    for name, C in (("uls", e1.ULSCombiner), ("sls", e1.SLSCombiner), ("acc", e1.ACCCombiner)):
        c = C(cls, 3, 4)
        for g in given:
            c.add(g)
        one = c.get_result()
        pairs = [(r[name], one)] if name != "sls" else [(r[name][k], one[k]) for k in one]
        for a, b in pairs:
            for d in "xy":
                H.same(name + " parts", [x is None for x in a[d]], [x is None for x in b[d]])
                for x, y in zip(a[d], b[d]):
                    if x is not None:
                        H.eq(name, x, y, abs_=1e-9)


# --------------------------------------------------------------------------
Z0 = {0: (0.003, 1.0), 1: (0.01, 1.0), 2: (0.05, 2.0), 3: (0.3, 5.0), 4: (1.0, 10.0)}


def rough(z, cat):
    z0, zmin = Z0[cat]
    kr = 0.18 if cat == 0 else 0.19 * (z0 / 0.05) ** 0.07
    return kr * np.log(mx(z, zmin) / z0), np.log(mx(z, zmin) / z0)


@job("E10", params=[dict(cat=c) for c in range(5)], bounds="heights 0.5..200 m, wind speeds 10..40 m/s, five terrain categories")
def peak_pressure(H, cat):
    z, vb = H.real("z", 0.5, 200.0), H.real("vb", 10.0, 40.0)
    cr, ln = rough(z, cat)
    H.eq("roughness", w4.terrain_roughness(z, cat), cr)
    H.eq("mean velocity", w4.mean_wind_velocity(vb, z, cat), cr * vb)
    H.eq("turbulence", w4.turbulence_intensity(z, cat) * ln, 1.0)
    qp = w4.peak_velocity_pressure(z, cat, vb)
    H.eq("peak pressure", qp * ln, (ln + 7) * 0.5 * 1.25 * (cr * vb) ** 2, rel=1e-6)
    H.eq("basic pressure", w4.basic_velocity_pressure(vb), 0.625 * vb * vb)
    a, b = H.real("dir", 0.5, 1.0), H.real("season", 0.5, 1.0)
    H.eq("basic velocity", w4.basic_wind_velocity(vb, a, b), vb * a * b)
    c = H.real("c", -3.0, 1.0)
    H.eq("pressure out", w4.wind_pressure_ext(vb, c), vb * c, scale=100)
    H.eq("pressure in", w4.wind_pressure_int(vb, c), vb * c, scale=100)


@job("E10", params=[dict(cat=c) for c in range(5)], bounds="two heights 0.5..200 m")
def higher(H, cat):
    z1, z2 = H.real("z1", 0.5, 200.0), H.real("z2", 0.5, 200.0)
    H.assume(z1 <= z2)
    H.le("roughness grows with height", w4.terrain_roughness(z1, cat), w4.terrain_roughness(z2, cat))
    H.ge("turbulence falls with height", w4.turbulence_intensity(z1, cat), w4.turbulence_intensity(z2, cat))
    H.le("pressure grows with height", w4.peak_velocity_pressure(z1, cat, 21.0), w4.peak_velocity_pressure(z2, cat, 21.0))


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for a, b, ya, yb in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            return ya + (yb - ya) * (x - a) / (b - a)
    return ys[-1]


@job("E10", params=[dict(dir=d) for d in ("long", "short")], bounds="buildings 3..100 m long and wide and 3..60 m high, pressure 100..3000 N/m2")
def walls(H, dir):
    L, W, h = H.real("L", 3.5, 100.0), H.real("W", 3.5, 100.0), H.real("h", 3.0, 60.0)
    qp = H.real("qp", 100.0, 3000.0)
    z = w4.rect_building_wall_pressure(L, W, h, qp, dir)
    b, d = (L, W) if dir == "long" else (W, L)
    e = mn(b, 2 * h)
    H.eq("side zones cover the depth", z["A"]["length"] + z["B"]["length"] + z["C"]["length"], d)
    H.eq("zone A", z["A"]["length"], mn(e / 5, d))
    H.eq("zone B", z["B"]["length"], mn(0.8 * e, mx(d - e / 5, 0.0)), abs_=1e-6)
    H.eq("zone C", z["C"]["length"], mx(d - e, 0.0), abs_=1e-6)
    H.eq("windward width", z["D"]["length"], b)
    H.eq("leeward width", z["E"]["length"], b)
    r = h / d
    for k, c in (("A", -1.2), ("B", -0.8), ("C", -0.5), ("D", interp(r, [0.25, 1.0, 5.0], [0.7, 0.8, 0.8])),
                 ("E", interp(r, [0.25, 1.0, 5.0], [-0.3, -0.5, -0.7]))):
        H.eq("coefficient " + k, z[k]["cpe"], c, abs_=1e-6)
        H.eq("pressure " + k, z[k]["we"], qp * c, abs_=1e-2)


@job("E10", bounds="buildings 3..100 m long and wide and 3..60 m high, pressure 100..3000 N/m2")
def flat_roof(H):
    b, d, h = H.real("b", 3.0, 100.0), H.real("d", 3.0, 100.0), H.real("h", 3.0, 60.0)
    qp = H.real("qp", 100.0, 3000.0)
    e = mn(b, 2 * h)
    H.assume(d >= 0.5 * e)
    z = w4.flat_roof_pressure(d, b, h, qp)
    H.eq("edge zones cover the width", 2 * z["F"]["length"] + z["G"]["length"], b)
    H.eq("strips cover the depth", z["F"]["width"] + z["H"]["width"] + z["I"]["width"], d)
    H.eq("edge strips", z["G"]["width"], z["F"]["width"])
    H.eq("corner", z["F"]["length"], e / 4)
    H.eq("edge", z["F"]["width"], e / 10)
    H.eq("full width", z["H"]["length"] + z["I"]["length"], 2 * b)
    for k, c in (("F", -1.8), ("G", -1.2), ("H", -0.7)):
        H.eq("pressure " + k, z[k]["we"], qp * c)
    H.eq("pressure I", z["I"]["we"][0], 0.2 * qp)
    H.eq("suction I", z["I"]["we"][1], -0.2 * qp)


A7 = [5.0, 15.0, 30.0, 45.0, 60.0, 75.0]
# EN 1991-1-4 Table 7.3a: {direction: {zone: {size: (suction, pressure)}}}
T7 = {0: {"F": {"cpe10": ([-1.7, -0.9, -0.5, 0.0, 0.7, 0.8], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
                "cpe1": ([-2.5, -2.0, -1.5, 0.0, 0.7, 0.8], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8])},
          "G": {"cpe10": ([-1.2, -0.8, -0.5, 0.0, 0.7, 0.8], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
                "cpe1": ([-2.0, -1.5, -1.5, 0.0, 0.7, 0.8], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8])},
          "H": {"cpe10": ([-0.6, -0.3, -0.2, 0.0, 0.7, 0.8], [0.0, 0.2, 0.4, 0.6, 0.7, 0.8]),
                "cpe1": ([-1.2, -0.3, -0.2, 0.0, 0.7, 0.8], [0.0, 0.2, 0.4, 0.6, 0.7, 0.8])}},
      180: {"F": {"cpe10": ([-2.3, -2.5, -1.1, -0.6, -0.5, -0.5],), "cpe1": ([-2.5, -2.8, -2.3, -1.3, -1.0, -1.0],)},
            "G": {"cpe10": ([-1.3, -1.3, -0.8, -0.5, -0.5, -0.5],), "cpe1": ([-2.0, -2.0, -1.5, -0.5, -0.5, -0.5],)},
            "H": {"cpe10": ([-0.8, -0.9, -0.8, -0.7, -0.5, -0.5],), "cpe1": ([-1.2, -1.2, -0.8, -0.7, -0.5, -0.5],)}}}


@job("E10", params=[dict(d=d, k=k) for d in (0, 180) for k in range(6)], bounds="roof slopes 5..89 degrees, wind on the low and on the high eave")
def monopitch(H, d, k):
    lo, hi = A7[k], (A7 + [89.0])[k + 1]
    a = H.real("angle", lo, hi - 0.01)
    p = w4.ExternalPressureMonoRoof(d, a)
    for z in "FGH":
        for s in ("cpe10", "cpe1"):
            c = getattr(p, z)[s]
            want = [interp(a, A7, t) for t in T7[d][z][s]]
            if isinstance(c, (list, tuple)):
                for x, w in zip(c, want):
                    if d == 0 and k == 3:
                        # between 45 and 60 degrees the table gives no suction
                        w = mx(mn(w, 0.0), 0.0) if x is c[0] else w
                    H.eq(f"{z} {s}", x, w, abs_=1e-6)
            else:
                for w in want:
                    H.eq(f"{z} {s}", c, w, abs_=1e-6)
