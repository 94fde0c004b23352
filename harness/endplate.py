"""Bolted end plate joints by the component method (E08)."""
import math

from symx.registry import job
import metku.structures.steel.steel_member
from metku.sections.steel.ISection import HEA, IPE
from metku.sections.steel.wi import WISection
import metku.eurocodes.en1993.en1993_1_8.component_method as cm
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import (
    Bolt, TENSION_ROW, SHEAR_ROW, END_ROW, INNER_ROW, ROW_OUTSIDE_BEAM_TENSION_FLANGE as OUTSIDE,
    FIRST_ROW_BELOW_BEAM_TENSION_FLANGE as FIRST, OTHER_INNER_ROW, OTHER_END_ROW)
from metku.structures.steel.end_plate_joint import EndPlateJoint
from harness.ec3_member import mx, mn

E = 210e3
S2 = math.sqrt(2)
GM2 = 1.25
FUB = {8.8: 800.0, 10.9: 1000.0}
AS = {16: 157.0, 20: 245.0, 24: 353.0}
PAIRS = [(("HEA", 300), ("IPE", 400), 355), (("HEA", 160), ("IPE", 240), 235), (("IPE", 500), ("HEA", 400), 420)]
ROWS = {"out": ("END", OUTSIDE), "first": ("INNER", FIRST), "end": ("END", OTHER_END_ROW), "inner": ("INNER", OTHER_INNER_ROW)}


def section(s, fy):
    return (HEA if s[0] == "HEA" else IPE)(s[1], fy=fy)


def joint(H, i, kinds, z, d=20, cl=8.8, tp=None, e=None, bp=None, groups=(), group_pos=None, shear=(), etop=100.0, fyp=None, cw=None):
    c, b, fy = PAIRS[i]
    col, beam = section(c, fy), section(b, fy)
    pos = [{"flange": END_ROW if ROWS[k][0] == "END" else INNER_ROW, "plate": ROWS[k][1]} for k in kinds]
    j = EndPlateJoint(col, beam, tp=tp, bp=bp, mat_p="S%d" % (fyp or fy), etop=etop, ebottom=30.0, bolt=Bolt(d, cl), y_bolts=list(z),
                      e_bolts=e, bolt_row_pos=pos, groups=list(groups), group_pos=group_pos,
                      row_types=[SHEAR_ROW if n in shear else TENSION_ROW for n in range(len(kinds))])
    if cw:
        j.weld_f, j.weld_w = cw
    return j


def geometry(j, z, kind, bolt_end=None):
    """(m, e, n, leff circular, leff other) of the column flange and of the plate"""
    c, b = j.col, j.beam
    w = j.bp - 2 * j.ebolts
    m = 0.5 * (w - c.tw) - 0.8 * c.r
    e = 0.5 * (c.b - w)
    n = mn(mn(e, j.ebolts), 1.25 * m)
    fl = (m, e, n, 2 * math.pi * m, 4 * m + 1.25 * e)
    ep = j.ebolts
    if kind == "out":
        m = z - 0.5 * b.h - 0.8 * S2 * j.weld_f
        ex = 0.5 * b.h + j.etop - z
        cp = mn(2 * math.pi * m, mn(math.pi * m + w, math.pi * m + 2 * ep))
        nc = mn(mn(4 * m + 1.25 * ex, ep + 2 * m + 0.625 * ex), mn(0.5 * j.bp, 0.5 * w + 2 * m + 0.625 * ex))
        pl = (m, ep, mn(ex, 1.25 * m), cp, nc)
    else:
        m = 0.5 * (w - b.tw) - 0.8 * S2 * j.weld_w
        n = mn(ep, 1.25 * m)
        cp, nc = 2 * math.pi * m, 4 * m + 1.25 * ep
        if kind == "first":
            m2 = 0.5 * b.h - b.tf - 0.8 * S2 * j.weld_f - z
            nc = cm.new_alpha(ep, m, m2) * m
        pl = (m, ep, n, cp, nc)
    return fl, pl


def tstub(m, n, cp, nc, t, fy, Ft):
    """three modes and the effective length of the governing one"""
    F1 = mn(cp, nc) * t ** 2 * fy / m
    F2 = (0.5 * nc * t ** 2 * fy + n * Ft) / (m + n)
    return F1, F2, Ft


def modes(H, name, ts, F, leff, cp, nc):
    H.eq(name, F, mn(ts[0], mn(ts[1], ts[2])), rel=1e-6)
    one = mn(cp, nc)
    if (ts[0] < 0.9999 * ts[1]) & (ts[0] < 0.9999 * ts[2]):
        H.eq(name + ", yield line length", leff, one)
    elif (ts[1] < 0.9999 * ts[0]) | (ts[2] < 0.9999 * ts[0]):
        H.eq(name + ", length of other modes", leff, nc)


FREE = ("tp", "e", "weld", "z")


def dims(H, i, kind, free):
    """plate, bolts and welds that leave positive distances; one of them is free, the others take a thin or a thick value"""
    bp = {0: 220.0, 1: 180.0, 2: 240.0}[i]
    hb = {0: 400.0, 1: 240.0, 2: 390.0}[i]
    el = {0: (35.0, 60.0), 1: (45.0, 55.0), 2: (50.0, 70.0)}[i]
    zl = (0.5 * hb + 30.0, 0.5 * hb + 70.0) if kind == "out" else (0.5 * hb - 100.0, 0.5 * hb - 50.0)

    def val(name, lo, hi, thin, thick):
        return H.real(name, lo, hi) if free == name else (thick if heavy else thin)
    heavy = H.flag("heavy")
    tp = val("tp", 6.0, 40.0, 10.0, 25.0)
    e = val("e", *el, el[0] + 3.0, el[1] - 3.0)
    z = val("z", *zl, zl[0] + 10.0, zl[1] - 5.0)
    if free == "weld":
        af = H.real("af", 3.0, 10.0)
        aw = 0.5 * af + 2.0
    else:
        af, aw = 6.0, 5.0
    return bp, tp, e, af, aw, z


@job("E08", params=[dict(i=i, kind=k) for i in range(3) for k in ("out", "first", "end", "inner")],
     bounds="three column and beam pairs; plates 6..40 mm, edge distances, welds and heights over their ranges, one at a time; two bolt classes, three transformation parameters")
def row(H, i, kind):
    free = H.choice("free", FREE)
    bp, tp, e, af, aw, z = dims(H, i, kind, free)
    cl = H.choice("class", [8.8, 10.9])
    fyp = H.choice("fyp", [235, 355])
    j = joint(H, i, [kind], [z], tp=tp, e=e, bp=bp, cl=cl, fyp=fyp, cw=(af, aw))
    j.beta = H.choice("beta", [0.3, 1.0, 1.7]) if free != "e" else 0.3
    r = j.bolt_rows[0]
    Ft = 2 * 0.9 * FUB[cl] * 245.0 / GM2
    fl, pl = geometry(j, z, kind)
    F = r.column_flange_in_bending()
    ts = tstub(fl[0], fl[2], fl[3], fl[4], j.col.tf, j.col.fy, Ft)
    modes(H, "column flange", ts, F, r.leff_flange(), fl[3], fl[4])
    G = r.end_plate_in_bending()
    ts = tstub(pl[0], pl[2], pl[3], pl[4], tp, fyp, Ft)
    modes(H, "end plate", ts, G, r.leff_plate(), pl[3], pl[4])
    W = r.column_web_in_tension()
    H.eq("column web", W, cm.column_web_tension(j.col, r.leff_flange(), j.beta))
    B = r.beam_web_in_tension()
    if kind != "out":
        H.eq("beam web", B, r.leff_plate() * j.beam.tw * j.beam.fy)
    else:
        H.ge("no beam web outside the beam", B, 1e8)
    R = r.tension_resistance()
    H.eq("row", R, mn(mn(F, G), mn(W, B)))
    H.le("row below its bolts", R, Ft * 1.000001)
    H.eq("lever arm", r.h, z + 0.5 * (j.beam.h - j.beam.tf))


@job("E08", params=[dict(i=i, kind=k) for i in range(3) for k in ("out", "first", "end")],
     bounds="as row")
def row_stiffness(H, i, kind):
    bp, tp, e, af, aw, z = dims(H, i, kind, H.choice("free", FREE))
    j = joint(H, i, [kind], [z], tp=tp, e=e, bp=bp, cw=(af, aw))
    r = j.bolt_rows[0]
    fl, pl = geometry(j, z, kind)
    lf, lp = mn(fl[3], fl[4]), mn(pl[3], pl[4])
    H.eq("web", r.k3(), 0.7 * lf * j.col.tw / j.col.hw)
    H.eq("flange", r.k4() * fl[0] ** 3, 0.9 * lf * j.col.tf ** 3, rel=1e-5)
    H.eq("plate", r.k5() * pl[0] ** 3, 0.9 * lp * tp ** 3, rel=1e-5)
    b = r.bolt
    Lb = tp + j.col.tf + 2 * b.washer_t + 0.5 * (b.head_t + b.nut_t)
    H.eq("bolts", r.k10() * Lb, 1.6 * 245.0)
    k = r.keff()
    H.eq("row", 1 / k, 1 / r.k3() + 1 / r.k4() + 1 / r.k5() + 1 / r.k10(), rel=1e-5)


GP = [[{"flange": END_ROW, "plate": OUTSIDE}, {"flange": END_ROW, "plate": FIRST}],
      [{"flange": END_ROW, "plate": OUTSIDE}, {"flange": INNER_ROW, "plate": FIRST}, {"flange": END_ROW, "plate": OTHER_END_ROW}],
      [{"flange": END_ROW, "plate": FIRST}, {"flange": END_ROW, "plate": OTHER_END_ROW}]]
ZS = {0: [250.0, 140.0, 60.0, -130.0], 1: [170.0, 60.0, 0.0, -70.0], 2: [245.0, 130.0, 50.0, -120.0]}


def full(H, i, rows, tp, e, **kw):
    z = ZS[i][:rows] + [ZS[i][3]]
    kinds = ["out", "first", "end"][:rows] + ["end"]
    groups = {1: [], 2: [[0, 1]], 3: [[0, 1], [0, 1, 2], [1, 2]]}[rows]
    return joint(H, i, kinds, z, tp=tp, e=e, bp={0: 220.0, 1: 180.0, 2: 240.0}[i], groups=groups,
                 group_pos=[[dict(x) for x in GP[k]] for k in range(len(groups))], shear=(rows,), **kw), groups


def limits(H, j, groups, M):
    rows = [r for r in j.bolt_rows if r.type != SHEAR_ROW]
    F = [r.FtRd for r in rows]
    comp = mn(j.V_wp_Rd() / j.beta, mn(j.Fc_wc_Rd(), j.Fc_fb_Rd()))
    tot = 0.0
    for k, f in enumerate(F):
        H.ge(f"row {k} in tension", f, -1e-6)
        tot = tot + f
    H.le("tension not above compression", tot, comp * 1.000001 + 1e-3)
    ind = [r.tension_resistance() for r in rows]
    grp = [g.tension_resistance() for g in j.row_groups]
    for k, f in enumerate(F):
        H.le(f"row {k} below its own resistance", f, ind[k] * 1.000001)
    for g, G in zip(groups, grp):
        s = 0.0
        for k in g:
            s = s + F[k]
        H.le(f"group {g}", s, G * 1.000001 + 1e-3)
    hc = 0.5 * (j.beam.h - j.beam.tf)
    H.eq("moment", M, sum(f * (r.z + hc) for f, r in zip(F, rows)), scale=1e6)
    return F, ind, grp, comp


@job("E08", params=[dict(i=i, rows=r, tp=t) for i in range(3) for r in (3, 2, 1) for t in (8.0, 14.0, 30.0)],
     bounds="three column and beam pairs with one to three tension rows and a shear row, every plate and bolt strength and column force, three thicknesses, edge distances and transformation parameters")
def moment(H, i, rows, tp):
    e = H.choice("e", {0: (37.0, 45.0, 58.0), 1: (46.0, 50.0), 2: (52.0, 60.0)}[i] if rows < 3 else (45.0, 50.0, 60.0)[i:i + 1])
    j, groups = full(H, i, rows, tp, e)
    j.beta = H.choice("beta", [1.0, 0.4, 1.6])
    j.col.Ned = -(H.real("n", -0.2, 1.0) if rows < 3 else 0.0) * j.col.fy * j.col.A
    # strengths of plate and bolts are free
    j.end_plate.material.fy = H.real("fyp", 200.0, 700.0)
    for r in j.bolt_rows[:1]:
        r.bolt.fub = H.real("fub", 400.0, 1000.0)
    M = j.bending_resistance()
    F, ind, grp, comp = limits(H, j, groups, M)
    # the rows are filled from the top: the first one is only limited by itself, its groups and the compression side
    f0 = mn(ind[0], comp)
    for g, G in zip(groups, grp):
        if 0 in g:
            f0 = mn(f0, G)
    H.eq("first row", F[0], f0, rel=1e-6)
    H.eq("again", j.bending_resistance(), M, rel=1e-9)
    H.eq("MjRd", j.MjRd, M, rel=1e-9)


@job("E08", params=[dict(i=i, rows=r) for i in range(3) for r in (1, 2, 3)],
     bounds="three pairs with one to three tension rows, plates 6..40 mm, edge distances over their ranges, transformation parameter 0.5..2")
def stiffness(H, i, rows):
    tp = H.real("tp", 6.0, 40.0)
    e = H.choice("e", {0: (37.0, 45.0, 58.0), 1: (46.0, 50.0), 2: (52.0, 60.0)}[i])
    j, groups = full(H, i, rows, tp, e)
    j.beta = H.choice("beta", [0.5, 1.0, 2.0])
    S = j.Sj_ini()
    rr = [r for r in j.bolt_rows if r.type != SHEAR_ROW]
    hc = 0.5 * (j.beam.h - j.beam.tf)
    k = [r.keff() for r in rr]
    h = [r.z + hc for r in rr]
    kh = sum(a * b for a, b in zip(k, h))
    khh = sum(a * b * b for a, b in zip(k, h))
    z, keq = j.zeq_and_keq()
    H.eq("lever arm", z * kh, khh, rel=1e-6)
    H.eq("equivalent stiffness", keq * z, kh, rel=1e-6)
    H.eq("zeq", j.zeq(), z, rel=1e-9)
    H.eq("keq", j.keq(), keq, rel=1e-6)
    H.eq("column web in shear", j.k1(z) * j.beta * z, 0.38 * j.col.Ashear[1], rel=1e-6)
    H.eq("column web in compression", j.k2(), 0.7 * j.beff_c_wc() * j.col.tw / j.col.hw)
    H.eq("stiffness", S * (1 / j.k1(z) + 1 / j.k2() + 1 / keq), E * z * z, rel=1e-5)
    for n, r in enumerate(rr):
        H.ge(f"stiff row {n}", k[n], 0.0)
        H.le(f"row {n} softer than its bolts", k[n], r.k10())


@job("E08", params=[dict(i=i, n=n) for i in range(3) for n in ("bottom", "both")],
     bounds="three pairs, two rows, stiffeners 5..30 mm, plate 6..40 mm")
def stiffened(H, i, n):
    tp, ts = H.real("tp", 6.0, 40.0), H.real("ts", 5.0, 30.0)
    j, groups = full(H, i, 2, 15.0, {0: 45.0, 1: 50.0, 2: 60.0}[i])
    plain = j.V_wp_Rd()
    j.add_stiffener("col_bottom_flange", t=ts)
    c, b = j.col, j.beam
    bs, ls = 0.5 * (c.b - c.tw), c.h - 2 * c.tf
    A = (30 * c.eps * c.tw + ts) * c.tw + 2 * bs * ts
    I = (2 * bs + c.tw) ** 3 * ts / 12
    # the plate is stocky: no buckling below slenderness 0.2
    F = j.Fc_wc_Rd()
    H.le("stiffened web below its yield resistance", F, A * c.fy * 1.000001)
    lam = ls * (A / I) ** 0.5 / (93.9 * c.eps)
    if lam < 0.199:
        H.eq("stiffened web", F, A * c.fy, rel=1e-6)
    H.eq("rigid compression side", 1 / (1 + 1 / j.k2()), 1.0)
    if n == "bottom":
        H.eq("web panel without top stiffener", j.V_wp_Rd(), plain)
    else:
        t2 = H.real("t2", 5.0, 30.0)
        j.add_stiffener("col_top_flange", t=t2)
        Mf = 0.25 * c.b * c.tf ** 2 * c.fy
        Ms = 0.25 * c.b * c.fy * (ts * ts + t2 * t2)
        ds = b.h - b.tf
        H.eq("web panel with stiffeners", j.V_wp_Rd(), plain + mn(4 * Mf, 2 * Mf + Ms) / ds, rel=1e-6)


LOCS = {"out first": ["out", "first"], "out first end": ["out", "first", "end"], "first end": ["first", "end"],
        "first inner end": ["first", "inner", "end"]}


@job("E08", params=[dict(i=i, rows=r, stiff=s) for i in range(3) for r in LOCS for s in ((False, True) if r.startswith("out") else (False,))],
     bounds="three column and beam pairs, groups of two and three rows; plate 6..40 mm, edge distance, height of a row, welds, one at a time; two bolt classes, five transformation parameters")
def group(H, i, rows, stiff):
    names = rows.split()
    kinds = LOCS[rows]
    n = len(kinds)
    free = H.choice("free", ["tp", "e", "z0", "z1", "fyp"] + ["z2"] * (n == 3))
    hb = {0: 400.0, 1: 240.0, 2: 390.0}[i]
    el = {0: (35.0, 60.0), 1: (45.0, 55.0), 2: (50.0, 70.0)}[i]
    z = [0.5 * hb + 45.0] if kinds[0] == "out" else []
    while len(z) < n:
        k = len(z) - (kinds[0] == "out")
        z.append(0.5 * hb - 60.0 - 45.0 * k)
    for k in range(n):
        if free == "z%d" % k:
            z[k] = z[k] + H.real("dz", -12.0, 12.0)
    tp = H.real("tp", 6.0, 40.0) if free == "tp" else H.choice("t", [8.0, 22.0])
    e = H.real("e", *el) if free == "e" else el[0] + 4.0
    cl = H.choice("class", [8.8, 10.9])
    bp = {0: 220.0, 1: 180.0, 2: 240.0}[i]
    pos = [{"flange": END_ROW if k in (0, n - 1) else INNER_ROW, "plate": ROWS[kinds[k]][1]} for k in range(n)]
    j = joint(H, i, kinds, z, tp=tp, e=e, bp=bp, cl=cl, groups=[list(range(n))], group_pos=[pos])
    if free == "fyp":
        j.end_plate.material.fy = H.real("fyp", 200.0, 700.0)
    j.beta = H.choice("beta", [0.3, 0.7, 1.0, 1.4, 2.0]) if free == "tp" else 1.0
    if stiff:
        j.add_stiffener("col_top_flange", t=12.0)
    g = j.row_groups[0]
    c, b = j.col, j.beam
    w = bp - 2 * e
    m, ec = 0.5 * (w - c.tw) - 0.8 * c.r, 0.5 * (c.b - w)
    nn = mn(mn(ec, e), 1.25 * m)
    gap = [z[k] - z[k + 1] for k in range(n - 1)]
    Ft = 2 * n * 0.9 * FUB[cl] * 245.0 / GM2

    def spacing(k):
        return gap[0] if k == 0 else (gap[-1] if k == n - 1 else 0.5 * (gap[k - 1] + gap[k]))
    inf = 1e9
    R = []
    if stiff:
        # the stiffener lies between the first two rows: no common yield line across it
        Fcf = Fwc = inf
    else:
        cp = sum((math.pi * m + spacing(k)) if k in (0, n - 1) else 2 * spacing(k) for k in range(n))
        nc = sum((2 * m + 0.625 * ec + 0.5 * spacing(k)) if k in (0, n - 1) else spacing(k) for k in range(n))
        ts = tstub(m, nn, cp, nc, c.tf, c.fy, Ft)
        Fcf = g.column_flange_in_bending()
        modes(H, "column flange", ts, Fcf, g.Tstub_col_flange.leff(), cp, nc)
        H.eq("lengths of the flange", g.leff_flange[0], mn(cp, nc))
        H.eq("length of other modes of the flange", g.leff_flange[1], nc)
        le = g.Tstub_col_flange.leff()
        Fwc = g.column_web_in_tension()
        x = (le * c.tw / c.Ashear[1]) ** 2
        w1, w2 = 1 / (1 + 1.3 * x) ** 0.5, 1 / (1 + 5.2 * x) ** 0.5
        om = {0.3: 1.0, 0.7: w1 + 0.6 * (1 - w1), 1.0: w1, 1.4: w1 + 0.4 * (w2 - w1), 2.0: w2}[j.beta]
        H.eq("column web", Fwc, om * le * c.tw * c.fy, rel=1e-6)
    if kinds[0] == "out":
        Fep = Fbw = inf
    else:
        mp = 0.5 * (w - b.tw) - 0.8 * S2 * j.weld_w
        np_ = mn(e, 1.25 * mp)
        cp = sum((math.pi * mp + spacing(k)) if kinds[k] in ("first", "end") else 2 * spacing(k) for k in range(n)) if kinds[0] == "first" else None
        if kinds[0] == "first":
            m2 = 0.5 * b.h - b.tf - 0.8 * S2 * j.weld_f - z[0]
            al = cm.new_alpha(e, mp, m2)
            nc = 0.5 * spacing(0) + al * mp - (2 * mp + 0.625 * e)
            for k in range(1, n):
                nc = nc + (2 * mp + 0.625 * e + 0.5 * spacing(k) if kinds[k] == "end" else spacing(k))
            ts = tstub(mp, np_, cp, nc, tp, j.end_plate.fy, Ft)
            Fep = g.end_plate_in_bending()
            modes(H, "end plate", ts, Fep, g.Tstub_end_plate.leff(), cp, nc)
            Fbw = g.beam_web_in_tension()
            H.eq("beam web", Fbw, g.Tstub_end_plate.leff() * b.tw * b.fy)
            for k, r in enumerate(g.rows):
                ref = 0.5 * spacing(0) + al * mp - (2 * mp + 0.625 * e) if k == 0 else \
                    (2 * mp + 0.625 * e + 0.5 * spacing(k) if kinds[k] == "end" else spacing(k))
                H.eq(f"share of row {k} of the plate", g.Tstub_end_plate.leff_nc_row(r), ref)
                H.eq(f"circular share of row {k} of the plate", g.Tstub_end_plate.leff_cp_row(r),
                     (math.pi * mp + spacing(k)) if kinds[k] != "inner" else 2 * spacing(k))
    if not stiff:
        for k, r in enumerate(g.rows):
            # another group left its spacing behind
            r.Tstub_col_flange.p = 1.0
            H.eq(f"share of row {k} of the flange", g.Tstub_col_flange.leff_nc_row(r),
                 (2 * m + 0.625 * ec + 0.5 * spacing(k)) if k in (0, n - 1) else spacing(k))
            r.Tstub_col_flange.p = 1.0
            H.eq(f"circular share of row {k} of the flange", g.Tstub_col_flange.leff_cp_row(r),
                 (math.pi * m + spacing(k)) if k in (0, n - 1) else 2 * spacing(k))
    if kinds[0] != "inner":
        T = g.tension_resistance()
        if stiff and kinds[0] == "out":
            H.check("no common mechanism across the stiffener", T > 1e8)
        else:
            H.eq("group", T, mn(mn(Fcf, Fwc), mn(Fep, Fbw)), rel=1e-6)


@job("E08", params=[dict(i=i, what=w) for i in range(3) for w in ("tp", "ebolts", "xbolts", "bolt_size", "etop")],
     bounds="three column and beam pairs with three tension rows; plate 6..40 mm, edge distances over their ranges, extensions 90..110 mm, three bolt sizes")
def updated(H, i, what):
    el = {0: (35.0, 60.0), 1: (45.0, 55.0), 2: (50.0, 70.0)}[i]
    bp = {0: 220.0, 1: 180.0, 2: 240.0}[i]
    z, kinds = ZS[i][:3] + [ZS[i][3]], ["out", "first", "end", "end"]
    kw = dict(tp=12.0, e=el[0] + 4.0, bp=bp, groups=[[0, 1]], group_pos=[[dict(x) for x in GP[0]]], shear=(3,))
    j = joint(H, i, kinds, z, **kw)
    j.bending_resistance()
    j.Sj_ini()
    H.eq("rows in tension", j.tension_rows, 3)
    if what == "tp":
        kw["tp"] = j.tp = H.real("tp", 6.0, 40.0)
    elif what == "ebolts":
        kw["e"] = j.ebolts = H.real("e", *el)
    elif what == "xbolts":
        kw["e"] = H.real("e", *el)
        j.xbolts = 0.5 * bp - kw["e"]
    elif what == "bolt_size":
        kw["d"] = j.bolt_size = H.choice("d", [16, 20, 24])
    else:
        kw["etop"] = j.etop = H.real("etop", 90.0, 110.0)
    k = joint(H, i, kinds, z, **kw)
    for n, (a, b) in enumerate(zip(j.bolt_rows, k.bolt_rows)):
        if n < 3:
            H.eq(f"row {n}", a.tension_resistance(), b.tension_resistance(), rel=1e-6)
            H.eq(f"stiffness of row {n}", a.keff(), b.keff(), rel=1e-6)
    H.eq("group", j.row_groups[0].tension_resistance(), k.row_groups[0].tension_resistance(), rel=1e-6)
    H.eq("plate height", j.end_plate.h, k.end_plate.h)
    j.MjEd = 5.0
    j.VjEd = 7.0
    H.eq("moment", j.MjEd, 5.0)
    H.eq("shear", j.VjEd, 7.0)
