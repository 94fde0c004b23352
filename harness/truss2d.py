"""Trusses of the truss2d interface (T04): geometry from the main dimensions, joints with gaps, analysis, design forces."""
import warnings
from functools import reduce
from unittest import mock

import numpy as np

from symx.registry import job
import metku.truss2d.truss2d as t2
from metku.truss2d.truss2d import Truss2D, TopChord, BottomChord, TrussWeb
from metku.frame2d.frame2d import LineLoad, XYHingedSupport, YHingedSupport, FixedSupport, LoadIDs
from harness.fem import beam_forces, comps, clamped, rot, unrot
from harness.frame2d import only_forces, key, E

warnings.simplefilter("ignore")
U = LoadIDs.ULS
DIMS = {
    "double 8": dict(H0=0, H1=1500, H2=2200, H3=1800, L1=10000, L2=7000, n=8, dx=500),
    "double 12": dict(H0=3000, H1=1200, H2=2000, L1=9000, n=12, dx=800),
    "inverted 6": dict(H0=1000, H1=1500, H2=1900, L1=8000, n=6),
    "inverted 10": dict(H0=0, H1=1500, H2=2000, H3=1700, L1=10000, n=10),
}


def dims(k):
    k = dict(k)
    k["H3"] = k.get("H3") or k["H1"]
    k["L2"] = k.get("L2") or k["L1"]
    k["dx"] = k.get("dx", 0)
    return k


def at(k):
    """supports at the ends of the top chord, or of the bottom chord when the first braces start there"""
    up = k["n"] % 4 == 0
    return (0, k["H0"] + k["H1"] * up), (k["L1"] + k["L2"], k["H0"] + k["H3"] * up)


def supported(t, k):
    A, B = at(k)
    t.add(XYHingedSupport(list(A)))
    t.add(YHingedSupport(list(B)))


def unit(m):
    (x0, y0), (x1, y1) = m.coordinates
    L = ((x1 - x0) ** 2 + (y1 - y0) ** 2) ** 0.5
    return ((x1 - x0) / L, (y1 - y0) / L), L


def solved(H, t, sup, lines, lc, size=1e6):
    """every node in equilibrium, every element's forces from the displacements of its ends, loads and stiffness"""
    fem = t.f
    R, disp = {}, {}
    load_of = {}
    for m, q0, q1 in lines:
        load_of[id(m)] = (q0, q1)
    els = []
    for m in t.members.values():
        u, L = unit(m)
        n = len(m.elements)
        for e, el in enumerate(m.elements.values()):
            k = [None, None]
            if m.mtype == "web":
                k = [max(m.Sj1, 1e-4) if e == 0 else None, max(m.Sj2, 1e-4) if e == n - 1 else None]
            else:
                k = [max(m.Sj1, 1e-4) if e == 0 and m.Sj1 != np.inf else None, max(m.Sj2, 1e-4) if e == n - 1 and m.Sj2 != np.inf else None]
            els.append((m, el, k, el.section if hasattr(el, "section") else m.cross_section))
    for j in t.joints.values():
        for el in j.elements.values():
            els.append((None, el, [None, None], el.section))
    for m, el, k, sec in els:
        a, b = el.nodes
        pa, pb = [float(x) for x in a.coord], [float(x) for x in b.coord]
        L0 = ((pb[0] - pa[0]) ** 2 + (pb[1] - pa[1]) ** 2) ** 0.5
        L = float(el.length())  # rounded to 1e-3 mm, which is felt by elements of a few mm
        H.check(f"length {L}", abs(L - L0) <= 1e-3)
        d = ((pb[0] - pa[0]) / L, (pb[1] - pa[1]) / L)
        ue = rot(d, list(a.u[lc]) + list(b.u[lc]))
        q = [0.0] * 4
        if m is not None and id(m) in load_of:
            q0, q1 = load_of[id(m)]
            x0, y0 = m.coordinates[0]
            Lm = m.length
            s0 = ((pa[0] - x0) ** 2 + (pa[1] - y0) ** 2) ** 0.5 / Lm
            s1 = ((pb[0] - x0) ** 2 + (pb[1] - y0) ** 2) ** 0.5 / Lm
            q = comps(d, "y", "global", q0 + (q1 - q0) * s0, q0 + (q1 - q0) * s1)
        Q = beam_forces(E * sec.A, E * sec.I[0], L, ue, tuple(k), clamped(L, *q))
        if m is not None:
            for nm, fi, v0, v1, sc in (("N", "fx", -Q[0], Q[3], 1), ("V", "fz", Q[1], -Q[4], 1), ("M", "my", -Q[2], Q[5], 1000)):
                H.eq(f"{nm} {m.mem_id}{m.mtype} start", el.fint[lc][fi][0], v0, scale=size * sc)
                H.eq(f"{nm} {m.mem_id}{m.mtype} end", el.fint[lc][fi][1], v1, scale=size * sc)
        Q = unrot(d, Q)
        for nd, o in ((a, 0), (b, 3)):
            r = R.setdefault(nd.nid, [0.0] * 3)
            for i in range(3):
                r[i] = r[i] + Q[o + i]
    for nid, r in R.items():
        c = key(fem.nodes[nid].coord)
        fixed = sup.get(c, ())
        for i in range(3):
            if i in fixed:
                H.eq(f"support {c}{i}", fem.nodes[nid].u[lc][i], 0.0, scale=10.0)
            else:
                H.eq(f"equilibrium {c}{i}", r[i], 0.0, scale=size * (1000 if i == 2 else 1))
    return R


def built(name):
    k = dims(DIMS[name])
    t = Truss2D(simple=DIMS[name])
    t.add(LineLoad(t.top_chords[0], [-1, -1], "y", load_id=U))
    supported(t, k)
    t.generate()
    return t, k


def laid_out(H, t, k):
    """joints on their chords, braces between the faces of the chords"""
    H.same("braces", len(t.webs), k["n"])
    tops = t.top_chords
    bot = t.bottom_chords[0]
    ref = []
    for p, q in layout(k):
        ref += [(p, tops[0], q), (1 - p, tops[1], 1 - q)]
    for w, (p, top, q) in zip(t.webs.values(), ref):
        H.check("chords", w.j1.chord is bot and w.j2.chord is top)
        H.check("place on the bottom chord", abs(w.j1.loc - p) <= 2e-3)
        H.check("place on the top chord", abs(w.j2.loc - q) <= 10e-3)
        for m, e in ((bot, w.bot_coord), (top, w.top_coord)):
            u, L = unit(m)
            n = (-u[1], u[0]) if m is bot else (u[1], -u[0])
            x0, y0 = m.coordinates[0]
            H.eq("brace ends on the chord's face", (e[0] - x0) * n[0] + (e[1] - y0) * n[1], m.h / 2, abs_=2e-3)
    for j in t.joints.values():
        ws = list(j.webs.values())
        H.check("brace ends at its joint", all((w.j1 is j) == (j.chord is bot) and (w.j2 is j) == (j.chord is not bot) for w in ws))
        H.same("kind", j.joint_type, "YK"[len(ws) - 1])
        if len(ws) == 2:
            # the braces' axes meet on the chord's axis, so that the feet are not further apart than that
            (fa, xa, ha), (fb, xb, hb) = footprints(j)
            H.between("distance between the ends", 0.0, xb - xa, 2 * m.h + 500.0)


@job("T04", params=[dict(name=n) for n in DIMS], bounds="four trusses of 6 to 12 braces built from their main dimensions, line loads on both top chords in [-100,100] N/mm")
def truss2d_analysis(H, name):
    k = dims(DIMS[name])
    t = Truss2D(simple=DIMS[name])
    laid_out(H, t, k)
    lines = []
    for i, tc in enumerate(t.top_chords):
        q0, q1 = H.real(f"q0{i}", -100, 100), H.real(f"q1{i}", -100, 100)
        t.add(LineLoad(tc, [q0, q1], "y", load_id=U))
        lines.append((tc, q0, q1))
    supported(t, k)
    t.generate()
    with only_forces():
        t.calculate(U)
    A, B = at(k)
    R = solved(H, t, {key(A): (0, 1), key(B): (1,)}, lines, U)


def angle(p, q):
    return float(np.degrees(np.arccos(min(abs(p[0] * q[0] + p[1] * q[1]), 1.0))))


@job("T04", params=[dict(name=n, chord=c) for n in DIMS for c in range(3)], bounds="as truss2d_analysis; forces at the nodes of a chord in [-1e6,1e6] N and [-1e8,1e8] Nmm, taken to the chord's parts and to one of its joints")
def truss2d_design_forces(H, name, chord):
    t, k = built(name)
    m = (t.top_chords + t.bottom_chords)[chord]
    js = sorted(m.joints, key=lambda j: j.loc)
    nodes = [n.nid for n in m.nodes.values()]
    d, L = unit(m)
    pick = H.choice("joint", list(range(len(js))))
    free = {n.nid for n in js[pick].nodes.values()} & set(nodes)
    F = m.nodal_forces[U] = {}
    for i, n in enumerate(nodes):
        F[n] = [H.real(f"N{n}", -1e6, 1e6), H.real(f"V{n}", -1e6, 1e6), H.real(f"M{n}", -1e8, 1e8)] if n in free else [100.0 * i, -3.0 * i, 7e3 * i]
    m.update_steel_members_lengths(load_id=U)
    H.same("parts of the chord", len(m.members), len(js) - 1)
    for a, b, sm in zip(js, js[1:], m.members):
        H.eq("length of the part", sm.length, (float(b.loc) - float(a.loc)) * L, abs_=2e-3)
        H.same("buckling lengths", [round(float(x), 6) for x in sm.lcr], [0.9, 0.9])
        H.same("profile of the part", (sm.profile.H, sm.profile.T), (m.cross_section.H, m.cross_section.T))
        part = nodes[nodes.index(a.nodes["c0"].nid):nodes.index(b.nodes["c0"].nid)]
        H.same("number of sections", len(sm.ned), len(part))
        for i, n in enumerate(part):
            for nm, v, x in zip("NVM", (sm.ned, sm.vyed, sm.myed), F[n]):
                H.eq(f"{nm} of the part", v[i], x, scale=1.0)
    j = js[pick]
    j.update_forces(U)
    r = j.rhs_joint
    ws = sorted(j.webs.values(), key=lambda w: w.bot_loc if m.mtype == "top_chord" else w.top_loc)
    H.same("braces", len(ws), {"Y": 1, "K": 2}[j.joint_type])
    c0 = F[j.nodes["c0"].nid]
    H.eq("V0", r.V0, abs(c0[1]), scale=1.0)
    if j.joint_type == "Y":
        H.eq("N0", r.N0, c0[0], scale=1.0)
        H.eq("M0", r.M0, abs(c0[2]), scale=1.0)
        H.eq("angle", r.angle, angle(unit(ws[0])[0], d), abs_=0.3)
        return
    for nm, i in (("N0", 0), ("M0", 2)):
        v, p, q = getattr(r, nm), abs(F[j.nodes["c01"].nid][i]), abs(F[j.nodes["c02"].nid][i])
        H.le(f"{nm} first", p, v)
        H.le(f"{nm} second", q, v)
        H.check(nm, (v <= p) | (v <= q))
    for i in (0, 1) if inside(j) else ():
        H.eq("angle", r.angles[i], angle(unit(ws[i])[0], d), abs_=0.3)


@job("T04", params=[dict(name="double 8", extra=e) for e in (0, 1)], bounds="one or two bottom chords, vertical displacements of two nodes in [-100,100] mm, the others within 1 mm")
def truss2d_deflection(H, name, extra):
    k = dims(DIMS[name])
    t = Truss2D(simple=DIMS[name])
    if extra:
        t.add(BottomChord([[0, -1000], [5000, -1000]]))
    t.add(LineLoad(t.top_chords[0], [-1, -1], "y", load_id=U))
    t.add(LineLoad(t.top_chords[0], [-1, -1], "y", load_id=LoadIDs.SLS_Charasteristic))
    supported(t, k)
    t.generate()
    vs = []
    for lc in (U, LoadIDs.SLS_Charasteristic):
        for m in t.members.values():
            d = m.nodal_displacements[lc] = {}
            for i, n in enumerate(m.nodes):
                d[n] = [50.0 + i, -0.1 * i, 80.0 - i]
                if m.mtype != "bottom_chord":
                    d[n][1] = -500.0
                elif i in (1,) or (not extra and i == 6):
                    d[n][1] = H.real(f"v{m.mem_id}{i}{lc.name}", -100, 100)
                    if lc == U:
                        vs.append(d[n][1])
    t.is_calculated = True
    w = t.get_deflection(U)
    for i, v in enumerate(vs):
        H.le(f"displacement {i}", abs(v), w)
    H.le("others", 1.4, w)
    H.check("reached", reduce(lambda p, q: p | q, [abs(abs(v) - w) <= 1e-9 for v in vs] + [w <= 1.5]))
    H.same("unknown load", refused(lambda: t.get_deflection(LoadIDs.Accidental)), True)


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def ends(w, j):
    """near and far end of a brace of the joint"""
    return (w.top_coord, w.bot_coord) if j.chord.mtype == "top_chord" else (w.bot_coord, w.top_coord)


def places(j):
    """places along the chord of the far and near ends of the braces, in the order of the far ends"""
    u, _ = unit(j.chord)
    along = lambda p: p[0] * u[0] + p[1] * u[1]
    return sorted([(along(ends(w, j)[1]), along(ends(w, j)[0])) for w in j.webs.values()], key=lambda o: float(o[0]))


def inside(j):
    """the joint was not pushed back from the end of its chord, which bends the rule of the gap"""
    return all(abs(a - b) <= 1e-3 for a, b in zip(j.nodal_coordinates["c0"], j.coordinate))


def footprints(j):
    """as places, with half the width of the braces on the chord's face"""
    u, _ = unit(j.chord)
    out = []
    for w in j.webs.values():
        near, far = ends(w, j)
        d = [far[0] - near[0], far[1] - near[1]]
        L = (d[0] ** 2 + d[1] ** 2) ** 0.5
        out.append((float(far[0] * u[0] + far[1] * u[1]), near[0] * u[0] + near[1] * u[1], w.h / (2 * abs(d[0] * u[1] - d[1] * u[0]) / L)))
    return sorted(out, key=lambda o: o[0])


@job("T04", params=[dict(name=n, chord=c) for n in DIMS for c in range(3)], bounds="as truss2d_analysis; gap of one joint in [25,60] mm, the others 40 mm; the braces' ends follow within 3.5 mm")
def truss2d_gap(H, name, chord):
    t, k = built(name)
    m = (t.top_chords + t.bottom_chords)[chord]
    for i in range(8):
        for j in t.joints.values():
            if j.joint_type == "K":
                j.g1 = 40.0
    js = [j for j in sorted(m.joints, key=lambda j: j.loc) if j.joint_type == "K" and inside(j)]
    j = js[H.choice("joint", list(range(len(js))))]
    (fa, xa, ha), (fb, xb, hb) = footprints(j)
    H.between("gap of 40 mm", 39.9, xb - hb - xa - ha, 40.1)
    g = H.real("g", 25.0, 60.0)
    j.g1 = g
    # the braces turn by less than a degree: the widths of their feet stay within 1.5 mm
    (_, xa), (_, xb) = places(j)
    H.between("gap", g - 3.5, xb - hb - xa - ha, g + 3.5)
    c = j.nodal_coordinates
    u, _ = unit(m)
    n = (-u[1], u[0]) if m.mtype == "bottom_chord" else (u[1], -u[0])
    x0, y0 = m.coordinates[0]
    off = lambda p: (p[0] - x0) * n[0] + (p[1] - y0) * n[1]
    for nm, v in (("c0", 0.0), ("c01", 0.0), ("c02", 0.0), ("c1", m.h / 2), ("c2", m.h / 2)):
        H.eq(f"{nm} from the axis", off(c[nm]), v, abs_=2e-3)
    for p, q in (("c01", "c1"), ("c02", "c2")):
        H.eq(f"{q} opposite {p}", (c[p][0] - c[q][0]) * u[0] + (c[p][1] - c[q][1]) * u[1], 0.0, abs_=2e-3)
    for nm, p in c.items():
        H.check(f"node {nm} moves along", (abs(j.nodes[nm].coord[0] - p[0]) <= 1e-6) & (abs(j.nodes[nm].coord[1] - p[1]) <= 1e-6))
    H.eq("gap of the joint's design", j.rhs_joint.gap, g, abs_=1e-6 + 2.0)


def layout(k):
    """pairs (place of the brace's end on the bottom chord, on the left top chord) of the left half"""
    n, out = k["n"], []
    for i in range(1, n // 2 + 1):
        a, b = i // 2, (i - 1) // 2 if k["dx"] else (i + 1) // 2
        if n % 4:  # the first brace from the end of the bottom chord
            out.append((a * 2.0 / n, min(b / (n // 4 + 1), 0.99999)))
        else:
            out.append((min(b * 2.0 / (n - 2), 1.0), min(a * 4.0 / n, 0.99999)))
    return out


@job("T04", params=[dict(name=n, what=w) for n in DIMS for w in ("H0", "H1", "H2", "H3", "L1", "L2", "dx", "x", "y") if w != "dx" or "dx" in DIMS[n]],
     bounds="four trusses, one main dimension anywhere within 10 % (the origin within 10 m): chords; places of the joints")
def truss2d_chords(H, name, what):
    s = dict(DIMS[name])
    x = y = 0.0
    v = H.real(what, -1e4, 1e4) if what in "xyH0" else H.real(what, 0.9 * dims(s)[what], 1.1 * dims(s)[what])
    if what == "x":
        x = v
    elif what == "y":
        y = v
    else:
        s[what] = v
    k = dims(s)
    webs = []
    with mock.patch.object(TrussWeb, "__init__", lambda self, b, t, **kw: webs.append((b, t))), mock.patch.object(Truss2D, "add", lambda self, w, add=Truss2D.add: None if isinstance(w, TrussWeb) else add(self, w)):
        t = Truss2D(origin=(x, y), simple=s)
    (a, b), (c,) = t.top_chords, t.bottom_chords
    ends = [(a, (0.0, k["H1"]), (k["L1"], k["H2"])), (b, (k["L1"], k["H2"]), (k["L1"] + k["L2"], k["H3"])), (c, (k["dx"], 0.0), (k["L1"] + k["L2"] - k["dx"], 0.0))]
    for m, p, q in ends:
        for e, r in zip(m.coordinates, (p, q)):
            H.eq("x", e[0], x + r[0], scale=1e4)
            H.eq("y", e[1], y + k["H0"] + r[1], scale=1e4)
    H.same("ridge is stiff, eaves are hinged", (a.Sj1, a.Sj2, b.Sj1, b.Sj2), (a.Sj1, a.Sj2, a.Sj2, b.Sj2))
    H.check("stiff", a.Sj2 >= 1e19)
    H.check("hinges", a.Sj1 <= 1e-3 and b.Sj2 <= 1e-3)
    ref = []
    for p, q in layout(k):
        ref += [(p, q), (1 - p, 2 - q)]
    H.same("braces", len(webs), len(ref))
    for w, r in zip(webs, ref):
        H.check("places of a brace", abs(w[0] - r[0]) <= 1e-4 and abs(w[1] - r[1]) <= 1e-4)


@job("T04", params=[dict(name=n, what=w) for n in DIMS for w in ("H1", "H2", "H3", "dx") if w in DIMS[n] or w == "H3"], bounds="four trusses, one main dimension changed within 20 % after the model was generated")
def truss2d_resize(H, name, what):
    t, k = built(name)
    v = k[what] = H.real(what, 0.8 * k[what], 1.2 * k[what])
    old = dims(DIMS[name])
    done = {}
    with mock.patch.object(t2.TrussJoint, "calc_nodal_coordinates", lambda j: done.__setitem__(id(j), [list(c) for c in j.chord.coordinates])):
        setattr(t, what, v)
    H.eq("dimension", getattr(t, what), v)
    if what == "H1" and old["H1"] == old["H3"]:
        k["H3"] = v
    x, y = 0.0, k["H0"]
    (a, b), (c,) = t.top_chords, t.bottom_chords
    for m, p, q in [(a, (0.0, k["H1"]), (k["L1"], k["H2"])), (b, (k["L1"], k["H2"]), (k["L1"] + k["L2"], k["H3"])), (c, (k["dx"], 0.0), (k["L1"] + k["L2"] - k["dx"], 0.0))]:
        for e, r in zip(m.coordinates, (p, q)):
            H.eq("x of a chord's end", e[0], x + r[0], scale=1e4)
            H.eq("y of a chord's end", e[1], y + r[1], scale=1e4)
        d = [q[0] - p[0], q[1] - p[1]]
        for n in m.nodes.values():
            H.eq("nodes on the chord", (n.coord[0] - x - p[0]) * d[1] - (n.coord[1] - y - p[1]) * d[0], 0.0, abs_=40.0)
        for i, j in enumerate(m.joints):
            H.check("joints follow", id(j) in done or not moved(m, t, what))
            for e, r in zip(done.get(id(j), ()), (p, q)):
                H.eq("joint with the moved chord", e[0], x + r[0], scale=1e4)
                H.eq("joint with the moved chord", e[1], y + r[1], scale=1e4)


def moved(m, t, what):
    return m in {"H1": t.top_chords[:1], "H2": t.top_chords, "H3": t.top_chords[1:], "dx": t.bottom_chords}[what]
