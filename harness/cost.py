"""Fabrication cost (C01)."""
from math import pi

from symx.registry import job
import metku.structures.steel.steel_member  # noqa: F401  (import order)
from metku.cost import workshop as ws
from metku.cost.workshop import Workshop, BlastingCost, CuttingCost, PaintingCost, AssemblingCostWeld, SawingCost
from metku.structures.steel.plates import RectPlate, RectPlateWithHoles
from metku.sections.steel.RHS import RHS
from metku.structures.steel.steel_member import SteelMember

MIN_A = 252 * 8 * 60
W = 19.76 * 1.7 / 60        # machine work with overhead, per minute
KWMIN = 0.1 / 60


def annuity(P, I, n):
    return P * I * (1 + I) ** n / ((1 + I) ** n - 1)


def rate(area, invest, resale, maint, workers, years=20):
    """cost of a minute in a cost centre"""
    re = annuity(area * 1000 - area * 6 / 0.5, 0.05, 50) + area * 8.0 * 6.385 * 1.81
    return (re + annuity(invest - resale, 0.05, years) + maint) / MIN_A + workers * W


def cut_ref(t, L, r=None):
    if t <= 30:
        v = 8.9212 * t * t - 486.87 * t + 8155.8
        per = 0.071 * 0.3 + 40 / 480 + 72 * KWMIN
    else:
        v = 658.67 - 4.1939 * t
        per = 0.0063 * 18.4 + (0.025 + 1e-5 * t * t + 0.001 * t + 0.0224) * 4.18
    tp = L / v
    return (tp + 3.0) * (r or rate(200, 280e3, 0, 1000, 2)) + tp * per


PAINT = {"alkyd": ((0.48, 80, 2.8), (0.45, 40, 3.6), (0.45, 40, 3.6)),
         "epoxy": ((0.50, 60, 4.2), (0.50, 60, 4.2), (0.48, 40, 4.9)),
         "polyurethane": ((0.50, 60, 4.2), (0.50, 60, 5.9)),
         "acryl": ((0.48, 60, 6.4), (0.48, 60, 6.4), (0.40, 40, 6.4))}


def paint_ref(kind, A):
    vol = price = 0.0
    for solid, dft, p in PAINT[kind]:
        wet = (dft * 1e-3 + 0.01 + 0.3 * dft * 1e-3) / solid
        vol += wet
        price += p * 1e-6 * wet
    return A * vol / 900000 * rate(75, 0, 0, 0, 1) + A * price


def weld_ref(a, L, kind="fillet", wire=1.66):
    if kind == "fillet":
        t = L * 1e-3 * (0.4988 * a * a - 0.0005 * a + 0.0021)
        w = L * a * a * 7850e-9
    else:
        t = L * 1e-3 * (0.249 * a * a + 0.0096 * a - 0.0506)
        w = L * a * a / 2 * 7850e-9
    t += 0.5 + 0.5 + 0.27 + 0.09 * 3 + 0.05
    return t * (rate(75, 5000, 0, 0, 1, 10) + 6.0 * KWMIN) + w * (wire + 0.4 * 3.79)


def blast_ref(L):
    t = L / 3000
    return t * rate(400, 200e3, 0, 1000, 1) + t * (0.042 * 0.75 + 40 * KWMIN)


def feed(t):
    for lim, s, f in ((5, 120, .4), (10, 100, .45), (15, 90, .5), (20, 80, .55), (25, 70, .6), (30, 60, .65), (35, 50, .7)):
        if t <= lim:
            return s, f
    return 40, .8


def saw_ref(L, bevels, ends, Q=1800, Sm=2.0):
    tnp = 2 + 2 * (0.25 + 0.5 + 0.5) + bevels * 1.0 + L / 20e3
    tp = cons = 0.0
    for t, h, Ah, At in ends:
        s, f = feed(t)
        tp += h / (Sm * s) + Ah / Q
        cons += At / (Q * 1350 * f) * 170
    return (tnp + tp) * rate(525, 310e3, 0, 1000, 1) + tp * 10 * KWMIN + cons


@job("C01", params=[{"first": f} for f in ("none", "thin", "thick")],
     bounds="plates 4-80 mm, cuts 0.1-20 m, after no other or one other cut")
def cutting(H, first):
    c = Workshop().cost_centres["cutting"]
    if first != "none":
        c.cost(8.0 if first == "thin" else 45.0, H.real("L0", 100.0, 20000.0))
    t = H.real("t", 4.0, 80.0)
    H.assume((t <= 29.999) | (t >= 30.001))
    L = H.real("L", 100.0, 20000.0)
    C = c.cost(t, L)
    H.eq("cutting", C, cut_ref(t, L), scale=10)
    H.check("positive", C > 0, "negative cost")


@job("C01", params=[{"paint": p} for p in PAINT], bounds="areas 0.001-100 m2, after painting another area")
def painting(H, paint):
    c = PaintingCost(paint=paint)
    c.cost(H.real("A0", 1e3, 1e8))
    A = H.real("A", 1e3, 1e8)
    H.eq("painting", c.cost(A), paint_ref(paint, A), scale=100)


@job("C01", params=[{"kind": k, "grade": g} for k, g in (("fillet", "S355"), ("butt", "S355"), ("fillet", "S690"))],
     bounds="welds 3-12 mm thick, 50 mm-5 m long, after another weld of either type")
def welding(H, kind, grade):
    c = AssemblingCostWeld(steel_grade=grade)
    other = H.choice("first", ["none", "fillet", "butt"])
    if other != "none":
        c.cost(6.0, H.real("L0", 50.0, 5000.0), other)
    a = H.real("a", 3.0, 12.0)
    L = H.real("L", 50.0, 5000.0)
    C = c.cost(a, L, kind)
    H.eq("welding", C, weld_ref(a, L, kind, {"S355": 1.66, "S690": 2.34}[grade]), scale=10)
    d = AssemblingCostWeld(weld_type=kind, weld_length=L, weld_size=a, steel_grade=grade)
    H.eq("given to the constructor", super(AssemblingCostWeld, d).cost(), C, scale=10)


@job("C01", bounds="lengths 0.1-30 m, conveyor speeds 1-5 m/min, after another piece")
def blasting(H):
    c = Workshop().cost_centres["blasting"]
    c.cost(H.real("L0", 100.0, 30000.0))
    L = H.real("L", 100.0, 30000.0)
    H.eq("blasting", c.cost(L), blast_ref(L), scale=10)
    v = H.real("v", 1000.0, 5000.0)
    d = BlastingCost(speed=v)
    H.eq("speed", d.cost(L) * v, blast_ref(L) * 3000, scale=1e4)


@job("C01", params=[{"bevels": b, "first": f} for b in (0, 1, 2) for f in (False, True)],
     bounds="lengths 0.5-20 m, walls 2-40 mm different at the ends, sawn heights 50-500 mm, solid areas 100-10000 mm2")
def sawing(H, bevels, first):
    c = Workshop().cost_centres["sawing"]
    if first:
        c.cost(5000.0, 2 - bevels, "S420", [200.0, 100.0], [6.0, 12.0], [3000.0, 2000.0], [5000.0, 4000.0])
    L = H.real("L", 500.0, 20000.0)
    ends = []
    # heights and thicknesses vary at one end
    for i in (0, 1):
        t = H.real(f"t{i}", 2.0, 40.0) if i == 0 else H.choice("t1", [4.0, 5.0, 22.0])
        h = H.real(f"h{i}", 50.0, 500.0)
        Ah = H.real(f"Ah{i}", 100.0, 10000.0)
        At = Ah + 2 * h * t
        ends.append((t, h, Ah, At))
    T, Hh, AH, AT = ([e[i] for e in ends] for i in range(4))
    C = c.cost(L, bevels, H.choice("grade", ["S355", "S420"]), Hh, T, AH, AT)
    H.eq("sawing", C, saw_ref(L, bevels, ends), scale=100)


@job("C01", bounds="areas 10-1000 m2, 1-4 workers, investments up to 1 MEUR, lives 5-30 years, utilisation 0.2-1, "
     "minutes and consumables at will")
def cost_centre(H):
    length, width = H.real("length", 2.0, 50.0), H.real("width", 2.0, 30.0)
    inv = H.real("inv", 0.0, 1e6)
    res = H.real("res", 0.0, 1e5)
    mt = H.real("maint", 0.0, 1e4)
    n = H.choice("years", [5, 10, 20, 30])
    c = ws.CostCentre(length, width, 1, inv, res, mt, n)
    tp, tn = H.real("tp", 0.0, 100.0), H.real("tn", 0.0, 100.0)
    c.times["productive"], c.times["non-productive"] = tp, tn
    pc, en, cc, ut = H.real("pc", 0.0, 5.0), H.real("en", 0.0, 5.0), H.real("cc", 0.0, 100.0), H.choice("util", [0.25, 0.5, 1.0])
    lab = H.real("labour", 0.0, 3.0)
    c.productive_costs["consumables"], c.productive_costs["energy"] = pc, en
    c.consumables_cost = cc
    c.utility = ut
    c.costs["labour"] = lab
    ref = (tp + tn) * (rate(length * width, inv, res, mt, 0, n) + lab) / ut + tp * (pc + en) + cc
    H.eq("cost of a cost centre", c.cost(), ref, scale=100)


ADD = ((5, 140), (6, 140), (7, 82), (8, 35), (10, 23), (12, 12), (15, 0), (20, 0), (40, 12), (50, 12), (60, 47), (80, 58))


def add_ref(t):
    if t < 5:
        return 140.0
    for lim, p in ADD:
        if t < lim:
            return float(p)
    return 140.0


def plate_ref(b, h, t, grade, price, weld, holes):
    c = b * h * t * 7850e-9 * (price + (0.0 if grade == "S235" else 35.0) + add_ref(t)) * 1e-3
    big = b if b >= h else h
    P = 2 * (b + h)
    c += cut_ref(t, P) + paint_ref("alkyd", 2 * b * h + t * P) + blast_ref(big)
    if weld:
        c += weld_ref(weld, P)
    if holes:
        c += cut_ref(t, sum(holes) * pi)
    return c


@job("C01", params=[{"grade": g, "weld": w, "holes": n} for g, w, n in
                    (("S355", 0.0, 0), ("S235", 5.0, 0), ("S355", 5.0, 4), ("S420", 0.0, 2))],
     bounds="plates 100-1000 x 100-1000 x 4-80 mm, material price 0.5-3 EUR/kg")
def plate(H, grade, weld, holes):
    w = Workshop()
    t = H.real("t", 4.0, 80.0)
    H.assume((t <= 29.999) | (t >= 30.001))
    b, h = (H.real("b", 100.0, 1000.0), 300.0) if H.flag("vary b") else (250.0, H.real("h", 100.0, 1000.0))
    price = H.real("price", 500.0, 3000.0)
    p = RectPlate(b, h, t, grade)
    p.weld_size = weld
    p.holes = [22.0] * holes
    C = p.cost(w, price)
    ref = plate_ref(b, h, t, grade, price, weld, p.holes)
    H.eq("cost of a plate", C, ref, scale=100)
    H.eq("sum of the shares", sum(p._cost.values()), C, scale=100)
    for k, v in p._cost.items():
        H.check("share " + k, v >= 0, f"the share of {k} is negative")


@job("C01", params=[{"change": c} for c in ("size", "weld", "holes", "thickness", "other plate")],
     bounds="plates of 100-1000 mm, the second size, weld, thickness or number of holes at will")
def plate_again(H, change):
    w = Workshop()
    b, h, t, weld, holes = 200.0, 300.0, 12.0, 5.0, [22.0, 22.0]
    p = RectPlate(b, h, t, "S355")
    p.weld_size, p.holes = weld, list(holes)
    first = p.cost(w)
    if change == "size":
        b = p.b = H.real("b2", 100.0, 1000.0)
    elif change == "weld":
        weld = p.weld_size = H.choice("weld2", [0.0, 3.0, 8.0])
    elif change == "holes":
        holes = [H.real("d", 12.0, 40.0)] * H.choice("n", [0, 1, 3])
        p.holes = list(holes)
    elif change == "thickness":
        t = p.t = H.real("t2", 30.001, 60.0)
    else:
        q = RectPlate(H.real("bq", 100.0, 1000.0), 500.0, 40.0, "S235")
        q.weld_size = 8.0
        q.cost(w, 2000.0)
        H.eq("cost of the plate again", p.cost(w), first, scale=100)
        p = RectPlate(b, h, t, "S355")
        p.weld_size, p.holes = weld, list(holes)
    H.eq("cost of the changed plate", p.cost(w), plate_ref(b, h, t, "S355", 1169.0, weld, holes), scale=100)
    H.eq("cost once more", p.cost(w), plate_ref(b, h, t, "S355", 1169.0, weld, holes), scale=100)


@job("C01", bounds="plates 200-800 x 300 x 10 mm with 1-3 by 1-2 holes of 12-40 mm")
def plate_with_holes(H):
    b = H.real("b", 200.0, 800.0)
    d = H.real("d", 12.0, 40.0)
    n1, n2 = H.choice("n1", [1, 2, 3]), H.choice("n2", [1, 2])
    p = RectPlateWithHoles(b, 300.0, 10.0, d, [45.0, 40.0], px=60.0, py=70.0, n1=n1, n2=n2)
    H.eq("holes", p.n, n1 * n2, scale=1)
    H.eq("left edge", p.eLeft(), 45.0, scale=10)
    H.eq("right edge", p.eRight(), b - 45.0 - 60.0 * (n2 - 1), scale=10)
    H.eq("top edge", p.eTop(), 300.0 - 40.0 - 70.0 * (n1 - 1), scale=10)
    H.eq("cost", p.cost(Workshop()), plate_ref(b, 300.0, 10.0, "S355", 1169.0, 0.0, [d] * (n1 * n2)), scale=100)


@job("C01", bounds="RHS 60-400 mm, walls 3-12.5 mm, lengths 0.5-20 m, unit costs 0.5-3 EUR/kg")
def member_material(H):
    h, b = H.real("h", 100.0, 400.0), H.real("b", 100.0, 400.0)
    t = H.choice("t", [3.0, 6.0, 8.0, 12.5])
    s = RHS(h, b, t)
    s.unit_cost = H.real("unit", 0.5, 3.0)
    L = H.real("L", 500.0, 20000.0)
    m = SteelMember(s, L)
    H.eq("weight", m.weight(), s.A * 7850e-9 * L, scale=100)
    H.eq("material", m.cost(), s.A * 7850e-9 * L * s.unit_cost, scale=100)
