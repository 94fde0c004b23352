"""EN 1993-1-2: steel at elevated temperatures and unprotected steel in fire (E04)."""
from symx.registry import job
import metku.eurocodes.en1993.en1993_1_2 as fire
from harness.ec3_member import mx, mn

# EN 1993-1-2 tables 3.1, E.1, C.1 (1.4301) and D.1
T = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
CS = dict(
    ky=[1, 1, 1, 1, 1, .78, .47, .23, .11, .06, .04, .02, 0],
    kp=[1, 1, .807, .613, .42, .36, .18, .075, .05, .0375, .025, .0125, 0],
    kE=[1, 1, .9, .8, .7, .6, .31, .13, .09, .0675, .045, .0225, 0],
    kp02=[1, 1, .89, .78, .65, .53, .30, .13, .07, .05, .03, .02, 0])
ST = dict(
    ky=[.26, .24, .19, .19, .19, .19, .22, .26, .35, .38, .40, .40, .40],
    k02=[1, .82, .68, .64, .60, .54, .49, .40, .27, .14, .06, .03, 0],
    ku=[1, .87, .77, .73, .72, .67, .58, .43, .27, .15, .07, .03, 0],
    kE=[1, .96, .92, .88, .84, .80, .76, .71, .63, .45, .20, .10, 0],
    kEct=[.11, .05, .02, .02, .02, .02, .02, .02, .02, .02, .02, .02, .02],
    epsU=[.4, .4, .4, .4, .4, .4, .35, .3, .2, .2, .2, .2, .2])
TB = [20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000]
KB = [1, .968, .952, .935, .903, .775, .55, .22, .1, .067, .033, 0]


def table(ts, ks, t):
    for i in range(len(ts) - 1):
        if t <= ts[i + 1]:
            return ks[i] + (ks[i + 1] - ks[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
    return ks[-1]


@job("E04", params=[dict(prop=p) for p in CS], bounds="temperature in [20,1200]")
def carbon(H, prop):
    t = H.real("t", 20.0, 1200.0)
    k = fire.reduce_property(t, prop)
    H.eq(prop, k, table(T, CS[prop], t), abs_=1e-9)
    H.between("range " + prop, 0.0, k, 1.0, abs_=1e-9)
    if prop == "ky":
        H.eq("fy", fire.fyT(t, 420), k * 420, abs_=1e-6)
    if prop == "kp":
        H.eq("fp", fire.fpT(t, 235), k * 235, abs_=1e-6)
    if prop == "kE":
        H.eq("E", fire.EaT(t), k * 210000, abs_=1e-3)


@job("E04", params=[dict(prop=p) for p in ST], bounds="temperature in [20,1200]")
def stainless(H, prop):
    t = H.real("t", 20.0, 1200.0)
    k = fire.reduce_property(t, prop, "1.4301")
    H.eq(prop, k, table(T, ST[prop], t), abs_=1e-9)
    if prop == "k02":
        H.eq("f02", fire.f02pT(t, 230), k * 230, abs_=1e-6)
    if prop == "ku":
        H.eq("fu", fire.fuT(t, 540, "1.4301"), k * 540, abs_=1e-6)


@job("E04", bounds="temperature in [20,1000]")
def bolts(H):
    t = H.real("t", 20.0, 1000.0)
    H.eq("kb", fire.kbT(t), table(TB, KB, t), abs_=1e-9)


@job("E04", params=[dict(prop=p) for p in ("ky", "kp", "kE", "kp02")], bounds="two temperatures in [20,1200]")
def hotter_is_weaker(H, prop):
    a, b = H.real("t1", 20.0, 1200.0), H.real("t2", 20.0, 1200.0)
    H.assume(a <= b)
    H.ge(prop, fire.reduce_property(a, prop), fire.reduce_property(b, prop), abs_=1e-9)


@job("E04", bounds="temperature in [20,1200], yield strength in [100,1000]")
def ultimate(H):
    t = H.real("t", 20.0, 1200.0)
    fy = H.real("fy", 0.0, 1000.0)
    fu = fire.fuT(t, fy)
    if t <= 300:
        H.eq("fu", fu, 1.25 * fy)
    elif t >= 400:
        H.eq("fu", fu, fy)
    else:
        H.eq("fu", fu, fy * (2 - 0.0025 * t))


@job("E04", bounds="temperature in [20,1200]")
def thermal(H):
    t = H.real("t", 20.0, 1200.0)
    dl, la, ca = fire.therm_elongation(t), fire.therm_conductivity(t), fire.spec_heat(t)
    H.observe("ca", ca)
    if t < 750:
        H.eq("elongation", dl, 1.2e-5 * t + 0.4e-8 * t * t - 2.416e-4, abs_=1e-9)
    elif t <= 860:
        H.eq("elongation", dl, 1.1e-2)
    else:
        H.eq("elongation", dl, 2e-5 * t - 6.2e-3)
    H.eq("conductivity", la, 54 - 3.33e-2 * t if t < 800 else 27.3)
    if t < 600:
        H.eq("specific heat", ca, 425 + 0.773 * t - 1.69e-3 * t * t + 2.22e-6 * t * t * t)
    elif t < 735:
        H.eq("specific heat", (ca - 666) * (738 - t), 13002.0)
    elif t < 900:
        H.eq("specific heat", (ca - 545) * (t - 731), 17820.0)
    else:
        H.eq("specific heat", ca, 650.0)
    H.ge("specific heat is bounded", ca, 425.0)
    H.le("specific heat is bounded above", ca, 5001.0)
    H.eq("stainless elongation", fire.therm_elongation_stainless(t), (16 + 4.79e-3 * t - 1.243e-6 * t * t) * (t - 20) * 1e-6, abs_=1e-9)
    H.eq("stainless conductivity", fire.therm_conductivity_stainless(t), 14.6 + 0.0127 * t)
    H.eq("stainless specific heat", fire.spec_heat_stainless(t), 450 + 0.28 * t - 2.91e-4 * t * t + 1.34e-7 * t * t * t)


@job("E04", params=[dict(hard=h, t=t) for h in (False, True) for t in (20, 200, 330, 400, 465, 700, 1000, 1200)],
     bounds="strain in [0,0.25], yield strength 235..700; 8 temperatures")
def stress_strain(H, hard, t):
    fy = H.choice("fy", [235, 355, 700])
    E = 210000.0
    s = H.real("strain", 0.0, 0.25)
    if t < 1200:
        e0 = table(T, CS["kp"], t) * fy / (table(T, CS["kE"], t) * E)
        H.assume((s <= e0) | (s >= e0 * (1 + 1e-9)))
    st = fire.stress(s, t, E, fy, hard)
    H.observe("stress", st)
    fyt, fpt, Et = table(T, CS["ky"], t) * fy, table(T, CS["kp"], t) * fy, table(T, CS["kE"], t) * E
    fut = fyt * (1.25 if t <= 300 else 1.0 if t >= 400 else 2 - 0.0025 * t) if hard else fyt
    if Et == 0:
        H.eq("no strength", st, 0.0)
        return
    ep = fpt / Et
    H.ge("not negative", st, 0.0, abs_=1e-9)
    H.le("not above the ultimate strength", st, fut, abs_=1e-6)
    if s <= ep:
        H.eq("elastic", st, Et * s, abs_=1e-6)
    elif s < 0.02:
        H.ge("above the proportional limit", st, fpt, abs_=1e-6)
        H.le("below the yield strength", st, fyt, abs_=1e-6)
        # ellipse with centre (0.02, fp - c) and semi-axes a, b
        d = 0.02 - ep
        c = (fyt - fpt) ** 2 / (d * Et - 2 * (fyt - fpt))
        b2, a2 = c * d * Et + c * c, d * (d + c / Et)
        y = st - fpt + c
        H.eq("ellipse", y * y * a2, b2 * (a2 - (0.02 - s) * (0.02 - s)), rel=1e-5, abs_=1e-9)
    elif s <= 0.15:
        if hard and s < 0.04:
            H.eq("hardening", st, fyt + (fut - fyt) * (s - 0.02) / 0.02, abs_=1e-6)
        else:
            H.eq("plateau", st, fut)
    elif s <= 0.2:
        H.eq("descending", st, fut * (0.2 - s) / 0.05, abs_=1e-6)
    else:
        H.eq("broken", st, 0.0)


@job("E04", params=[dict(t=t) for t in (20, 240, 700, 1050)], bounds="strain over the whole curve at 4 temperatures, grade 1.4301")
def stress_stainless(H, t):
    """the curve passes through the proof strength and ends in the tensile strength"""
    E, fy, fu = 200000.0, 210, 520
    f02, Et = table(T, ST["k02"], t) * fy, table(T, ST["kE"], t) * E
    fut, eu = table(T, ST["ku"], t) * fu, table(T, ST["epsU"], t)
    ec = f02 / Et + 0.002
    H.eq("proof strength", fire.stress_stainless(ec, t, E, fy, fu), f02)
    s = H.real("strain", 0.0, 1.0)
    s = ec + (eu - ec) * s
    H.assume(s > ec * (1 + 1e-9))
    st = fire.stress_stainless(s, t, E, fy, fu)
    H.ge("above the proof strength", st, f02, rel=1e-5)
    H.le("below the tensile strength", st, fut, rel=1e-5)
    Ec = table(T, ST["kEct"], t) * E
    e = (fut - f02) ** 2 / ((eu - ec) * Ec - 2 * (fut - f02))
    d2, c2 = e * (eu - ec) * Ec + e * e, (eu - ec) * (eu - ec + e / Ec)
    y = st - f02 + e
    H.eq("ellipse", y * y * c2, d2 * (c2 - (eu - s) * (eu - s)), rel=1e-5)


@job("E04", bounds="gas and steel temperatures in [20,1300], emissivities and configuration factor in [0,1], convection in [4,50]")
def heat_flux(H):
    tg, ts = H.real("gas", 20.0, 1300.0), H.real("steel", 20.0, 1300.0)
    phi, ef, em = H.real("phi", 0.0, 1.0), H.real("eps_f", 0.0, 1.0), H.real("eps_m", 0.0, 1.0)
    ac = H.real("ac", 4.0, 50.0)
    h = fire.hnet(tg, ts, phi, ef, em, ac)
    a, b = tg + 273, ts + 273
    H.eq("flux", h, ac * (tg - ts) + phi * ef * em * 5.67e-8 * (a * a * a * a - b * b * b * b), scale=1e5)
    if tg >= ts:
        H.ge("heat goes to the steel", h, 0.0, abs_=1e-6)
    else:
        H.le("heat leaves the steel", h, 0.0, abs_=1e-6)


@job("E04", bounds="time in [0,240] minutes, two instants")
def gas_temperature(H):
    t = H.real("t", 0.0, 240.0)
    t2 = H.real("t2", 0.0, 240.0)
    H.assume(t <= t2)
    H.eq("standard fire starts", fire.standard_fire(0), 20.0)
    H.eq("hydrocarbon fire starts", fire.hydrocarbon_fire(0), 20.0)
    H.le("standard fire heats up", fire.standard_fire(t), fire.standard_fire(t2), abs_=1e-6)
    H.ge("standard fire", fire.standard_fire(t), 20.0, abs_=1e-6)
    H.le("hydrocarbon fire heats up", fire.hydrocarbon_fire(t), fire.hydrocarbon_fire(t2), abs_=1e-6)
    H.between("hydrocarbon fire", 20.0, fire.hydrocarbon_fire(t), 1100.0, abs_=1e-6)


@job("E04", params=[dict(gas=g, steel=s) for g in ("standard", "hydrocarbon") for s in ("carbon", "stainless")],
     bounds="section factor times shadow factor in [5,400] 1/m, step in [1,5] s, three steps")
def heating(H, gas, steel):
    """each step adds the net heat flux over the heat capacity; time runs in minutes"""
    f = {"standard": fire.standard_fire, "hydrocarbon": fire.hydrocarbon_fire}[gas]
    ac = {"standard": 25, "hydrocarbon": 50}[gas]
    V = H.real("AmV", 5.0, 400.0)
    ksh = H.choice("ksh", [0.6, 1.0])
    dt = H.choice("dt", [1, 5])
    fn = fire.steel_temp if steel == "carbon" else fire.stainless_steel_temp
    Ts, tm = fn(ksh, V, 3 * dt, f, dt)
    H.same("steps", (len(Ts), len(tm)), (4, 4))
    H.eq("start", Ts[0], 20.0)
    em = 0.7 if steel == "carbon" else 0.4
    for i in range(3):
        g = f(i * dt / 60)
        H.eq("time", tm[i + 1], (i + 1) * dt / 60)
        c = fire.spec_heat(Ts[i]) if steel == "carbon" else fire.spec_heat_stainless(Ts[i])
        H.eq(f"step {i}", (Ts[i + 1] - Ts[i]) * c * 7850, ksh * V * dt * fire.hnet(g, Ts[i], eps_m=em, ac=ac), abs_=1e-3)


@job("E04", params=[dict(t0=t) for t in (20, 300, 620, 740, 880, 950)],
     bounds="section factor times shadow factor in [5,400] 1/m, steel at 6 temperatures, one step of 5 s in gas of any temperature")
def one_step(H, t0):
    V = H.real("AmV", 5.0, 400.0)
    tg = H.real("gas", 20.0, 1200.0)
    Ts, tm = fire.steel_temp(1.0, V, 5, fire.standard_fire, 5, Tsteel_ini=t0)
    c = fire.spec_heat(t0)
    H.eq("step", (Ts[1] - t0) * c * 7850, V * 5 * fire.hnet(20.0, t0), abs_=1e-3)
