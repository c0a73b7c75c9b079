"""C26 partial melting"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C26"
RULE = ("random multi-phase bodies with a melting law per phase, temperatures around solidus and liquidus, pressures up to several GPa (below and above the kinks of the solidus curves), any characteristic units: "
        "melt fraction of every one-phase cell against the law at the temperature and pressure of the same output; histories with a kinetic time scale; temperature rise of a melting body under internal heating "
        "(latent heat); non-trivial: some judged cell is partly molten (0 < fraction < 1)")
ASSUMPTIONS = ["float32 outputs", "solidus and liquidus of the literature as coded (after the repairs listed in known_findings.json)"]
MODELS = [1, 10, 11, 40, 41]
QL = {1: 320e3, 10: 380e3, 11: 300e3, 40: 400e3, 41: 300e3}


def equil(m, T, P):
    P = P / 1e6; a = 1e-7
    if m == 1:
        Ts, Tl, a = 873.15 + 0 * P, 1473.15 + 0 * P, -0.1
    elif m == 10:
        Ts = np.where(P > 1600, 935 + 0.0035 * P + 6.2e-6 * P ** 2, 973 - 70400 / (P + 354) + 77800000 / (P + 354) ** 2); Tl = 1423 + 0.105 * P
    elif m == 11:
        Ts = np.where(P > 1200, 831 + 0.06 * P, 889 - 17900 / (P + 54) + 20200 / (P + 54) ** 2); Tl = 1262 + 0.09 * P
    else:
        Ts = np.where(P > 1e4, 2212 + 0.030819 * (P - 1e4), 1394 + 0.132899 * P - 5.104e-6 * P ** 2); Tl = 2073 + 0.114 * P
    Ts = np.where(Ts > Tl - 100, Tl - 100, Ts)
    if m == 1:
        return (np.exp(a * (T - Ts)) - 1) / (np.exp(a * (Tl - Ts)) - 1), Ts, Tl
    return (T - Ts) / (Tl - Ts), Ts, Tl


def fraction(m, T, P, old=0.0, w=1.0):
    if m == 0:
        return 0 * T
    return np.clip(w * equil(m, T, P)[0] + (1 - w) * old, 0, 1) * ((P > 0) & (T > 0))


def near(m, draw, P):
    """temperature between 150 K below the solidus and 150 K above the liquidus"""
    _, Ts, Tl = equil(m, np.array(1000.0), np.array(P))
    f = draw(gen.num(-0.3, 1.3))
    return float("%.5g" % (Ts + f * (Tl - Ts)))


@st.composite
def scene(draw):
    L = draw(st.sampled_from([1e4, 5e4])); E = 1e21; e = 1e-15
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3] + [(1e20, 1e5, 1e-10, 1000.0)]))
    b = draw(gen.box(9, 19)); nph = draw(st.integers(1, 3))
    shp = draw(gen.shapes(b, nph))
    ph = [dict(rho=draw(gen.num(2500, 3500, 0)), eta0=E * draw(gen.logn(-1, 1)), melt=draw(st.sampled_from([0] + 3 * MODELS))) for _ in range(nph)]
    if all(q["melt"] == 0 for q in ph):
        ph[0]["melt"] = 10
    Pb = draw(st.sampled_from([1e6, 1e7, 1e8, 5e8, 1e9, 1.2e9, 1.6e9, 2e9, 5e9, 9e9, 1.2e10]))
    m = draw(st.sampled_from([q["melt"] for q in ph if q["melt"]]))
    T0 = near(m, draw, Pb)
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), gz=draw(st.sampled_from([0.0, -10.0])), bkg_strain_rate=e, min_eta=1e17, max_eta=1e25, dt=1e11, lin_solver=2, Nt=draw(st.integers(1, 2)), melting=1, bkg_pressure=Pb)
    sc = ["bc pure"] + gen.shape_lines(shp, L)
    xm, zm = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"])
    gx, gz = draw(gen.num(-150, 150, 0)) / L, draw(gen.num(-150, 150, 0)) / L
    sc.append("f T lin %.8g %.6g %.6g" % (T0 - gx * xm - gz * zm, gx, gz))
    return mdz.case(p, ph, sc)


def chk_scene(c):
    p = c["p"]
    r = ran(c)
    x, z, dx, dz = geom.centres(p)
    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz)
    key = set()
    for k in r.steps():
        o = r.out(k); T, P, phi = o.n("T"), o.n("P"), o.n("phi")
        require((phi >= 0).all() and (phi <= 1 + 1e-6).all(), "step %d: melt fraction outside 0..1" % k)
        for i, q in enumerate(c["ph"]):
            m = ph == i; mm = q["melt"]
            if not m.any():
                continue
            w = fraction(mm, T, P)
            s = sum(np.abs(fraction(mm, T * (1 + a * 2e-7), P + b * (2e-7 * np.abs(P).max() + 1.0)) - w) for a in (-1, 1) for b in (-1, 1))
            bad = (np.abs(phi - w) / (2e-5 + 2 * s))[m]
            if bad.max() > 1:
                j = int(np.argmax(bad))
                raise Violation("step %d: melt fraction of phase %d (law %d) is %.7g at T=%.6g P=%.6g, the law gives %.7g" % (k, i, mm, phi[m][j], T[m][j], P[m][j], w[m][j]))
            if ((w > 0.01) & (w < 0.99))[m].any():
                key.add(mm)
    r.free()
    return tuple(sorted(key)) or None


@st.composite
def hist(draw):
    """uniform body: kinetics of melting, and latent heat"""
    L = 1e4; E = 1e21
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3] + [(1e20, 1e5, 1e-10, 1000.0)]))
    m = draw(st.sampled_from(MODELS)); Pb = draw(st.sampled_from([1e7, 1e8, 1e9, 1.3e9, 3e9, 1.1e10]))
    f = draw(gen.num(0.2, 0.7)); _, Ts, Tl = equil(m, np.array(1000.0), np.array(Pb)); T0 = float("%.6g" % (Ts + f * (Tl - Ts)))
    dt = draw(st.sampled_from([1e10, 1e12])); tk = draw(st.sampled_from([0.0, 0.3, 1.0, 5.0])) * dt
    b = draw(gen.box(5, 9))
    th = draw(gen.flag)
    rho, Cp = draw(gen.num(2500, 3500, 0)), draw(gen.num(800, 1500, 0))
    q = dict(rho=rho, Cp=Cp, k=draw(gen.num(1, 5, 1)), eta0=E, melt=m, tau_kin=tk, Qr=rho * Cp * draw(gen.num(-20, 20, 0)) / dt if th else 0.0)
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=1e-16, min_eta=1e17, max_eta=1e25, dt=dt, lin_solver=2, Nt=draw(st.integers(1, 4)), melting=1, thermal=th, bkg_pressure=Pb)
    sc = ["bc pure", "f phase const 0", "f T const %.8g" % T0] + ["bct %s 0" % s for s in "WESN"]
    c = mdz.case(p, [q], sc)
    c["T0"] = T0
    return c


def chk_hist(c):
    p, q = c["p"], c["ph"][0]; m = q["melt"]; dt, tk = p["dt"], q["tau_kin"]; w = dt / (tk + dt)
    r = ran(c)
    T = c["T0"]; P = p["bkg_pressure"]
    F = lambda T, old: float(fraction(m, np.array(T), np.array(P), old, w))
    mark = F(T, 0.0)                       # the first evaluation starts from solid rock
    key = None
    for k in r.steps():
        o = r.out(k)
        if k == 0:
            want = mark
        else:
            old = mark
            mark = F(T, old)               # markers: before the thermal solution of the step
            if p["thermal"]:
                d = (F(T * (1 + 1e-6), old) - F(T * (1 - 1e-6), old)) / (2e-6 * T)
                ceff = q["Cp"] + (QL[m] * d if mark > 1e-13 else 0.0)
                T = T + dt * q["Qr"] / (q["rho"] * ceff)
            want = F(T, old)
        require(np.abs(o.n("T") - T).max() < 2e-6 * T + 2e-4 * abs(T - c["T0"]), "step %d: temperature %.7g, latent heat of law %d gives %.7g (from %.7g)" % (k, o.n("T").mean(), m, T, c["T0"]))
        s = abs(F(T * (1 + 2e-6), mark) - F(T, mark))
        e = np.abs(o.n("phi") - want).max()
        require(e < 3e-5 + 3 * s * (k + 1), "step %d: melt fraction %.7g, kinetics of law %d give %.7g" % (k, o.n("phi").mean(), m, want))
        if 0.01 < want < 0.99:
            key = (m, tk > 0, p["thermal"])
    r.free()
    return key


PARTS = [Part("fraction", scene(), chk_scene, 500, 6000), Part("history", hist(), chk_hist, 250, 3000)]
