"""C05 creep flow laws"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz, rheo
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C05"
RULE = ("random multi-phase bodies whose phases combine constant, power-law (every id of the data base, or user-given), diffusion, grain-boundary and Peierls creep, with or without elasticity, "
        "in random temperature, pressure, grain-size and melt fields: in every cell and vertex filled by one phase the written viscosity and mechanism rates solve the parallel creep laws "
        "for the written strain rate; non-trivial: at least one pure cell with a mechanism carrying more than 1 % of the strain rate")
ASSUMPTIONS = ["the flow-law parameters of the pinned commit (vpbt/flowlaws.json) are the published ones", "float32 outputs"]

PWL = [int(k) for k in rheo.DB["pwl"] if k != "24"]
LIN = [int(k) for k in rheo.DB["lin"]]
GBS = [int(k) for k in rheo.DB["gbs"]]
EXP = [int(k) for k in rheo.DB["exp"]]


@st.composite
def phase(draw, e):
    q = dict(cstv=0, rho=draw(gen.num(2000, 3500, 0)), G=draw(gen.logn(9.5, 11, 2)), eta0=draw(gen.logn(19, 24, 2)), gs_ref=draw(gen.logn(-5, -2, 2)))
    kinds = draw(st.sampled_from(["cst", "upwl", "pwl", "pwl", "lin", "gbs", "exp", "cst+pwl", "pwl+lin", "pwl+exp", "pwl+lin+exp", "pwl+gbs", "cst+lin+gbs", "cst+upwl", "pwl+lin+gbs+exp", "lin+exp"])).split("+")
    if "cst" in kinds:
        q["cstv"] = 1
    if "upwl" in kinds:
        n = draw(gen.num(1, 5, 1))
        # eta0 in Pa s^(1/n): stress of about 2 eta0 e^(1/n)
        q.update(pwlv=1, npwl=n, Qpwl=draw(st.sampled_from([0.0, 1e5, 3e5])))
        if "cst" not in kinds:
            s0 = draw(gen.logn(6, 9, 2)); q["eta0"] = float("%.4g" % (s0 / 2 / e ** (1 / n) / np.exp(q["Qpwl"] / n / rheo.R / 1000.0)))
    if "pwl" in kinds:
        q.update(pwlv=draw(st.sampled_from(PWL)) * draw(st.sampled_from([1, 1, 1, -1])))
    if draw(gen.flag):
        q["pref_pwl"] = draw(st.sampled_from([0.1, 0.5, 3.0]))
    if "lin" in kinds:
        q.update(linv=draw(st.sampled_from(LIN)) * draw(st.sampled_from([1, 1, 1, -1])))
    if "gbs" in kinds:
        q.update(gbsv=draw(st.sampled_from(GBS)) * draw(st.sampled_from([1, 1, 1, -1])))
    if "exp" in kinds:
        q.update(expv=draw(st.sampled_from(EXP)))
    return q


@st.composite
def creep(draw):
    cu = draw(st.sampled_from([(1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0), (1e20, 1e5, 1e-10, 1000.0)]))
    L = draw(st.sampled_from([2e4, 1e5]))
    e = draw(st.sampled_from([1e-16, 1e-15, 1e-14, 1e-13, 1e-12])) * draw(st.sampled_from([1, -1]))
    b = draw(gen.box(11, 23))
    nph = draw(st.integers(1, 6))
    shp = draw(gen.shapes(b, nph, hi=6))
    phases = [draw(phase(abs(e))) for _ in range(nph)]
    bc = draw(st.sampled_from(["pure", "simple", "lin", "pure"]))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e, gz=draw(st.sampled_from([0.0, -10.0])), dt=draw(gen.logn(10, 13, 2)), elastic=draw(gen.flag),
             nit_max=draw(st.sampled_from([1, 3, 8])), Newton=draw(gen.flag), nonlin_rel_mom=1e-5, nonlin_rel_div=1e-5, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9,
             lin_abs_mom=1e-7, lin_rel_mom=1e-7, lin_abs_div=1e-7, lin_rel_div=1e-7, eta_average=draw(st.integers(0, 2)), bkg_pressure=draw(st.sampled_from([0.0, 1e9])))
    lo, hi = draw(st.sampled_from([(1e18, 1e24), (1e20, 1e23), (1e17, 1e26)]))
    hi = min(hi, float("%.2g" % (4e9 / abs(e)))); lo = min(lo, hi / 100)      # stresses stay below some GPa
    p.update(min_eta=lo, max_eta=hi)
    if draw(st.sampled_from([0, 0, 1])):
        p.update(force_melt_weak=1, melt_weak=draw(st.sampled_from([0.0, 10.0, 40.0])))
    if bc == "simple":
        p.update(shear_style=1, periodic_x=1)
    sc = ["bc " + bc] + gen.shape_lines(shp, L)
    H, W = p["zmax"] - p["zmin"], p["xmax"] - p["xmin"]
    T0, T1 = draw(st.integers(200, 1700)), draw(st.integers(400, 1700))
    sc.append("f T lin %.10g 0 %.10g" % (T0 + (T1 - T0) * p["zmax"] / H, -(T1 - T0) / H))
    if draw(gen.flag):
        sc.append("f T gauss %g %.6g %.6g %.6g" % (draw(st.integers(-100, 200)), p["xmin"] + 0.4 * W, p["zmin"] + 0.6 * H, 0.2 * L))
    sc.append("f phi const %g" % draw(st.sampled_from([0.0, 0.0, 0.02, 0.05])))
    if bc == "lin":
        a, c2, d2 = draw(gen.num(-1, 1, 1)), draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
        sc += ["f bcvx lin 0 %.10g %.10g" % (a * e, c2 * e), "f bcvz lin 0 %.10g %.10g" % (d2 * e, -a * e)]
    return mdz.case(p, phases, sc)


def law(c, ph, T, P, exx, ezz, exz):
    """strain-rate invariant, visco-elastic viscosity, viscous viscosity and mechanism rates where the phase is known"""
    p = c["p"]
    E = np.sqrt(0.5 * (exx ** 2 + ezz ** 2 + (exx + ezz) ** 2) + exz ** 2)
    E = np.maximum(E, 1e-30)
    eta = np.full(E.shape, np.nan); etav = eta.copy(); rates = {k: np.zeros(E.shape) for k in ("cst", "pwl", "lin", "gbs", "exp", "el")}
    phi = float([l for l in c["sc"] if l.startswith("f phi")][0].split()[-1])
    for i, q in enumerate(c["ph"]):
        m = ph == i
        if not m.any():
            continue
        mech = rheo.mechanisms(q, T[m], P[m], q["gs_ref"], phi, p.get("melt_weak") if p.get("force_melt_weak") else None)
        if all(not np.isfinite(lC).all() for _, lC, _ in mech):
            continue
        tau, rt = rheo.solve(mech, E[m], q["G"] * p["dt"] if p["elastic"] else None)
        eta[m] = tau / 2 / E[m]
        etav[m] = tau / 2 / sum(v for k, v in rt.items() if k != "el")
        for k in rt:
            rates[k][m] = rt[k]
    return E, eta, etav, rates


def cold(c):
    """some phase is, at the coldest spot, far stiffer than the upper viscosity limit: stress and pressure are then meaningless"""
    p = c["p"]; x, z, _, _ = geom.vertices(p)
    T = np.array([max(geom.ev(c["sc"], "T", x, z).min(), rheo.ZC)])
    e = abs(p["bkg_strain_rate"])
    for q in c["ph"]:
        m = rheo.mechanisms(q, T, 0.0 * T, q["gs_ref"])
        t, _ = rheo.solve(m, np.array([e]))
        if t[0] / 2 / e > 3 * p["max_eta"]:
            return True
    return False


def chk(c):
    p = c["p"]
    # Peierls creep alone switches off above its temperature limit: nothing defines the flow there
    for q in c["ph"]:
        if q["expv"] and not (q["cstv"] or q["pwlv"] or q["linv"] or q["gbsv"]):
            return None
    r = mdz.run(c)
    if not r.ok() and "Visco-Elastic iterations failed" in r.log and cold(c):
        r.free(); raise Inconclusive("local iterations failed at viscosities far beyond the cut-off")
    if not r.ok():
        r.free(); r = ran(c)
    o = r.out(1); r.free()
    x, z, dx, dz = geom.centres(p); xv, zv, _, _ = geom.vertices(p)
    exx, ezz, exz, _ = fd.strain(o)
    er = 3 * fd.strain_err(o)
    av = lambda a: fd.v2c(a)
    key = None
    for where in ("cell", "vertex"):
        if where == "cell":
            ph = geom.pure(c["sc"], x, z, 1.05 * dx, 1.05 * dz)
            T, P = o.n("T"), o.n("P")
            E, eve, eta, rt = law(c, ph, T, P, exx, ezz, fd.v2c(exz)); got = o.n("eta_n")
        else:
            ph = geom.pure(c["sc"], xv, zv, 1.55 * dx, 1.55 * dz)[1:-1, 1:-1]
            T, P = av(o.n("T")), av(o.n("P"))
            E, eve, eta, rt = law(c, ph, T, P, av(exx), av(ezz), exz[1:-1, 1:-1]); got = o.s("eta_s")[1:-1, 1:-1]
        if p["periodic_x"]:
            ph[:, :2] = ph[:, -2:] = -1          # markers across the periodic boundary contribute there
        ok = (ph >= 0) & np.isfinite(eta) & (er / E < 3e-3) & (np.abs(T - 1200 - rheo.ZC) > 0.01)
        want = np.clip(eta, p["min_eta"], p["max_eta"])
        rel = np.abs(got / want - 1)
        tol = 3e-4 + 3 * er / E
        bad = ok & ~(rel <= tol)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, rel / tol, 0)), bad.shape)
            q = c["ph"][ph[i]]
            raise Violation("%s %s: viscosity %.6g, the flow laws give %.6g (phase %s, T=%.2f P=%.4g E=%.4g rates %s)" % (
                where, i, got[i], want[i], {k: q[k] for k in ("cstv", "pwlv", "linv", "gbsv", "expv", "eta0", "npwl", "Qpwl")}, T[i], P[i], E[i], {k: float("%.3g" % v[i]) for k, v in rt.items()}))
        # stresses follow from the visco-elastic viscosity (all initial stresses are zero)
        eve = np.clip(eve, p["min_eta"], p["max_eta"])
        for nm, s_, e_ in ([("sxxd", o.n("sxxd"), exx), ("szzd", o.n("szzd"), ezz)] if where == "cell" else [("sxz", o.s("sxz")[1:-1, 1:-1], exz[1:-1, 1:-1])]):
            t = 2 * eve * (tol * np.abs(e_) + er)
            b3 = ok & ~(np.abs(s_ - 2 * eve * e_) <= t)
            if b3.any():
                i = np.unravel_index(np.argmax(np.where(b3, np.abs(s_ - 2 * eve * e_) / t, 0)), b3.shape)
                raise Violation("%s %s: %s %.6g, expected %.6g" % (where, i, nm, s_[i], 2 * eve[i] * e_[i]))
        if where == "cell":
            for k in ("pwl", "lin", "gbs", "exp"):
                w = rt[k]; g = o.n("eII_" + k)
                t = np.maximum(20 * (3e-5 + 3 * er / E), 1e-3) * w + 1e-4 * E
                b2 = ok & ~(np.abs(g - w) <= t)
                if b2.any():
                    i = np.unravel_index(np.argmax(np.where(b2, np.abs(g - w) / t, 0)), b2.shape)
                    raise Violation("cell %s: rate of %s creep %.6g, the flow laws give %.6g (total %.4g, T=%.2f)" % (i, k, g[i], w[i], E[i], T[i]))
            act = tuple(sorted(k for k in rt if (ok & (rt[k] > 0.01 * E)).any()))
            if ok.any() and act:
                key = act
    return key


def law_case(kind, k, e, tau, d, P, phi, neg, cu):
    """one phase, one law, at the temperature where it carries the stress tau at the strain rate e"""
    q = dict(cstv=0, pwlv=0, linv=0, gbsv=0, expv=0, eta0=1e21, npwl=3.0, Qpwl=0.0, gs_ref=d)
    q[kind + "v"] = -k if neg else k
    T = np.linspace(330.0, 1900.0 if kind != "exp" else 1450.0, 400)
    m = rheo.mechanisms(q, T, P + 0 * T, d, phi)
    t, _ = rheo.solve(m, e + 0 * T)
    i = int(np.argmin(np.abs(np.log(t / tau))))
    Ti = round(float(T[i]), 1)
    eta = float("%.3g" % (t[i] / 2 / e))
    if kind == "exp":                      # Peierls creep needs a companion above its temperature limit
        q.update(cstv=1, eta0=float("%.3g" % (20 * eta)))
    p = dict(Nx=9, Nz=9, xmin=-1e4, xmax=1e4, zmin=-1e4, zmax=1e4, **gen.code_units(cu), bkg_strain_rate=e, dt=1e11, min_eta=eta / 100, max_eta=eta * 100, bkg_pressure=P,
             nit_max=3, lin_abs_mom=1e-7, lin_rel_mom=1e-7, lin_abs_div=1e-7, lin_rel_div=1e-7, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9)
    return mdz.case(p, [q], ["bc pure", "f phase const 0", "f T const %g" % Ti, "f phi const %g" % phi, "f P const %g" % P])


ALL = [("pwl", k) for k in PWL if k != 1] + [("lin", k) for k in LIN] + [("gbs", k) for k in GBS] + [("exp", k) for k in EXP]
CU = [(1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0)]
FIXED = [law_case(kd, k, 1e-14, tau, 1e-3, P, phi, False, CU[0]) for kd, k in ALL for tau, P, phi in ((1e8, 0.0, 0.0), (3e7, 2e9, 0.03))]


@st.composite
def one_law(draw):
    kd, k = draw(st.sampled_from(ALL))
    return law_case(kd, k, draw(st.sampled_from([1e-16, 1e-14, 1e-12])), draw(gen.logn(6, 9, 2)), draw(gen.logn(-5, -2, 2)), draw(st.sampled_from([0.0, 5e8, 2e9])),
                    draw(st.sampled_from([0.0, 0.02, 0.05])), kd != "exp" and draw(st.integers(0, 4)) == 0, draw(st.sampled_from(CU)))


PARTS = [Part("laws", one_law(), chk, 100, 3000, fixed=FIXED), Part("creep", creep(), chk, 800, 12000)]
