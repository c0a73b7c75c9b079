"""C03 mass conservation"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, require
from .c02 import converged

ID = "C03"
RULE = ("random Stokes problems as in C02: (incompressible) the divergence of the output velocity vanishes in every cell, over histories with advection, elasticity and power law; "
        "(compressible, uniform) pressure and density follow the closed-form response to an imposed volume change over several steps; (compressible, heterogeneous) each "
        "cell's divergence equals compressibility times pressure rate; non-trivial: non-zero flow, respectively non-zero volume change")
ASSUMPTIONS = ["float32 outputs", "only steps whose own reported residuals meet the requested tolerances are judged"]


@st.composite
def incomp(draw):
    c = draw(gen.stokes_scene(power=True, eta_dec=2, hi=29))
    p = c["p"]; e = abs(p["bkg_strain_rate"])
    p.update(Nt=draw(st.integers(1, 3)), dt=0.02 / e, advection=draw(gen.flag), elastic=draw(gen.flag), out_of_plane=draw(st.sampled_from([0, 0, 0, 1])), nit_max=20,
             nonlin_rel_mom=1e-6, nonlin_rel_div=1e-8, Newton=draw(gen.flag), Courant=0.3, constant_dt=0)
    for q in c["ph"]:
        q["G"] = q["eta0"] * e * draw(gen.logn(0, 2, 2))
    return c


def chk_incomp(c):
    p = c["p"]
    r = mdz.run(c)
    if not r.ok():
        if r.rc == "cpu" or mdz.gave_up(r):
            raise Inconclusive("no solution")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-800:]))
    key = None
    for k in r.steps()[1:]:
        o = r.out(k)
        if not converged(o, p):
            continue
        exx, ezz, exz, _ = fd.strain(o)
        div = np.abs(exx + ezz).max(); sc = max(np.abs(exx).max(), np.abs(exz).max(), abs(p["bkg_strain_rate"]))
        tol = 3 * fd.strain_err(o) + 1e-6 * sc
        require(div <= tol, "step %d: velocity divergence %.3g (strain-rate scale %.3g, tolerance %.3g)" % (k, div, sc, tol))
        require(np.abs(o.n("divu")).max() <= tol * 1.5, "step %d: reported divergence %.3g" % (k, np.abs(o.n("divu")).max()))
        if np.abs(exx).max() + np.abs(exz).max() > 1e-6 * abs(p["bkg_strain_rate"]):
            key = (k, p["advection"])
    r.free()
    return key


@st.composite
def comp_uniform(draw):
    ph, cu = draw(gen.units())
    L, E, e = ph; S = E * e
    b = draw(gen.box(13, 23))
    dm = draw(st.sampled_from([0, 3, 3]))
    dv = draw(gen.flag) if dm == 3 else 0
    nt = draw(st.integers(1, 5))
    ax, az = draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
    if dv and ax == az:
        ax = az + 1.0                            # the density-coupled Jacobian is undefined for zero deviatoric strain rate
    bet = draw(gen.logn(-2, 0, 2)) / S
    dt = draw(gen.num(0.01, 0.06)) / e
    P0 = draw(st.sampled_from([0.0, 5.0, 100.0])) * S * (0 if dm == 3 and not dv else 1)
    adv = draw(gen.flag)
    if dm == 3:
        P0 = min(P0, 2.0 / bet)                  # moderate compaction
    if adv:                                      # less than half a cell of displacement per step
        vx = abs(ax) * e * L * max(abs(b["xmin"]), abs(b["xmax"])); vz = abs(az) * e * L * max(abs(b["zmin"]), abs(b["zmax"]))
        hx, hz = L * (b["xmax"] - b["xmin"]) / (b["Nx"] - 1), L * (b["zmax"] - b["zmin"]) / (b["Nz"] - 1)
        dt = float("%.4g" % min([dt] + [0.4 * h / v for h, v in ((hx, vx), (hz, vz)) if v > 0]))
    if dv:
        P0 = max(P0, 5.0 * S)                    # nor at zero pressure
    q = dict(eta0=E, rho=draw(gen.num(1, 9, 0)) * S / L, bet=bet, G=E * e * 10, density_model=dm, alp=0.0)
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e, min_eta=E * 1e-6, max_eta=E * 1e6, dt=dt, Nt=nt, compressible=1, nit_max=15,
             advection=adv, elastic=draw(gen.flag), Newton=draw(gen.flag), out_of_plane=draw(st.sampled_from([0, 0, 1])), density_variations=dv,
             nonlin_rel_mom=1e-9, nonlin_rel_div=1e-9, lin_abs_div=1e-11, lin_rel_div=1e-11, bkg_pressure=P0)
    sc = ["bc lin", "f phase const 0", "f bcvx lin 0 %.10g 0" % (ax * e), "f bcvz lin 0 0 %.10g" % (az * e)]
    c = mdz.case(p, [q], sc)
    c["D"] = (ax + az) * e * (1.5 if p["out_of_plane"] else 1.0)
    return c


def chk_comp_uniform(c):
    p, q = c["p"], c["ph"][0]
    r = mdz.run(c)
    if not r.ok():
        if r.rc == "cpu" or mdz.gave_up(r):
            raise Inconclusive("no solution")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-800:]))
    S = q["eta0"] * p["bkg_strain_rate"]
    for k in r.steps()[1:]:
        o = r.out(k)
        if not all(converged(r.out(j), p) for j in range(1, k + 1)):
            raise Inconclusive("not converged")
        n = o.params()[0] / p["dt"]
        Pe = p["bkg_pressure"] - c["D"] * o.params()[0] / q["bet"]
        P = o.n("P")
        tol = 1e-4 * (abs(Pe - p["bkg_pressure"]) + S) + 1e-6 * abs(p["bkg_pressure"])
        require(np.abs(P - Pe).max() < tol, "step %d: pressure %.6g..%.6g after volume strain %.4g, expected %.6g" % (k, P.min(), P.max(), c["D"] * o.params()[0], Pe))
        require(np.abs(o.n("divu") - c["D"]).max() < 1e-4 * (abs(c["D"]) + p["bkg_strain_rate"] * 0.01), "step %d: divergence %.6g expected %.6g" % (k, o.n("divu").mean(), c["D"]))
        if q["density_model"] == 3:
            re_ = q["rho"] * np.exp(q["bet"] * Pe)
            rho = o.n("rho_n")
            # density lags pressure by at most one density update within the nonlinear loop
            lag = 0 if p["density_variations"] else abs(np.expm1(q["bet"] * c["D"] * p["dt"] / q["bet"]))
            require(np.abs(rho / re_ - 1).max() < 2e-4 + lag, "step %d: density %.6g expected %.6g" % (k, rho.mean(), re_))
    r.free()
    return ("div", p["density_variations"], p["advection"], p["elastic"]) if c["D"] != 0 else None


@st.composite
def comp_hetero(draw):
    c = draw(gen.stokes_scene(eta_dec=1, hi=27, bcs=("pure", "lin", "simple"), nph_max=4))
    p = c["p"]; e = abs(p["bkg_strain_rate"])
    dt = draw(gen.num(0.01, 0.1)) / e
    p.update(compressible=1, dt=dt, elastic=draw(gen.flag), Newton=draw(gen.flag), nit_max=15, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, lin_abs_div=1e-11, lin_rel_div=1e-11,
             gx=0.0, gz=0.0, Nt=1)
    for q in c["ph"]:
        q["bet"] = draw(gen.logn(-2, 0, 2)) / (q["eta0"] * e); q["G"] = q["eta0"] * e * draw(gen.logn(0, 2, 2))
    return c


def chk_comp_hetero(c):
    p = c["p"]
    r = mdz.run(c)
    if not r.ok():
        if r.rc == "cpu" or mdz.gave_up(r):
            raise Inconclusive("no solution")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-800:]))
    o0, o = r.out(0), r.out(1); r.free()
    if not converged(o, p):
        raise Inconclusive("not converged")
    x, z, dx, dz = geom.centres(p)
    ph = geom.pure(c["sc"], x, z, 1.05 * dx, 1.05 * dz)
    bet = np.array([q["bet"] for q in c["ph"]])
    exx, ezz, _, _ = fd.strain(o); div = exx + ezz
    dP = o.n("P") - o0.n("P")
    b = np.where(ph >= 0, bet[np.maximum(ph, 0)], np.nan)
    err = np.abs(div + b * dP / p["dt"])
    tol = 3 * fd.strain_err(o) + 1e-5 * (np.abs(div).max() + abs(p["bkg_strain_rate"])) + b * 1e-6 * np.abs(o.n("P")).max() / p["dt"]
    bad = np.nanmax(np.where(ph >= 0, err / tol, np.nan)) if (ph >= 0).any() else 0.0
    require(not bad > 1, "divergence is not -compressibility * pressure rate (excess factor %.3g)" % bad)
    # elsewhere: an average of the compressibilities around
    lo, hi = bet.min(), bet.max()
    up = np.maximum(-lo * dP / p["dt"], -hi * dP / p["dt"]); dn = np.minimum(-lo * dP / p["dt"], -hi * dP / p["dt"])
    t2 = 3 * fd.strain_err(o) + 1e-5 * (np.abs(div).max() + abs(p["bkg_strain_rate"])) + hi * 1e-6 * np.abs(o.n("P")).max() / p["dt"]
    require(((div <= up + t2) & (div >= dn - t2)).all(), "divergence outside what any of the compressibilities allows")
    return "comp" if np.abs(dP).max() > 0 and (ph >= 0).any() and np.abs(div).max() > 1e-6 * abs(p["bkg_strain_rate"]) else None


PARTS = [Part("incompressible", incomp(), chk_incomp, 500, 6000), Part("comp-uniform", comp_uniform(), chk_comp_uniform, 300, 3000), Part("comp-hetero", comp_hetero(), chk_comp_hetero, 300, 3000)]
