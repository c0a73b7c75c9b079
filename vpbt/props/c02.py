"""C02 momentum balance"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, mdz
from ..engine import Inconclusive, Part, Violation, require

ID = "C02"
VARIANTS = ("plain",)
RULE = ("random multi-phase Stokes problems (grid 13..33 in each direction, offset/anisotropic boxes, 1-4 phases in boxes/ellipses/layers, viscosity contrast up to 1e4 "
        "or power law, gravity in z and x, pure/simple shear, free slip, linear Dirichlet, four characteristic-unit sets, direct and iterative solvers, Picard/Newton, "
        "viscoelastic histories); the force balance of every internal face is recomputed from velocities, viscosities, densities and pressure of the "
        "output; non-trivial: at least two phases present with different viscosity or density, or a non-constant stress history")
ASSUMPTIONS = ["output fields are float32: residuals are compared with the rounding of the terms entering each balance"]


def residual(o, p, visco=True):
    """max residual of the force balance, relative to the terms in it; from stress output, and from velocity"""
    rx, rz, sx, sz = fd.momentum(o, p["gx"], p["gz"], o.n("sxxd"), o.n("szzd"), o.s("sxz"))
    tx, tz = sx + 1e-3 * sx.max() + 1e-300, sz + 1e-3 * sz.max() + 1e-300
    return max(np.abs(rx / tx).max(), np.abs(rz / tz).max()), rx, rz


def allowed(o, p):
    """largest face residual (Pa/m) compatible with the convergence criterion the solver was asked to meet"""
    P = o.params(); dx, dz = P[5], P[6]; N = int(P[3] * P[4])
    Lc, Sc = p["L"], p["eta"] * p["V"] / p["L"]
    tol = max(p["nonlin_abs_mom"], p["nonlin_rel_mom"] * max(o["Iterations/rx_abs"][0], o["Iterations/rz_abs"][0]))
    if p["diag_scaling"]:
        tol *= max(1.0, np.sqrt(20 * o.n("eta_n").max() / p["eta"]))
    return 3 * np.sqrt(N) * tol * Sc * Lc / (dx * dz)


def contrast(o):
    e, r = o.n("eta_n"), o.n("rho_n")
    return bool(e.max() / e.min() > 1.01 or r.max() / max(r.min(), 1e-300) > 1.01)


def chk_linear(c):
    p = c["p"]
    r = mdz.run(c)
    require(r.ok(), "run failed: rc=%s\n%s" % (r.rc, r.log[-800:]))
    o = r.out(1); r.free()
    res, rx, rz = residual(o, p)
    require(np.isfinite(res) and res < 1e-4, "force balance violated: relative residual %.3g (x %.3g, z %.3g)" % (res, np.abs(rx).max(), np.abs(rz).max()))
    # stress follows from velocity and viscosity
    exx, ezz, exz, _ = fd.strain(o); div = exx + ezz; de = fd.strain_err(o) + 1e-9 * abs(p["bkg_strain_rate"]) + np.abs(div).max()
    for nm, a, b, eta in (("sxxd", 2 * o.n("eta_n") * (exx - div / 3), o.n("sxxd"), o.n("eta_n")), ("szzd", 2 * o.n("eta_n") * (ezz - div / 3), o.n("szzd"), o.n("eta_n")),
                          ("sxz", 2 * o.s("eta_s") * exz, o.s("sxz"), o.s("eta_s"))):
        q = (np.abs(a - b) / (4 * eta * de + 1e-5 * np.abs(b) + 1e-300)).max()
        require(q < 1, "%s is not 2*eta*strain rate of the output velocity (excess %.3g)" % (nm, q))
    return "contrast" if contrast(o) else None


PARTS = [Part("linear", gen.stokes_scene(), chk_linear, 2400, 6000)]


def converged(o, p):
    """the residuals the run itself reports meet the criteria of the input file"""
    n = int(o["Iterations/NumberSteps"][0])
    if n > p["nit_max"]:
        return False
    ok = lambda f, a, r: o["Iterations/" + f][n] < a or o["Iterations/" + f][n] < r * o["Iterations/" + f][0]
    return ok("rx_abs", p["nonlin_abs_mom"], p["nonlin_rel_mom"]) and ok("rz_abs", p["nonlin_abs_mom"], p["nonlin_rel_mom"]) and \
        ok("rp_abs", p["nonlin_abs_div"], p["nonlin_rel_div"])


@st.composite
def rheo_scene(draw):
    """power-law / elastic / compressible / plastic bodies, several steps without advection"""
    c = draw(gen.stokes_scene(power=True, eta_dec=1, hi=27, bcs=("pure", "pure", "simple", "lin", "freeslip")))
    p = c["p"]; e = abs(p["bkg_strain_rate"])
    kind = draw(st.sampled_from(["pwl", "ve", "comp", "vep"]))
    if kind == "pwl" and all(q["pwlv"] == 0 for q in c["ph"]):
        c["ph"][0].update(cstv=0, pwlv=1, npwl=3.0)
    p.update(Newton=draw(gen.flag), nit_max=40, line_search=draw(gen.flag), nonlin_abs_mom=1e-12, nonlin_abs_div=1e-12, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10,
             rel_tol_KSP=1e-6, lin_abs_div=1e-10, lin_rel_div=1e-10, lin_abs_mom=1e-11, lin_rel_mom=1e-11)
    if kind != "pwl":
        p.update(elastic=1, Nt=draw(st.integers(2, 4)), dt=draw(gen.num(0.01, 0.1)) / e)
        for q in c["ph"]:
            q["G"] = q["eta0"] * e * draw(gen.logn(-1, 2, 2))
    if kind == "comp":
        p.update(compressible=1)
        for q in c["ph"]:
            q["bet"] = draw(gen.logn(-2, 0, 2)) / (q["eta0"] * e)
    if kind == "vep":
        S = max(q["eta0"] for q in c["ph"]) * e
        p.update(bkg_pressure=20 * S, gz=0.0, gx=0.0)
        for q in c["ph"]:
            q.update(plast=1, C=q["eta0"] * e * draw(gen.num(0.3, 1.0, 1)), phi=draw(gen.num(0, 5, 0)), eta_vp=q["eta0"] * draw(gen.num(0.05, 0.5)), n_vp=1.0, cstv=1, pwlv=0)
    c["kind"] = kind
    return c


def chk_rheo(c):
    p = c["p"]
    r = mdz.run(c)
    if not r.ok():
        if r.rc == "cpu" or c["kind"] == "vep" or mdz.gave_up(r):
            raise Inconclusive("no solution: rc=%s %s" % (r.rc, r.log[-200:]))
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-800:]))
    n = 0
    for k in r.steps()[1:]:
        o = r.out(k)
        if not converged(o, p):
            continue
        res, rx, rz = residual(o, p)
        ok = np.isfinite(res) and (res < 1e-4 or max(np.abs(rx).max(), np.abs(rz).max()) < allowed(o, p))
        require(ok, "step %d (%s): solver reports convergence but force balance has relative residual %.3g (x %.3g, z %.3g)" %
                (k, c["kind"], res, np.abs(rx).max(), np.abs(rz).max()))
        n += contrast(o)
    r.free()
    return (c["kind"], n) if n else None


PARTS.append(Part("rheology", rheo_scene(), chk_rheo, 600, 6000))
PARTS[0].quick = 900
