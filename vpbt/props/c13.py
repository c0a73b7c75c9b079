"""C13 heat sources: shear, radiogenic, adiabatic"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, geom, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from .c02 import converged

ID = "C13"
RULE = ("bodies that conduct next to no heat: (hetero) random multi-phase viscous, power-law and viscoplastic bodies under gravity, one step: warming of every one-phase cell against dissipation, heat production and adiabatic heat recomputed from the output; "
        "(homog) homogeneous viscoelastoplastic bodies, compressed or not, several steps; with every combination of shear_heating, adiab_heating and Qr; non-trivial: some judged cell warms or cools by more than 0.05 K")
ASSUMPTIONS = ["float32 output: 1e-4 K of resolution at 1000 K", "cells at the viscosity limits are not judged (dissipation uses the unlimited viscosity)"]


def finish(r):
    if not r.ok():
        if mdz.gave_up(r):
            raise Inconclusive("solver gave up")
        if "Negative temperature" in r.log:
            raise Inconclusive("temperature below zero")
        raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))


def ii(a, b, c2):
    return np.sqrt(0.5 * (a * a + b * b + (a + b) ** 2) + c2)


def centre(s):
    return 0.25 * (s[1:, 1:] + s[1:, :-1] + s[:-1, 1:] + s[:-1, :-1])


def sources(c, o, T0, P0, ph, dt):
    """expected warming of each cell and its uncertainty"""
    p = c["p"]
    pr = {f: np.array([q.get(f, 0.0) for q in c["ph"]])[ph] for f in ("rho", "Cp", "Qr", "alp")}
    H = pr["Qr"].copy(); err = np.zeros_like(H)
    if p["shear_heating"]:
        if p.get("elastic"):
            t = ii(o.n("sxxd"), o.n("szzd"), centre(o.s("sxz")) ** 2)
            D = t * t / o.n("eta_n")
        else:
            e = ii(o.n("exxd"), o.n("ezzd"), centre(o.s("exz")) ** 2); D = 4 * o.n("eta_n") * e * e
        H += D; err += 2e-4 * D
    if p["adiab_heating"] == 1:
        vz = o.vz(); w = 0.5 * (vz[1:, 1:-1] + vz[:-1, 1:-1])
        a = T0 * pr["alp"] * w * p["gz"] * pr["rho"]; H += a; err += 1e-6 * abs(T0 * pr["alp"] * p["gz"] * pr["rho"]) * abs(vz).max()
    if p["adiab_heating"] == 2:
        a = T0 * pr["alp"] * (o.n("P") - P0) / dt; H += a; err += 3e-7 * T0 * pr["alp"] * (abs(o.n("P")) + abs(P0)) / dt + 1e-5 * abs(a)
    f = dt / (pr["rho"] * pr["Cp"])
    return H * f, err * f


def judge(c, o, T0, P0, ph, dt, k):
    p = c["p"]
    want, err = sources(c, o, T0, P0, ph, dt)
    got = o.n("T") - T0
    m = (ph >= 0) & (o.n("eta_n") > 1.01 * p["min_eta"]) & (o.n("eta_n") < 0.99 * p["max_eta"])
    if not m.any():
        return 0
    d = np.where(m, abs(got - want) / (err + 3e-7 * abs(T0) + 1e-4 * abs(want)), 0); q = int(d.argmax())
    require(d.flat[q] <= 1, "step %d: cell %s (phase %d) warms by %.6g K instead of %.6g K" % (k, (q // got.shape[1], q % got.shape[1]), ph.flat[q], got.flat[q], want.flat[q]))
    return float(abs(got[m]).max())


def hetero(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        finish(r)
        o, o0 = r.out(1), r.out(0)
        if not converged(o, p):
            raise Inconclusive("not converged")
        x, z, dx, dz = geom.centres(p)
        ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz, m=51)
        dt = o.params()[0] - o0.params()[0]
        a = judge(c, o, o0.n("T"), None, ph, dt, 1)
        return (p["shear_heating"], p["adiab_heating"], len(c["ph"])) if a > 0.05 else None
    finally:
        r.free()


def homog(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        finish(r)
        a = 0
        for k in r.steps()[1:]:
            o, o0 = r.out(k), r.out(k - 1)
            if not converged(o, p):
                raise Inconclusive("not converged")
            for f in ("eta_n", "sxxd", "P", "T"):
                if np.ptp(o.n(f)) > 1e-3 * abs(o.n(f)).max() + (1e3 if f in ("sxxd", "P") else 0):
                    raise Inconclusive("not homogeneous")
            a = max(a, judge(c, o, o0.n("T"), o0.n("P"), np.zeros(o.n("T").shape, int), o.params()[0] - o0.params()[0], k))
        return (p["shear_heating"], p["adiab_heating"], p.get("elastic", 0), p.get("compressible", 0)) if a > 0.05 else None
    finally:
        r.free()


def phase(draw, p, T0, kinds, grav):
    E = world.E0
    q = dict(eta0=float("%.4g" % (E * draw(gen.logn(-0.5, 1) if grav else gen.logn(-1, 1)))), rho=draw(gen.num(2950, 3050, 0) if grav else gen.num(2000, 3500, 0)), k=1e-14, Cp=draw(gen.num(500, 2000, 0)), alp=float("%.3g" % draw(gen.logn(-5, -3))),
             G=float("%.4g" % draw(gen.logn(9.5, 11))), bet=float("%.4g" % draw(gen.logn(-11.5, -10))), gs_ref=1e-3)
    kind = draw(st.sampled_from(kinds))
    if kind == "power":
        q.update(cstv=0, pwlv=1, npwl=draw(gen.num(1, 4, 1)))
    if kind == "db":
        q.update(cstv=draw(gen.flag), pwlv=draw(st.sampled_from([10, 19, 40])), linv=draw(st.sampled_from([0, 40])))
    if kind == "plast":
        q.update(plast=1, C=float("%.4g" % draw(gen.logn(6, 7.5))), phi=draw(gen.num(6, 35, 0)), Slim=1e90, eta_vp=float("%.4g" % draw(gen.logn(19, 20.5))))
    rate = draw(st.sampled_from([0.0, 1.0, -0.3, 0.5]))
    q["Qr"] = float("%.3g" % (rate * 20 * q["rho"] * q["Cp"] / p["dt"]))
    return q


def base(draw, lo, hi, nt):
    e, E = world.e0, world.E0
    b = draw(gen.box(lo, hi))
    p = dict(gen.scaled_box(b, world.L0), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=e * draw(st.sampled_from([1.0, -1.0, 0.5])), min_eta=E * 1e-4, max_eta=E * 1e3, Nt=nt,
             dt=float("%.3g" % (draw(gen.num(0.01, 0.2)) / e)), nit_max=25, nonlin_abs_mom=1e-10, nonlin_abs_div=1e-10, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, lin_solver=2, Newton=draw(gen.flag), thermal=1,
             shear_heating=draw(st.sampled_from([0, 1, 1, 1])), adiab_heating=draw(st.sampled_from([0, 1, 2])), Nx_part=draw(st.integers(3, 5)), Nz_part=4, subgrid_diffusion=draw(st.integers(0, 2)), eta_average=draw(st.integers(0, 2)), advection=0)
    return b, p


@st.composite
def hetero_cases(draw):
    b, p = base(draw, 7, 17, 1)
    p["adiab_heating"] = draw(st.sampled_from([0, 1]))
    grav = draw(gen.flag); p["gz"] = -9.81 if grav else 0.0
    nph = draw(st.integers(1, 4)); T0 = draw(gen.num(900, 1500, 0))
    shp = draw(gen.shapes(b, nph))
    ph = [phase(draw, p, T0, ["cst", "cst", "power", "db", "plast"], grav) for _ in range(nph)]
    simple = draw(st.integers(0, 3)) == 0
    sc = ["bc simple" if simple else "bc pure"] + gen.shape_lines(shp, world.L0) + ["f T const %g" % T0, "f P const 1e8"]
    if simple:
        p.update(shear_style=1, periodic_x=1)
    for s in "WESN":
        sc.append("bct %s %d" % (s, -2 if simple and s in "WE" else 0))
    return mdz.case(p, ph, sc)


@st.composite
def homog_cases(draw):
    b, p = base(draw, 5, 9, draw(st.integers(1, 4)))
    e = world.e0; p["gz"] = 0.0
    p["bkg_strain_rate"] = e; p["elastic"] = draw(gen.flag); p["compressible"] = draw(gen.flag)
    p["dt"] = float("%.3g" % min(p["dt"], 0.05 / e))
    g = [draw(gen.num(-1.5, 1.5, 1)) for _ in range(3)]
    if max(abs(v) for v in g) < 0.3:
        g[0] = 1.0
    div = draw(gen.num(-1, 1, 1)) if p["compressible"] else 0.0
    xm, zm = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"])
    T0 = draw(gen.num(900, 1500, 0))
    q = phase(draw, p, T0, ["cst", "cst", "power", "db"] + ([] if p["compressible"] else ["plast"]), False)
    q["alp"] = float("%.3g" % draw(gen.logn(-5, -4)))
    if q.get("eta0", 0) > 1e22:
        q["eta0"] = 1e22
    d = q["bet"]
    if p["compressible"]:                        # pressure changes of some 100 MPa at most
        div = round(div * min(1.0, 3e8 * d / (p["dt"] * p["Nt"] * e)), 4)
    sc = ["bc lin", "f phase const 0", "f T const %g" % T0, "f P const 1e9",
          "f bcvx lin %.12g %.12g %.12g" % (-(g[0] + div / 2) * e * xm - g[1] * e * zm, (g[0] + div / 2) * e, g[1] * e), "f bcvz lin %.12g %.12g %.12g" % (-g[2] * e * xm + (g[0] - div / 2) * e * zm, g[2] * e, -(g[0] - div / 2) * e)]
    for s in "WESN":
        sc.append("bct %s 0" % s)
    return mdz.case(p, [q], sc)


PARTS = [Part("hetero", hetero_cases(), hetero, 350, 5000), Part("homog", homog_cases(), homog, 300, 4000)]
