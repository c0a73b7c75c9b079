"""C14 composition: diffusion and reaction"""
import math
import numpy as np
from scipy.special import erfc
from hypothesis import strategies as st
from .. import gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, require
from . import c12
from .c02 import converged

ID = "C14"
SIDES = "WESN"
RULE = ("random multi-phase bodies with their own chemical diffusivity, each side at a composition profile, closed, with a bottom flux, or periodic, steps from a small part of a cell's diffusion time to effectively steady: (step) the implicit balance of every one-phase cell; "
        "(history) smooth initial composition in a uniform medium, many steps against an independent solver; (reaction) bodies whose phases react at a pressure with kinetics, composition of every one-phase cell against the closed form at the pressure of the same output, over several steps; "
        "non-trivial: composition changed by more than 1e-3 in some judged cell")
ASSUMPTIONS = ["float32 outputs", "a flux value is only implemented (and only judged) at the bottom", "histories: markers carry the composition; 3 % of its range is allowed for their smoothing"]


def run(c):
    r = mdz.run(c)
    if not r.ok():
        if mdz.gave_up(r) or "Negative X" in r.log:
            r.free(); raise Inconclusive("gave up or negative composition")
        raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
    return r


def like_heat(c):
    """the same conditions in the terms of C12"""
    d = dict(c); d["sc"] = [l for l in c["sc"] if not l.startswith(("bct", "f bct"))]
    d["sc"] = [l.replace("bcc ", "bct ", 1) if l.startswith("bcc") else l.replace("f bcc", "f bct", 1) for l in d["sc"]]
    return d


@st.composite
def sides(draw, L, D):
    sc = []; per = draw(st.integers(0, 4)) == 0
    for s in SIDES:
        if per and s in "WE":
            sc.append("bcc %s -2" % s); continue
        t = draw(st.sampled_from([0, 1, 1])); sc.append("bcc %s %d" % (s, t))
        if t == 1:
            sc.append("f bcc%s lin %.4g %.6g %.6g" % (s, draw(gen.num(0.3, 0.7)), *((0.0, 0.0) if draw(gen.flag) else (draw(gen.num(-0.1, 0.1)) / L, draw(gen.num(-0.1, 0.1)) / L))))
        elif s == "S" and draw(gen.flag):
            sc.append("f bccS lin %.6g 0 0" % (-D * draw(gen.num(0.0, 0.2)) / L))
    return sc


def flow(c):
    if any(l.startswith("bcc W -2") for l in c["sc"]):
        c["p"].update(periodic_x=1, shear_style=1); c["sc"][0] = "bc simple"
        W = c["p"]["xmax"] - c["p"]["xmin"]
        c["sc"] = ["f X cosx %s %.8g %.8g" % (l.split()[3], 2 * np.pi / W, -2 * np.pi * c["p"]["xmin"] / W) if l.startswith(("f X cosx", "f X gauss")) else l for l in c["sc"]]
    return c


@st.composite
def step(draw):
    L = draw(st.sampled_from([1e3, 2e4, 1e5])); E = 1e21
    b = draw(gen.box(6, 19)); nph = draw(st.integers(1, 4)); shp = draw(gen.shapes(b, nph))
    h = L / 20; D = 1e-6
    ph = [dict(rho=3000.0, eta0=E, k_chem=float("%.4g" % (D * draw(gen.logn(-1, 1))))) for _ in range(nph)]
    p = dict(gen.scaled_box(b, L), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=1e-20, min_eta=1e17, max_eta=1e25, dt=float("%.4g" % (h * h / D * draw(gen.logn(-1, 4, 2)))), lin_solver=2, chemical_diffusion=1,
             Nx_part=draw(st.integers(3, 5)), Nz_part=4, interp_stencil=draw(st.sampled_from([1, 9])), mechanical=draw(gen.flag))
    X0 = draw(gen.num(0.4, 0.6))
    sc = ["bc pure"] + gen.shape_lines(shp, L) + ["f X const %g" % X0] + draw(sides(L, D))
    if not any(l.startswith("bcc") and l.split()[2] == "1" for l in sc):
        p["dt"] = min(p["dt"], h * h / D * 30)
    c = flow(mdz.case(p, ph, sc)); c["X0"] = X0
    if p["mechanical"] == 0 and p.get("periodic_x"):
        p["mechanical"] = 1
    return c


def chk_step(c):
    p, X0 = c["p"], c["X0"]; dt = p["dt"]
    r = run(c); o = r.out(1); o0 = r.out(0); r.free()
    require(np.abs(o0.n("X") - X0).max() < 1e-6, "initial composition is not the one set")
    X = o.n("X"); nz, nx = X.shape
    x, z, dx, dz = geom.centres(p)
    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz, m=81) if p["interp_stencil"] == 1 else geom.pure(c["sc"], x, z, 2.55 * dx, 2.55 * dz, m=101)
    h = like_heat(c)
    if c12.bc_of(h, "W") == -2:
        n = 2
        for a in range(n):
            bad = (ph[:, a] != ph[:, -1 - a]) | (ph[:, a] != ph[:, 0])
            ph[bad, a] = -1; ph[bad, -1 - a] = -1
    D = np.where(ph >= 0, np.array([q["k_chem"] for q in c["ph"]])[ph], 0.0)
    kx = np.zeros((nz, nx + 1)); kx[:, :-1] = D; kx[:, 1:] = np.maximum(kx[:, 1:], D); kz = np.zeros((nz + 1, nx)); kz[:-1] = D; kz[1:] = np.maximum(kz[1:], D)
    A, b = c12.operator(p, kx, kz, h)
    res = (X - X0) / dt - (b - A @ X.ravel()).reshape(X.shape)
    tol = 2e-7 / dt + 1e-6 * D * (1 / dx ** 2 + 1 / dz ** 2) + 2e-5 * abs(X - X0) / dt
    m = ph >= 0
    if not m.any():
        return None
    q = np.where(m, abs(res) / tol, 0); j = int(q.argmax())
    require(q.flat[j] < 1, "balance of composition of cell %s: imbalance %.4g 1/s (storage %.4g), X=%.7g from %.7g" % ((j // nx, j % nx), res.flat[j], ((X - X0) / dt).flat[j], X.flat[j], X0))
    return tuple(c12.bc_of(h, s) for s in SIDES) + (len(c["ph"]),) if np.abs(X - X0)[m].max() > 1e-3 else None


@st.composite
def history(draw):
    L = draw(st.sampled_from([1e3, 2e4, 1e5])); E = 1e21
    b = draw(gen.box(13, 25)); D = float("%.3g" % (1e-6 * draw(gen.logn(-1, 1))))
    nt = draw(st.integers(2, 10)); dt = float("%.4g" % (L * L / D * draw(gen.num(0.02, 0.2)) / nt))
    p = dict(gen.scaled_box(b, L), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=1e-22, min_eta=1e17, max_eta=1e25, dt=dt, Nt=nt, lin_solver=2, chemical_diffusion=1, advection=draw(gen.flag), Nx_part=4, Nz_part=4)
    xm, zm, W, H = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"]), p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
    sc = ["bc pure", "f phase const 0", "f X const 0.5"]
    kind = draw(st.sampled_from(["gauss", "cos", "uniform"]))
    if kind == "gauss":
        sc.append("f X gauss %g %.6g %.6g %.6g" % (draw(gen.num(-0.3, 0.3)), xm + W * draw(gen.num(-0.3, 0.3)), zm + H * draw(gen.num(-0.3, 0.3)), max(0.3 * min(W, H), 4.0 * max(W / (p["Nx"] - 1), H / (p["Nz"] - 1)))))
    elif kind == "cos":
        sc.append("f X cosx %g %.8g %.8g" % (draw(gen.num(-0.2, 0.2)), np.pi / W, -np.pi * p["xmin"] / W)); sc.append("f X cosz %g %.8g %.8g" % (draw(gen.num(-0.2, 0.2)), np.pi / H, -np.pi * p["zmin"] / H))
    return flow(mdz.case(p, [dict(rho=3000.0, eta0=E, k_chem=D)], sc + draw(sides(L, D))))


def chk_history(c):
    p = c["p"]; r = run(c)
    x, z, dx, dz = geom.centres(p); D = c["ph"][0]["k_chem"]
    ref = c12.advance(p, like_heat(c), geom.ev(c["sc"], "X", x, z), D, 1.0, 0.0, p["dt"], p["Nt"])
    rng = max(np.ptp(t) for t in ref) + 1e-3; g = 0.0
    if min(t.min() for t in ref) < 0.02 or max(t.max() for t in ref) > 0.98:
        raise Inconclusive("composition reaches its limits")
    for k in r.steps():
        X = r.out(k).n("X")
        e = np.abs(X - ref[k]).max() / rng
        require(e < (0.03 if k else 0.015) + 1e-6 / rng, "step %d: composition is off the reference solution by %.3g of its range %.4g" % (k, e, rng))
        em = abs((X - ref[k]).mean()) / rng
        require(em < 0.006 + 1e-6 / rng, "step %d: mean composition is off the reference by %.3g of the range %.4g" % (k, em, rng))
        g = max(g, np.abs(ref[k] - ref[0]).max())
    r.free()
    return ("history",) if g > 1e-3 else None


@st.composite
def reaction(draw):
    L, E, e = 2e4, 1e21, 1e-14
    b = draw(gen.box(6, 13)); nph = draw(st.integers(1, 3)); shp = draw(gen.shapes(b, nph))
    grav = draw(gen.flag); dt = float("%.3g" % (0.01 / e * draw(gen.logn(-1, 1, 2))))
    P0 = float("%.3g" % draw(gen.logn(8, 9.5))); comp = draw(st.sampled_from([1, 1, 0]))
    ph = []
    for i in range(nph):
        q = dict(eta0=float("%.4g" % (E * draw(gen.logn(-0.5, 0.5)))), rho=draw(gen.num(2950, 3050, 0)), bet=1e-11)
        if draw(st.sampled_from([1, 1, 0])):
            q.update(reac_soft=1, reac_phase=draw(st.integers(0, nph - 1)), Pr=float("%.4g" % ((P0 * draw(gen.num(0.7, 1.3)) if comp else 3e7 * draw(gen.num(-1, 1))) + 3000 * 5 * L * (grav and draw(gen.flag)))), dPr=float("%.3g" % ((P0 if comp else 1e8) * draw(gen.logn(-2, -0.5, 2)))),
                     tau_kin=float("%.3g" % (dt * draw(st.sampled_from([0.0, 0.3, 1.0, 5.0, 30.0])))))
        ph.append(q)
    p = dict(gen.scaled_box(b, L), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=e, min_eta=1e17, max_eta=1e25, dt=dt, Nt=draw(st.integers(1, 4)), lin_solver=2, chemical_production=1, gz=-9.81 if grav else 0.0,
             compressible=comp, nit_max=20, nonlin_abs_mom=1e-10, nonlin_abs_div=1e-10, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, Newton=draw(gen.flag), advection=0, writer_step=1, Nx_part=4, Nz_part=4)
    sc = ["bc pure"] + gen.shape_lines(shp, L) + ["f P const %g" % P0] + (["f X const %g" % draw(gen.num(0, 1, 1))] if draw(gen.flag) else [])
    return mdz.case(p, ph, sc)


def chk_reaction(c):
    p = c["p"]; r = run(c); g = 0.0
    x, z, dx, dz = geom.centres(p)
    ph = geom.pure(c["sc"], x, z, 1.05 * dx, 1.05 * dz, m=61)
    for k in r.steps():
        o = r.out(k)
        if k == 0:
            first = np.full(x.shape, geom.ev(c["sc"], "X", 0.0, 0.0)); continue
        if not converged(o, p):
            raise Inconclusive("not converged")
        X, P = o.n("X"), o.n("P"); dt = o.params()[0] - r.out(k - 1).params()[0]
        for i, q in enumerate(c["ph"]):
            m = ph == i
            if not m.any():
                continue
            old = first if k == 1 else r.out(k - 1).n("X")
            if k > 1:                            # the composition of a later step starts from the markers: pure cells far from others
                far = geom.pure(c["sc"], x, z, (2 * k - 0.95) * dx, (2 * k - 0.95) * dz, m=201) == i
                m &= far
                lo, hi = old.copy(), old.copy()
                w = np.pad(old, 2, mode="edge")
                st_ = np.array([w[a:a + old.shape[0], b_:b_ + old.shape[1]] for a in range(5) for b_ in range(5)])
                lo, hi = st_.min(0), st_.max(0); lo, hi = lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)   # markers overshoot next to a front
            else:
                lo = hi = old
            if q.get("reac_soft"):
                eq = 1 - 0.5 * erfc((P - q["Pr"]) / q["dPr"]); t = q["tau_kin"]
                a, b_ = (lo * t + dt * eq) / (dt + t), (hi * t + dt * eq) / (dt + t)
                tol = 2e-6 + 4e-7 * abs(P).max() / q["dPr"] * dt / (dt + t)
            else:
                a, b_ = lo, hi; tol = 2e-6
            d = np.where(m, np.maximum(a - X, X - b_) - tol, -1); j = int(d.argmax())
            require(d.flat[j] <= 0, "step %d: composition of cell %s (phase %d) is %.7g instead of %.7g..%.7g (P = %.6g)" % (k, (j // X.shape[1], j % X.shape[1]), i, X.flat[j], a.flat[j], b_.flat[j], P.flat[j]))
            if m.any() and q.get("reac_soft"):
                g = max(g, abs(X - first)[m].max())
    r.free()
    return ("reaction", len(c["ph"])) if g > 1e-3 else None


PARTS = [Part("step", step(), chk_step, 400, 5000), Part("history", history(), chk_history, 150, 2000), Part("reaction", reaction(), chk_reaction, 250, 3000)]
