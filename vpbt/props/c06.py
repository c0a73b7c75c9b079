"""C06 Maxwell visco-elasticity"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz, rheo
from .c02 import converged
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C06"
RULE = ("homogeneous visco-elastic bodies (several phase numbers, linear and power-law creep) under a random velocity gradient (stretching, shearing, rotating, or at rest), with random initial stress, step size, "
        "stress-rotation option and number of steps: every stress component of every cell, vertex and marker follows the Maxwell recursion; "
        "and random multi-phase bodies with a different initial stress per phase: stress of every pure cell and vertex after one step; "
        "non-trivial: elastic and viscous strain rates both above 1 % of the total at some step")
ASSUMPTIONS = ["float32 outputs", "backward Euler with the stress carried by markers, rotated at the end of a step, is the intended time integration"]


def tensor(exx, ezz, exz):
    return np.sqrt(0.5 * (exx ** 2 + ezz ** 2 + (exx + ezz) ** 2) + exz ** 2)


def step(q, dt, e, t0, T=1000.0):
    """visco-elastic stress of the phase: strain rate e and old stress t0 are (xx, zz, xz)"""
    Gdt = q["G"] * dt
    a = np.array(e) + np.array(t0) / (2 * Gdt)
    E = tensor(*a)
    if E == 0:
        return np.zeros(3), {}
    tau, rt = rheo.solve(rheo.mechanisms(q, np.array([T]), np.array([0.0]), 1e-3), np.array([E]), Gdt)
    return tau[0] * a / E, {k: float(v[0]) for k, v in rt.items() if k != "el"}


def rotate(t, w, dt, opt):
    xx, zz, xz = t
    if opt == 1:
        return np.array([xx - 2 * dt * w * xz, zz + 2 * dt * w * xz, xz + dt * w * (xx - zz)])
    if opt == 2:
        c, s = np.cos(w * dt), np.sin(w * dt)
        return np.array([c * c * xx - 2 * s * c * xz + s * s * zz, s * s * xx + 2 * s * c * xz + c * c * zz, c * s * (xx - zz) + (c * c - s * s) * xz])
    return t


@st.composite
def homog(draw):
    (L, E, e), cu = draw(gen.units())
    b = draw(gen.box(7, 15))
    nph = draw(st.integers(1, 3))
    shp = draw(gen.shapes(b, nph))
    n = draw(st.sampled_from([1.0, 1.0, 2.0, 3.5]))
    geo = L > 100
    De = draw(gen.logn(-2.5, -0.5, 2))                      # relaxation time * strain rate = viscous stress / G, below one as in any solid
    q = dict(eta0=E, G=float("%.4g" % (E * e / De)), rho=0.0)
    if n > 1:
        q.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=float("%.4g" % (E * e ** (1 - 1 / n))))
    adv = draw(gen.flag)
    k = draw(st.sampled_from(["any", "any", "rot", "rest", "pure", "shear"]))
    a, c2, d2 = draw(gen.num(-1, 1, 1)), draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
    if k == "rot":
        a, d2 = 0.0, -c2
    elif k == "rest":
        a = c2 = d2 = 0.0
    elif k == "pure":
        c2 = d2 = 0.0
    elif k == "shear":
        a = d2 = 0.0
    g = max(abs(a), abs(c2), abs(d2), 0.5)
    hmin = 0.3 / max(b["Nx"], b["Nz"])
    dt = draw(st.sampled_from([0.1 * De, 0.3 * De, De, 3 * De] if not adv else [hmin / g, 0.5 * hmin / g, min(De, hmin / g)])) / e
    s = E * e
    tol = float("%.2g" % (1e-7 * s / (cu[0] * cu[2] / cu[1])))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e, min_eta=E * 1e-8, max_eta=E * 1e8, dt=dt, Nt=draw(st.integers(1, 6)), elastic=1, advection=adv,
             stress_rotation=draw(st.integers(0, 2)), subgrid_diffusion=draw(st.integers(0, 2)), RK=draw(st.sampled_from([1, 2, 4])), writer_markers=draw(gen.flag),
             Newton=draw(st.sampled_from([0, 0, 1])), nit_max=draw(st.sampled_from([1, 5])), eta_average=draw(st.integers(0, 2)), lin_solver=draw(st.sampled_from([2, 2, 0])),
             reseed_markers=1, nonlin_abs_mom=tol, nonlin_abs_div=1e-9, nonlin_rel_mom=1e-12, nonlin_rel_div=1e-12)
    if p["Newton"] or n > 1:
        p["nit_max"] = 30
    p["direct_neighbour"] = 1 if adv and p["stress_rotation"] else draw(gen.flag)   # 0: new markers take the grid stress, not yet rotated
    sc = ["bc lin"] + gen.shape_lines(shp, L)
    sc += ["f bcvx lin 0 %.10g %.10g" % (a * e, c2 * e), "f bcvz lin 0 %.10g %.10g" % (d2 * e, -a * e)]
    for f in ("Txx", "Tzz", "Txz"):
        v = draw(st.sampled_from([0.0, 0.0, 1.0, -0.6, 3.0])) * s
        if v:
            sc.append("f %s const %.6g" % (f, v))
    sc.append("f T const 1000")
    return mdz.case(p, [dict(q) for _ in range(nph)], sc)


def init(c):
    v = {l.split()[1]: float(l.split()[3]) for l in c["sc"] if l.startswith("f T") and l.split()[2] == "const"}
    return np.array([v.get("Txx", 0.0), v.get("Tzz", 0.0), v.get("Txz", 0.0)])


def chk_homog(c):
    p, q = c["p"], c["ph"][0]
    r = ran(c)
    gx = [float(v) for v in next(l for l in c["sc"] if l.startswith("f bcvx")).split()[3:]]
    gz = [float(v) for v in next(l for l in c["sc"] if l.startswith("f bcvz")).split()[3:]]
    e = np.array([gx[1], gz[2], 0.5 * (gx[2] + gz[1])]); w = 0.5 * (gz[1] - gx[2])
    t0 = init(c); key = None
    s0 = max(np.abs(t0).max(), 1e-30)
    try:
        for n in range(1, p["Nt"] + 1):
            o = r.out(n); dt = p["dt"]
            if p["nit_max"] > 5 and not converged(o, p):
                raise Inconclusive("step not converged")
            require(abs(o.params()[7] / dt - 1) < 1e-6, "step size")
            t, rt = step(q, dt, e, t0)
            sc = max(np.abs(t).max(), s0, 2 * q["G"] * dt * max(np.abs(e).max(), 0.01 * abs(p["bkg_strain_rate"])) * 0.1, 1e-2 * q["eta0"] * p["bkg_strain_rate"] ** (1 / q["npwl"] if q["pwlv"] else 1))
            for nm, got, want in (("sxxd", o.n("sxxd"), t[0]), ("szzd", o.n("szzd"), t[1]), ("sxz", o.s("sxz"), t[2])):
                d = np.abs(got - want).max() / sc
                require(d < 2e-5 * n, "step %d: %s in [%.6g, %.6g], the Maxwell body has %.6g (old stress %s)" % (n, nm, got.min(), got.max(), want, t0))
            el = (t - t0) / (2 * q["G"] * dt); Eel = tensor(*el)
            tot = max(tensor(*e), Eel)
            d = np.abs(o.n("eII_el") - Eel).max()
            require(d <= 2e-5 * n * (tot + sc / (2 * q["G"] * dt)), "step %d: elastic strain rate %.6g..%.6g, expected %.6g" % (n, o.n("eII_el").min(), o.n("eII_el").max(), Eel))
            v = tensor(*(e - el))
            if tot > 0 and Eel > 0.01 * tot and v > 0.01 * tot:
                key = ("rot" if w else "norot", p["stress_rotation"], p["advection"])
            tr = rotate(t, w, dt, p["stress_rotation"])
            if p["writer_markers"]:
                m = r.particles(n); ok = m["Particles/phase"] >= 0
                for nm, want in (("sxxd", tr[0]), ("sxz", tr[2])):
                    if "Particles/" + nm in m:
                        got = m["Particles/" + nm][ok]
                        require(np.abs(got - want).max() <= 2e-5 * n * sc, "step %d: marker %s in [%.6g, %.6g], expected %.6g" % (n, nm, got.min(), got.max(), want))
            t0 = tr; s0 = sc
    finally:
        r.free()
    return key


@st.composite
def hetero(draw):
    (L, E, e), cu = draw(gen.units())
    b = draw(gen.box(11, 21))
    nph = draw(st.integers(1, 4))
    shp = draw(gen.shapes(b, nph, hi=5))
    geo = L > 100
    phases, s = [], E * e
    dt = draw(gen.logn(-2, 0, 2)) / e
    for _ in range(nph):
        eta = E * draw(gen.logn(-1, 1))
        q = dict(eta0=eta, G=float("%.4g" % (eta / dt / draw(gen.logn(-1.5, 1.5, 2)))), rho=0.0)
        if draw(st.integers(0, 2)) == 0:
            n = draw(gen.num(1.5, 4, 1))
            q.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=float("%.4g" % (eta * e ** (1 - 1 / n))))
        phases.append(q)
    bc = draw(st.sampled_from(["pure", "simple", "lin"]))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e * draw(st.sampled_from([1, -1, 0.1])), min_eta=E * 1e-8, max_eta=E * 1e8, dt=dt, elastic=1,
             Newton=draw(gen.flag), nit_max=draw(st.sampled_from([1, 5])), eta_average=draw(st.integers(0, 2)), lin_solver=2,
             lin_abs_mom=1e-9, lin_rel_mom=1e-9, lin_abs_div=1e-9, lin_rel_div=1e-9, nonlin_abs_mom=1e-8, nonlin_abs_div=1e-8, nonlin_rel_mom=1e-8, nonlin_rel_div=1e-8,
             compressible=draw(st.sampled_from([0, 0, 1])))
    if p["compressible"]:
        for q in phases:
            q["bet"] = float("%.4g" % (draw(gen.logn(-1, 1, 2)) / s))
    if bc == "simple":
        p.update(shear_style=1, periodic_x=1)
    sc = ["bc " + bc] + gen.shape_lines(shp, L)
    for f in ("Txx", "Tzz", "Txz"):
        vals = [draw(gen.num(-2, 2, 1)) * s for _ in range(nph)]
        for k, a in shp:                      # the same shapes, with a stress instead of a phase number
            sc += gen.shape_lines([(k, [vals[a[0]]] + list(a[1:]))], L, f)
    sc.append("f T const 1000")
    if bc == "lin":
        a, c2, d2 = draw(gen.num(-1, 1, 1)), draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
        sc += ["f bcvx lin 0 %.10g %.10g" % (a * e, c2 * e), "f bcvz lin 0 %.10g %.10g" % (d2 * e, -a * e)]
    return mdz.case(p, phases, sc)


def chk_hetero(c):
    p = c["p"]
    r = ran(c)
    o = r.out(1); r.free()
    exx, ezz, exz, _ = fd.strain(o); div = exx + ezz
    er = 3 * fd.strain_err(o)
    if p["compressible"]:
        exx, ezz = exx - div / 3, ezz - div / 3
    x, z, dx, dz = geom.centres(p); xv, zv, _, _ = geom.vertices(p)
    key = None
    for where in ("cell", "vertex"):
        if where == "cell":
            ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz); X, Z = x, z
            A = (exx, ezz, fd.v2c(exz)); S = {0: o.n("sxxd"), 1: o.n("szzd")}
        else:
            ph = geom.pure(c["sc"], xv, zv, 1.55 * dx, 1.55 * dz)[1:-1, 1:-1]; X, Z = xv[1:-1, 1:-1], zv[1:-1, 1:-1]
            A = (fd.v2c(exx), fd.v2c(ezz), exz[1:-1, 1:-1]); S = {2: o.s("sxz")[1:-1, 1:-1]}
        if p["periodic_x"]:
            ph[:, :2] = ph[:, -2:] = -1
        t0 = [geom.ev(c["sc"], f, X, Z) for f in ("Txx", "Tzz", "Txz")]
        for i, q in enumerate(c["ph"]):
            m = ph == i
            if not m.any():
                continue
            Gdt = q["G"] * p["dt"]
            a = [A[j][m] + t0[j][m] / (2 * Gdt) for j in range(3)]
            E = np.maximum(tensor(*a), 1e-30)
            tau, rt = rheo.solve(rheo.mechanisms(q, 1000.0 + 0 * E, 0 * E, 1e-3), E, Gdt)
            ok = er / E < 3e-3
            for j, s in S.items():
                want = tau * a[j] / E
                tol = (tau / E) * (3 * er) + 2e-5 * tau
                bad = ok & ~(np.abs(s[m] - want) <= tol)
                if bad.any():
                    k = int(np.argmax(np.where(bad, np.abs(s[m] - want) / tol, 0)))
                    raise Violation("%s of phase %d at %.4g,%.4g: stress component %d is %.6g, the Maxwell body has %.6g" % (where, i, X[m][k], Z[m][k], j, s[m][k], want[k]))
            v = sum(v for k2, v in rt.items() if k2 != "el")
            if (ok & (v > 0.01 * E) & (v < 0.99 * E)).any():
                key = (where, len(c["ph"]))
    return key


PARTS = [Part("homog", homog(), chk_homog, 350, 6000), Part("hetero", hetero(), chk_hetero, 350, 6000)]
