"""C16 anisotropic rock"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz, p2m, rheo, world
from ..engine import Inconclusive, Part, Violation, require
from . import c31
from .c01 import differ, floor
from .c02 import converged
from .c32 import cells, verts

ID = "C16"
RULE = ("(cells) random bodies of anisotropic phases (constant, power-law, mixed creep, yielding, elastic; fixed, per-phase, per-marker and strain-dependent fabric): the stress of every pure cell and vertex is that of the transversely isotropic law; "
        "(directors) random flows: every marker's director turns with the flow; (axis) a director and its opposite give the same run; (isotropic) factor 1 gives the run without anisotropy; non-trivial: a pure place was judged, a director turned, both runs ended")
ASSUMPTIONS = ["float32 outputs", "markers in cells next to a free surface are not compared"]
D = np.pi / 180


def frame(E, a, f, inv=False):
    """(xx, zz, xz) -> in the layers with normal at angle a: shear along the layers divided (inv: multiplied) by f"""
    n = np.array([np.cos(a), np.sin(a)]); l = np.array([-n[1], n[0]])
    xx, zz, xz = E
    q = lambda u, v: u[0] * v[0] * xx + u[1] * v[1] * zz + (u[0] * v[1] + u[1] * v[0]) * xz
    nn, ll, nl = q(n, n), q(l, l), q(n, l)
    nl = nl * f if inv else nl / f
    o = lambda i, j: nn * n[i] * n[j] + ll * l[i] * l[j] + nl * (n[i] * l[j] + l[i] * n[j])
    return [o(0, 0), o(1, 1), o(0, 1)]


@st.composite
def bodies(draw):
    L, e = draw(st.sampled_from([(2e4, 1e-15), (1e5, 1e-14)])); cu = draw(st.sampled_from([(1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0)]))
    b = draw(gen.box(9, 17))
    nph = draw(st.integers(1, 3)); shp = draw(gen.shapes(b, nph, hi=4))
    mk = draw(st.sampled_from([0, 0, 1])); el = draw(gen.flag); fs = draw(st.sampled_from([0, 0, 1])); pl = draw(gen.flag)
    phases = []
    for _ in range(nph):
        q = dict(eta0=draw(gen.logn(21.5, 23.5, 2)), G=draw(gen.logn(9.5, 11, 2)), bet=1e-11, rho=draw(gen.num(2900, 3100, 0)), aniso_factor=draw(st.sampled_from([1.0, 2.0, 3.5, 10.0])), aniso_angle=draw(gen.num(-180, 180, 0)), plast=0, gs_ref=1e-3)
        m = draw(st.integers(0, 3))
        if m == 1:
            n = draw(gen.num(1.5, 4, 1)); q.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=float("%.4g" % (q["eta0"] * e ** (1 - 1 / n))))
        if m == 2:
            q.update(cstv=draw(gen.flag), pwlv=draw(st.sampled_from([10, 19, 40])), linv=draw(st.sampled_from([0, 40])))
        if fs and draw(gen.flag):
            q.update(ani_fstrain=1, ani_fac_max=draw(st.sampled_from([1.5, 4.0, 1000.0])))
        if pl and draw(gen.flag):
            q.update(plast=1, C=draw(gen.logn(6.5, 8, 2)), phi=draw(st.sampled_from([0.0, 10.0, 30.0])), eta_vp=draw(st.sampled_from([0.0, 1e20, 1e21])), Slim=draw(st.sampled_from([5e90, 2e8])))
        phases.append(q)
    bc = draw(st.sampled_from(["pure", "simple", "lin"]))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e * draw(st.sampled_from([1, -1])), gz=draw(st.sampled_from([0.0, -10.0])), dt=float("%.3g" % (0.3 / e * draw(gen.logn(-3, -1, 2)))), anisotropy=1, elastic=el, Nt=draw(st.integers(1, 3)) if el else 1,
             nit_max=draw(st.sampled_from([1, 3])), bkg_pressure=draw(st.sampled_from([0.0, 1e9])) if not pl else 1e9, eta_average=draw(st.integers(0, 2)), ani_average=draw(st.integers(0, 2)), marker_aniso_angle=mk, compressible=draw(st.sampled_from([0, 0, 1])),
             min_eta=1e10, max_eta=1e30, direct_neighbour=1, writer_markers=1)
    if bc == "simple":
        p.update(shear_style=1, periodic_x=1)
    sc = ["bc " + bc] + gen.shape_lines(shp, L) + ["f T const %g" % draw(gen.num(1000, 1500, 0))]
    if mk:
        sc.append("f aniso const %g" % draw(gen.num(-3, 3, 2)))
    if fs:
        sc += ["f F11 const %g" % draw(gen.num(0.5, 2, 2)), "f F12 const %g" % draw(gen.num(-1.5, 1.5, 2)), "f F21 const 0", "f F22 const %g" % draw(gen.num(0.5, 2, 2))]
    if el and draw(gen.flag):
        s = draw(gen.num(-5e7, 5e7, -6)); sc += ["f Txx const %g" % s, "f Tzz const %g" % -s, "f Txz const %g" % draw(gen.num(-5e7, 5e7, -6))]
    if bc == "lin":
        a, c2, d2 = draw(gen.num(-1, 1, 1)), draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
        sc += ["f bcvx lin 0 %.10g %.10g" % (a * e, c2 * e), "f bcvz lin 0 %.10g %.10g" % (d2 * e, -a * e)]
    return mdz.case(p, phases, sc)


def stop(r, moved=False):
    if not r.ok():
        if mdz.gave_up(r) or "iterations failed" in r.log or "simulation will stop" in r.log or "Exiting" in r.log or "Are you crazy" in r.log or "eta_ve=-nan" in r.log or moved and "no neighbouring particles" in r.log:
            raise Inconclusive("the run stopped with a message")
        raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))


def const(c, name, d):
    return next((float(l.split()[3]) for l in c["sc"] if l.startswith("f %s const" % name)), d)


def chk_cells(c):
    p = c["p"]; r = mdz.run(c); n = 0; el = p["elastic"]
    try:
        stop(r)
        x, z, dx, dz = geom.centres(p); xv, zv, _, _ = geom.vertices(p)
        F = np.array([[const(c, "F11", 1.0), const(c, "F12", 0.0)], [const(c, "F21", 0.0), const(c, "F22", 1.0)]])
        s = np.linalg.svd(F, compute_uv=False); ar = s[0] / s[1]
        for k in r.steps():
            if k == 0:
                continue
            o = r.out(k); exx, ezz, exz, _ = fd.strain(o); er = 3 * fd.strain_err(o)
            if el:
                m = r.particles(k - 1); on = m["Particles/phase"] >= 0; X, Z = (m["Particles/" + q].astype(float) for q in "xz")
                tn = p2m.average(p, X, Z, on, m["Particles/sxxd"].astype(float), "n", None); ts = p2m.average(p, X, Z, on, m["Particles/sxz"].astype(float), "s", None)
                tz = p2m.average(p, X, Z, on, m["Particles/szzd"].astype(float), "n", None) if "Particles/szzd" in m else -tn
            div = (exx + ezz) / 3.0
            if p.get("compressible"):
                if "Particles/szzd" not in (m if el else {"Particles/szzd": 0}):
                    if k > 1 or const(c, "Txx", 0.0):
                        return n
            exx, ezz = exx - div, ezz - div
            for where in ("cell", "vertex"):
                if where == "cell":
                    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz); P = o.n("P"); T = o.n("T"); A = [exx, ezz, fd.v2c(exz)]; S = [("sxxd", o.n("sxxd"), 0), ("szzd", o.n("szzd"), 1)]
                    T0 = [tn, tz, fd.v2c(ts)] if el else None
                else:
                    ph = geom.pure(c["sc"], xv, zv, 2.05 * dx, 2.05 * dz)[1:-1, 1:-1]; P = fd.v2c(o.n("P")); T = fd.v2c(o.n("T")); A = [fd.v2c(exx), fd.v2c(ezz), exz[1:-1, 1:-1]]; S = [("sxz", o.s("sxz")[1:-1, 1:-1], 2)]
                    T0 = [fd.v2c(tn), fd.v2c(tz), ts[1:-1, 1:-1]] if el else None
                if p["periodic_x"]:
                    ph[:, :2] = ph[:, -2:] = -1
                for i, q in enumerate(c["ph"]):
                    w = ph == i
                    if not w.any():
                        continue
                    f = min(ar, q["ani_fac_max"]) if q.get("ani_fstrain") else q["aniso_factor"]
                    a = const(c, "aniso", 0.0) if p["marker_aniso_angle"] else q["aniso_angle"] * D   # radians on markers
                    if where == "cell":
                        got = o.n("ani_fac")[w]
                        require(np.abs(got / f - 1).max() < 1e-4, "step %d: anisotropy factor of phase %d between %.6g and %.6g, expected %.6g" % (k, i, got.min(), got.max(), f))
                    E = [u[w] for u in A]; Gdt = None
                    if el:
                        Gdt = q["G"] * p["dt"]; t0 = frame([u[w] for u in T0], a, f, True)
                        E = [E[j] + t0[j] / (2 * Gdt) for j in range(3)]
                    I = np.maximum(np.sqrt(0.5 * (E[0] ** 2 + E[1] ** 2 + (E[0] + E[1]) ** 2) + E[2] ** 2), 1e-30)
                    tau, _ = rheo.solve(rheo.mechanisms(q, T[w].astype(float), P[w].astype(float), 1e-3), I, Gdt)
                    eve = tau / 2 / I
                    if q["plast"]:
                        ty = np.minimum(q["C"] * np.cos(q["phi"] * D) + P[w] * np.sin(q["phi"] * D), q["Slim"])
                        g = np.where(tau > ty, (tau - ty) / (eve + q["eta_vp"]), 0.0); t = tau - eve * g; ok = (ty > 3e5) & (t > 3e5)
                    else:
                        t = tau; ok = np.ones(t.shape, bool)
                    ok &= er / I < 3e-3
                    d = frame(E, a, f); et = t / 2 / I
                    for nm, s_, j in S:
                        want = 2 * et * d[j]
                        tol = t * (4e-4 + 4 * er / I) + 3e-6 * np.abs(P[w]) * (1 if q["plast"] else 0)
                        if el:
                            tol = tol + 4e-6 * max(abs(T0[0]).max(), abs(T0[2]).max()) * et / Gdt * f
                        bad = ok & ~(np.abs(s_[w] - want) <= tol)
                        if bad.any():
                            b = int(np.argmax(np.where(bad, np.abs(s_[w] - want) / tol, 0)))
                            raise Violation("step %d: %s of phase %d (factor %.4g, director at %.4g degrees): %s is %.6g, the law gives %.6g (invariant of stress %.4g)" % (k, where, i, f, a / D, nm, s_[w][b], want[b], t[b]))
                        n += int(ok.sum()) > 0 and f > 1
        return n
    finally:
        r.free()


FE = ("gravity", "compressible", "simple", "freesurf", "elastic", "noise", "power", "fields", "adaptive", "strain")


@st.composite
def flows(draw):
    c = draw(c31.cases(force=("aniso", "advection"), fe=FE))
    for q in c["ph"]:
        q.update(aniso_factor=draw(gen.num(1, 6, 1)), aniso_angle=draw(gen.num(-180, 180, 0)))
    if draw(gen.flag):
        c["p"]["marker_aniso_angle"] = 1; W = c["p"]["xmax"] - c["p"]["xmin"]
        c["sc"].append("f aniso lin %g %.6g %.6g" % (draw(gen.num(-3, 3, 2)), draw(gen.num(-2, 2, 1)) / W, draw(gen.num(-2, 2, 1)) / W))
    return c


def chk_directors(c):
    p = c["p"]; r = mdz.run(c); n = 0; prev = None; fs = p.get("free_surface", 0)
    dx, dz = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1), (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
    try:
        stop(r, True)
        for k in r.steps():
            o, m = r.out(k), r.particles(k)
            g = {q: m["Particles/" + q].astype(float) for q in ("x", "z", "nx", "nz")}; ph = m["Particles/phase"]; on = ph >= 0
            require(np.abs(np.hypot(g["nx"], g["nz"])[on] - 1).max() < 1e-5, "step %d: a director of length %.6g" % (k, np.hypot(g["nx"], g["nz"])[on].min()))
            if k == 0:
                a = geom.ev(c["sc"], "aniso", g["x"], g["z"]) if p.get("marker_aniso_angle") else np.array([q["aniso_angle"] for q in c["ph"]])[np.where(on, ph, 0)] * D
                e = np.where(on, np.maximum(abs(np.cos(a) - g["nx"]), abs(np.sin(a) - g["nz"])), 0); i = int(e.argmax())
                require(e[i] < 2e-5, "the director of a marker of phase %d starts as (%.6g, %.6g), its angle is %.6g" % (ph[i], g["nx"][i], g["nz"][i], a[i] / D))
            else:
                o0, m0, h, ph0 = prev; dt = o.params()[0] - o0.params()[0]; N = len(ph0)
                use = c31.follow(r, p, k, m0, m)[:N] & (ph0 >= 0); x, z = h["x"], h["z"]
                if fs:
                    t = o0["Flags/tag_n"].reshape(p["Nz"] - 1, p["Nx"] - 1) != -1
                    for _ in range(2):
                        e = t.copy(); e[1:] |= t[:-1]; e[:-1] |= t[1:]; e[:, 1:] |= t[:, :-1]; e[:, :-1] |= t[:, 1:]; t = e
                    i = np.clip(((z - p["zmin"]) / dz).astype(int), 0, p["Nz"] - 2); j = np.clip(((x - p["xmin"]) / dx).astype(int), 0, p["Nx"] - 2)
                    use &= ~t[i, j]
                vx, vz = o.vx().astype(float), o.vz().astype(float)
                gn = lambda F: cells(F, p, x, z)
                gs = lambda F: verts(F, p, x, z)
                ux, wz = gn(np.diff(vx, axis=1)[1:-1] / dx), gn(np.diff(vz, axis=0)[:, 1:-1] / dz)
                uz, wx = gs(np.diff(vx, axis=0) / dz), gs(np.diff(vz, axis=1) / dx)
                a, b = h["nx"], h["nz"]
                q = dt * (-(ux - wz) * a * b - wx * b * b + uz * a * a)
                na, nb = a + q * b, b - q * a; s = np.hypot(na, nb); na /= s; nb /= s
                e = np.where(use, np.maximum(abs(na - g["nx"][:N]), abs(nb - g["nz"][:N])), 0); i = int(e.argmax())
                tol = 1e-5 + 4 * dt * fd.strain_err(o)
                require(e[i] < tol, "step %d: the director of marker %d at (%.6g, %.6g) turned from (%.6g, %.6g) to (%.6g, %.6g) instead of (%.6g, %.6g)" % (k, i, x[i], z[i], a[i], b[i], g["nx"][i], g["nz"][i], na[i], nb[i]))
                n += int((use & (abs(q) > 1e-4)).any())
            prev = (o, m, g, ph)
        return n
    finally:
        r.free()


def pair(c, d, what, skip):
    a, b = mdz.run(c), mdz.run(d)
    try:
        stop(a); stop(b)
        gx, gz, dx, dz = geom.centres(c["p"]); pure = geom.pure(c["sc"], gx, gz, 1.05 * dx * c["p"]["Nt"], 1.05 * dz * c["p"]["Nt"]) >= 0
        if c["p"]["periodic_x"]:
            pure[:, :4] = pure[:, -4:] = False
        pure = pure.ravel()
        for k in a.steps():
            x, y = a.out(k), b.out(k)
            if k and c["p"]["nit_max"] > 5 and not (converged(x, c["p"]) and converged(y, c["p"])):
                raise Inconclusive("not converged")
            et = x["Centers/eta_n"]
            if k and et.max() > 1e5 * et[et > 0].min():
                raise Inconclusive("viscosities too different to compare two solutions")
            ks = [q for q in x if q in y and not q.startswith(skip)]
            for q in ks:
                if x[q].dtype.kind != "f" or not x[q].size:
                    continue
                if q == "Centers/divu_el" and not (c["p"].get("compressible") and c["p"]["elastic"]):
                    continue
                u, v = x[q].astype(float), y[q].astype(float); n = q.split("/")[1]
                ok = np.isfinite(u) & np.isfinite(v); require((np.isfinite(u) == np.isfinite(v)).all(), "step %d: %s is not finite in one of the runs" % (k, q))
                if n in ("eII_el", "strain_el", "strain"):      # the angles of the phases of a mixed cell are averaged as numbers
                    ok &= pure
                if not ok.any():
                    continue
                # scales: components of one tensor or vector together; partial rates against the total one
                if n.startswith("eta") or n == "OverS":                # of power laws at rest: noise; the stresses are compared
                    continue
                gr = next((g for g in (("sxxd", "szzd", "sxz", "P"), ("Vx", "Vz"), ("exxd", "ezzd", "exz", "eII_el", "eII_pl", "eII_pwl", "eII_lin", "eII_exp", "eII_gbs", "divu", "divu_el", "divu_pl", "divu_r", "divu_th"),
                                       ("strain", "strain_el", "strain_pl", "strain_pwl", "strain_lin", "strain_exp", "strain_gbs")) if n in g), (n,))
                sc = max([np.nanmax(np.abs(x[w][np.isfinite(x[w])]), initial=0) for w in x if w.split("/")[-1] in gr and x[w].dtype.kind == "f"] + [1e-30, abs(c["p"]["bkg_strain_rate"]) if "divu" in gr else 1e4 if "P" in gr or n == "OverS" else 1e-3 * abs(c["p"]["bkg_strain_rate"]) * (c["p"]["xmax"] - c["p"]["xmin"]) if "Vx" in gr else 0])
                e = np.where(ok, abs(u - v), 0.0)
                i = int(e.argmax())
                require(e[i] <= 1e-2 * sc, "step %d: %s[%d] is %.8g %s and %.8g without (scale %.3g)" % (k, q, i, v[i], what, u[i], sc))
        return 1
    finally:
        a.free(); b.free()


SKIP = ("Iterations", "Centers/nx", "Centers/nz", "TimeSeries", "Flags")


TIGHT = dict(nit_max=25, nonlin_abs_mom=1e-10, nonlin_rel_mom=1e-7, nonlin_abs_div=1e-10, nonlin_rel_div=1e-7)


def tight(c):
    # with a viscosity and without friction at the yield point: else the places of shear bands are not unique
    return dict(c, p=dict(c["p"], **TIGHT), ph=[dict(q, phi=0.0, eta_vp=1e22) if q.get("plast") else q for q in c["ph"]])


def chk_axis(c):
    c = tight(c)
    d = dict(c, p=dict(c["p"]), ph=[dict(q, aniso_angle=q["aniso_angle"] - (180 if q["aniso_angle"] > 0 else -180)) for q in c["ph"]])
    return pair(c, d, "with the opposite directors", SKIP) if not c["p"]["marker_aniso_angle"] else None


def chk_iso(c):
    c = tight(c)
    d = dict(c, p=dict(c["p"]), ph=[dict(q, aniso_factor=1.0, ani_fstrain=0) for q in c["ph"]])
    return pair(dict(d, p=dict(d["p"], anisotropy=0)), d, "with anisotropy of factor 1", SKIP + ("Centers/ani_fac",))


PARTS = [Part("cells", bodies(), chk_cells, 350, 5000), Part("directors", flows(), chk_directors, 250, 3000), Part("axis", bodies(), chk_axis, 100, 1500), Part("isotropic", bodies(), chk_iso, 150, 2000)]
