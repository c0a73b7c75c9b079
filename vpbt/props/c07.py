"""C07 plasticity"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz, rheo
from .c02 import converged
from .c06 import tensor, step
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C07"
RULE = ("random multi-phase bodies with random cohesion, friction, stress limit, viscoplastic viscosity, creep and elasticity under random confining pressure: stress, plastic rate, overstress of every pure cell and vertex "
        "are those of the return mapping of the trial stress; homogeneous histories with softening (linear or smooth, of cohesion and friction), dilation and noise follow the closed recursion; "
        "non-trivial: some cell yields")
ASSUMPTIONS = ["float32 outputs", "tension is outside the domain (the code falls back to a minimum stress there)"]
D = np.pi / 180


def ret(q, tau, eve, P, C, phi):
    """return mapping without dilation: stress, plastic multiplier"""
    ty = np.minimum(C * np.cos(phi) + P * np.sin(phi), q["Slim"])
    F = tau - ty
    g = np.where(F > 0, F / (eve + q["eta_vp"]), 0.0)
    return tau - eve * g, g, ty


@st.composite
def yields(draw):
    L, e = draw(st.sampled_from([(2e4, 1e-15), (1e5, 1e-14)])); cu = draw(st.sampled_from([(1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0)]))
    b = draw(gen.box(11, 21))
    nph = draw(st.integers(1, 4))
    shp = draw(gen.shapes(b, nph, hi=5))
    dt = draw(gen.logn(10, 13, 2))
    phases = []
    for _ in range(nph):
        q = dict(eta0=draw(gen.logn(22, 25, 2)), G=draw(gen.logn(9.5, 11, 2)), rho=draw(gen.num(2000, 3300, 0)), plast=draw(st.sampled_from([1, 1, 1, 0])),
                 C=draw(gen.logn(6, 8, 3)), phi=draw(st.sampled_from([0.0, 5.0, 15.0, 30.0, 40.0])), eta_vp=draw(st.sampled_from([0.0, 1e20, 1e21, 5e21])), n_vp=1.0)
        q["Slim"] = max(q["C"], draw(st.sampled_from([5e90, 1e8, 5e8])))
        if draw(st.integers(0, 2)) == 0:
            n = draw(gen.num(1.5, 4, 1))
            q.update(cstv=0, pwlv=1, npwl=n, Qpwl=0.0, eta0=float("%.4g" % (q["eta0"] * e ** (1 - 1 / n))))
        phases.append(q)
    bc = draw(st.sampled_from(["pure", "pure", "simple", "lin"]))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e * draw(st.sampled_from([1, -1])), gz=draw(st.sampled_from([0.0, -10.0])), dt=dt, elastic=draw(gen.flag),
             nit_max=draw(st.sampled_from([1, 3, 8])), Newton=draw(gen.flag), nonlin_rel_mom=1e-5, nonlin_rel_div=1e-5, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9,
             lin_abs_mom=1e-7, lin_rel_mom=1e-7, lin_abs_div=1e-7, lin_rel_div=1e-7, eta_average=draw(st.integers(0, 2)), bkg_pressure=draw(st.sampled_from([5e8, 1e9, 2e9])),
             min_eta=1e16, max_eta=1e26)
    if bc == "simple":
        p.update(shear_style=1, periodic_x=1)
    sc = ["bc " + bc] + gen.shape_lines(shp, L) + ["f T const 1000"]
    if draw(st.integers(0, 2)) == 0:
        p["marker_noise"] = 1; sc.append("f noise const %g" % draw(gen.num(-0.5, 0.5, 1)))
    if bc == "lin":
        a, c2, d2 = draw(gen.num(-1, 1, 1)), draw(gen.num(-2, 2, 1)), draw(gen.num(-2, 2, 1))
        sc += ["f bcvx lin 0 %.10g %.10g" % (a * e, c2 * e), "f bcvz lin 0 %.10g %.10g" % (d2 * e, -a * e)]
    return mdz.case(p, phases, sc)


def noise(c):
    return next((float(l.split()[3]) for l in c["sc"] if l.startswith("f noise")), 0.0)


def chk_yield(c):
    p = c["p"]
    r = ran(c)
    o = r.out(1); r.free()
    exx, ezz, exz, _ = fd.strain(o)
    er = 3 * fd.strain_err(o)
    x, z, dx, dz = geom.centres(p); xv, zv, _, _ = geom.vertices(p)
    key = None
    for where in ("cell", "vertex"):
        if where == "cell":
            ph = geom.pure(c["sc"], x, z, 1.05 * dx, 1.05 * dz)
            P = o.n("P"); A = (exx, ezz, fd.v2c(exz)); S = [("sxxd", o.n("sxxd"), 0), ("szzd", o.n("szzd"), 1)]
        else:
            ph = geom.pure(c["sc"], xv, zv, 1.55 * dx, 1.55 * dz)[1:-1, 1:-1]
            P = fd.v2c(o.n("P")); A = (fd.v2c(exx), fd.v2c(ezz), exz[1:-1, 1:-1]); S = [("sxz", o.s("sxz")[1:-1, 1:-1], 2)]
        if p["periodic_x"]:
            ph[:, :2] = ph[:, -2:] = -1
        for i, q in enumerate(c["ph"]):
            m = ph == i
            if not m.any():
                continue
            a = [A[j][m] for j in range(3)]
            E = np.maximum(tensor(*a), 1e-30)
            tau, rt = rheo.solve(rheo.mechanisms(q, 1000.0 + 0 * E, 0 * E, 1e-3), E, q["G"] * p["dt"] if p["elastic"] else None)
            eve = tau / 2 / E
            C, phi = q["C"] * (1 + noise(c)), q["phi"] * D
            # only the pressure written is known: near the edge of the float the yield stress of a confined rock still is
            t, g, ty = ret(q, tau, eve, P[m], C, phi) if q["plast"] else (tau, 0 * tau, 0 * tau + 1e99)
            ok = (er / E < 3e-3) & (ty > 3e5) & (t > 3e5)
            rel = 2e-4 + 3 * er / E
            for nm, s, j in S:
                want = t * a[j] / E
                tol = t * rel + (t / E) * er + 2e-6 * np.abs(P[m])
                bad = ok & ~(np.abs(s[m] - want) <= tol)
                if bad.any():
                    k = int(np.argmax(np.where(bad, np.abs(s[m] - want) / tol, 0)))
                    raise Violation("%s of phase %d (%s): %s is %.6g, return mapping gives %.6g (trial stress %.5g, yield stress %.5g, P %.5g)" % (
                        where, i, {f: q[f] for f in ("C", "phi", "Slim", "eta_vp", "plast")}, nm, s[m][k], want[k], tau[k], ty[k], P[m][k]))
            if where == "cell":
                for nm, want, tol in (("eII_pl", g / 2, 3 * (rel * E + 2e-6 * np.abs(P[m]) / (eve + q.get("eta_vp", 0)))),
                                      ("OverS", q["eta_vp"] * g, 3 * q["eta_vp"] * (rel * E * 2 + 4e-6 * np.abs(P[m]) / (eve + q["eta_vp"])) + 1.0)):
                    got = o.n(nm)[m]
                    bad = ok & ~(np.abs(got - want) <= tol)
                    if bad.any():
                        k = int(np.argmax(np.where(bad, np.abs(got - want) / tol, 0)))
                        raise Violation("cell of phase %d: %s %.6g, expected %.6g (total rate %.5g)" % (i, nm, got[k], want[k], E[k]))
                if q["plast"]:
                    require(np.abs(o.n("cohesion")[m] / C - 1).max() < 1e-5, "cohesion of phase %d: %.6g, expected %.6g" % (i, o.n("cohesion")[m][0], C))
                    require(np.abs(o.n("friction")[m] - phi).max() < 1e-6, "friction of phase %d" % i)
                if (ok & (g > 1e-3 * E)).any():
                    key = ("yield", p["elastic"], len(c["ph"]))
    return key


def soft(q, s, style):
    """cohesion, friction, dilation after the plastic strain s"""
    out = []
    for f, fe, on in (("C", "Ce", "coh_soft"), ("phi", "phie", "phi_soft")):
        v0, v1 = q[f], q.get(fe, q[f])
        if not q.get(on):
            out.append(v0); continue
        a, b = q["plss"], q["plse"]
        if style == 0:
            out.append(v0 + (v1 - v0) * min(max((s - a) / (b - a), 0.0), 1.0))
        else:
            from math import erfc
            f_ = lambda y: v0 - (v0 - v1) / 2 * erfc(-(y - 0.5 * (a + b)) / (b - a)) - v1
            out.append(f_(s) * (v0 - v1) / f_(0.0) + v1)
    return out[0], out[1]


@st.composite
def history(draw):
    L, e = draw(st.sampled_from([(2e4, 1e-15), (1e5, 1e-14)])); cu = draw(st.sampled_from([(1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0)]))
    b = draw(gen.box(7, 13))
    nph = draw(st.integers(1, 2)); shp = draw(gen.shapes(b, nph))
    dil = draw(st.sampled_from([0, 0, 1]))
    P0 = draw(st.sampled_from([2e8, 5e8, 1e9]))
    C, phi = draw(gen.logn(6, 8, 3)), draw(st.sampled_from([0.0, 10.0, 30.0]))
    q = dict(eta0=draw(gen.logn(22, 24, 2)), G=draw(gen.logn(9.5, 11, 2)), rho=3000.0, plast=1, C=C, phi=phi, Slim=max(C, draw(st.sampled_from([5e90, 5e90, 2e8]))),
             eta_vp=draw(st.sampled_from([0.0, 1e20, 3e21])), n_vp=1.0)
    ty = C * np.cos(phi * D) + P0 * np.sin(phi * D)
    hmin = 0.2 / max(b["Nx"], b["Nz"])
    Nt = draw(st.integers(2, 8))
    dte = min(hmin, draw(st.sampled_from([0.2, 0.5, 2.0])) * ty / q["G"])   # strain per step
    tot = dte * Nt
    if draw(st.integers(0, 3)):
        k = draw(st.sampled_from(["C", "phi", "both"]))
        if k != "phi":
            q.update(coh_soft=1, Ce=float("%.4g" % (C * draw(st.sampled_from([0.1, 0.5, 2.0])))))
        if k != "C":
            q.update(phi_soft=1, phie=draw(st.sampled_from([2.0, 5.0, 20.0])))
        s0 = draw(st.sampled_from([0.0, 0.1, 0.3])) * tot
        q.update(plss=float("%.4g" % s0), plse=float("%.4g" % (s0 + draw(st.sampled_from([0.2, 0.6, 2.0])) * tot)))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e * draw(st.sampled_from([1, -1])), dt=float("%.6g" % (dte / e)), Nt=Nt, elastic=draw(st.sampled_from([1, 1, 0])), advection=1,
             nit_max=20, Newton=draw(gen.flag), nonlin_rel_mom=1e-12, nonlin_rel_div=1e-12, nonlin_abs_mom=float("%.2g" % (1e-7 * ty / (cu[0] * cu[2] / cu[1]))), nonlin_abs_div=1e-9,
             eta_average=draw(st.integers(0, 2)), bkg_pressure=P0, min_eta=1e14, max_eta=1e28, stress_rotation=0, smooth_softening=draw(gen.flag) if q.get("coh_soft") or q.get("phi_soft") else 0, direct_neighbour=1)
    if dil:
        p.update(elastic=1, compressible=1)
        q.update(psi=draw(st.sampled_from([3.0, 10.0, 0.0])), bet=draw(gen.logn(-11.5, -10, 2)))
    sc = ["bc " + draw(st.sampled_from(["pure", "pure", "lin"]))] + gen.shape_lines(shp, L) + ["f T const 1000", "f P const %g" % P0]
    if sc[0] == "bc lin":
        c2 = draw(st.sampled_from([-1.0, 1.0]))
        sc += ["f bcvx lin 0 %.10g %.10g" % (0.0, 2 * c2 * e), "f bcvz lin 0 0 0"]
    if draw(st.integers(0, 3)) == 0:
        p["marker_noise"] = 1; sc.append("f noise const %g" % draw(gen.num(-0.5, 0.5, 1)))
    return mdz.case(p, [dict(q) for _ in range(nph)], sc)


def chk_history(c):
    p, q = c["p"], c["ph"][0]
    if q.get("phi_soft") and abs(q["phie"] - q["phi"]) < 1:
        return None
    if q.get("coh_soft") and min(q["Ce"], q["C"]) <= 0:
        return None
    b = p["bkg_strain_rate"]
    if c["sc"][0] == "bc lin":
        gx = [float(v) for v in next(l for l in c["sc"] if l.startswith("f bcvx")).split()[3:]]
        e = np.array([0.0, 0.0, 0.5 * gx[2]])
    else:
        e = np.array([-b, b, 0.0])
    dt = p["dt"]; el = p["elastic"]
    Gdt = q["G"] * dt if el else None
    K = 1 / q["bet"]; spsi = np.sin(q["psi"] * D) if p.get("compressible") else 0.0
    r = ran(c)
    t0 = np.zeros(3); s_pl = 0.0; key = None; P0 = None
    try:
        for n in range(1, p["Nt"] + 1):
            o = r.out(n)
            if not converged(o, p):
                raise Inconclusive("step not converged")
            C, phi = soft(q, s_pl, p["smooth_softening"]); C *= 1 + noise(c); phi *= D
            got = o.n("cohesion"); require(np.abs(got / C - 1).max() < 2e-4, "step %d: cohesion %.6g..%.6g after plastic strain %.5g, expected %.6g" % (n, got.min(), got.max(), s_pl, C))
            got = o.n("friction"); require(np.abs(got - phi).max() < 2e-4, "step %d: friction %.6g..%.6g after plastic strain %.5g, expected %.6g" % (n, got.min(), got.max(), s_pl, phi))
            P = o.n("P"); pm = P.mean(); sp = np.abs(P - pm).max()
            if sp > 1e-4 * abs(pm):
                raise Inconclusive("pressure not uniform")
            a = e + (t0 / (2 * Gdt) if el else 0.0)
            E = tensor(*a)
            tau, _ = rheo.solve(rheo.mechanisms(q, np.array([1000.0]), np.array([0.0]), 1e-3), np.array([E]), Gdt)
            tau = tau[0]; eve = tau / 2 / E
            # the pressure written includes the effect of dilation: yield at that pressure
            ty = C * np.cos(phi) + pm * np.sin(phi)
            Pel = pm
            if spsi:
                if P0 is None:
                    P0 = float(c["sc"][[l.startswith("f P ") for l in c["sc"]].index(True)].split()[3])
                tr0 = C * np.cos(phi) + P0 * np.sin(phi)          # div v = 0: the elastic trial pressure is the old one
                lim = tr0 > q["Slim"]
                sf = 0.0 if lim else np.sin(phi)
                F = tau - min(tr0, q["Slim"])
                g = max(F, 0.0) / (eve + q["eta_vp"] + K * dt * sf * spsi)
                want = P0 + K * dt * spsi * g
                require(abs(pm / want - 1) < 3e-4, "step %d: pressure %.6g, dilation gives %.6g (old pressure %.6g)" % (n, pm, want, P0))
                got = o.n("divu_pl")
                require(np.abs(got - g * spsi).max() <= 1e-3 * (g * spsi + 1e-3 * E), "step %d: plastic divergence %.6g, expected %.6g" % (n, got.mean(), g * spsi))
                P0 = want
            else:
                F = tau - min(ty, q["Slim"])
                g = max(F, 0.0) / (eve + q["eta_vp"])
            t = (tau - eve * g) * a / E
            tm = tau - eve * g
            if tm < 1e6:
                raise Inconclusive("tension")
            tol = 3e-4 * tm + 3e-6 * abs(pm)
            for nm, got, want in (("sxxd", o.n("sxxd"), t[0]), ("szzd", o.n("szzd"), t[1]), ("sxz", o.s("sxz")[1:-1, 1:-1], t[2])):
                require(np.abs(got - want).max() <= tol, "step %d: %s in [%.6g, %.6g], expected %.6g (trial %.5g, yield %.5g, P %.5g, C %.5g, strain %.4g)" % (n, nm, got.min(), got.max(), want, tau, min(ty, q["Slim"]), pm, C, s_pl))
            got = o.n("eII_pl")
            tg = 1e-3 * E + tol / (eve + q["eta_vp"])
            require(np.abs(got - g / 2).max() <= tg, "step %d: plastic strain rate %.6g..%.6g, expected %.6g" % (n, got.min(), got.max(), g / 2))
            gs = o.n("strain_pl"); s1 = s_pl + dt * float(got.mean())
            # the strain written belongs to the markers at the time of output: after this step
            require(np.abs(gs - s1).max() <= 2e-3 * dt * E * n + 1e-4 * s1, "step %d: accumulated plastic strain %.6g..%.6g, expected %.6g" % (n, gs.min(), gs.max(), s1))
            if g > 1e-3 * E:
                key = ("soft" if q.get("plss") is not None else "hard", bool(spsi), el)
            s_pl = s1; t0 = np.array([o.n("sxxd").mean(), o.n("szzd").mean(), o.s("sxz")[1:-1, 1:-1].mean()])
    finally:
        r.free()
    return key


PARTS = [Part("yield", yields(), chk_yield, 350, 6000), Part("history", history(), chk_history, 250, 4000)]
