"""C04 velocity, shear-stress, normal-stress and periodic boundary conditions"""
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C04"
RULE = ("random multi-phase Stokes problems whose four sides get independently drawn conditions (normal velocity profiles, tangential velocity or zero shear stress per side, "
        "built-in pure/simple shear, periodic in x, prescribed normal stress); the output velocities and stresses on every boundary point are compared with "
        "what was prescribed, also after steps with advection; non-trivial: non-zero flow")
ASSUMPTIONS = ["float32 outputs", "stress boundary conditions are exercised with the Picard linearisation, the only one that implements them"]


@st.composite
def sides(draw):
    """every side: its own normal-velocity profile (equal in- and outflow) and tangential condition"""
    c = draw(gen.stokes_scene(bcs=("lin", "mixed", "mixed", "pure", "simple", "freeslip"), hi=29, eta_dec=2))
    p = c["p"]; e = abs(p["bkg_strain_rate"]); W = p["xmax"] - p["xmin"]
    p.update(Nt=draw(st.integers(1, 2)), advection=draw(gen.flag), dt=0.004 / e, nit_max=2, lin_abs_div=1e-11, lin_rel_div=1e-11, lin_abs_mom=1e-11, lin_rel_mom=1e-11, Newton=draw(gen.flag))
    if c["sc"][0] == "bc mixed":
        V = e * W
        f = lambda: (draw(gen.num(-1, 1, 1)) * V, draw(gen.num(-1, 1, 1)) * V, draw(gen.num(1, 6, 0)) / W, draw(gen.num(0, 3, 1)))
        a, b = f(), f()
        c["sc"] += ["f bcvx const %.6g" % a[0], "f bcvx cosz %.6g %.6g %.6g" % a[1:], "f bcvz const %.6g" % b[0], "f bcvz cosx %.6g %.6g %.6g" % b[1:]]
        t = [draw(st.sampled_from([11, 13])) for _ in range(4)]
        if draw(gen.flag) and p["gx"] == 0:                          # periodic in x: types -2 / -12
            p.update(periodic_x=1, shear_style=1)
            if t[2] == t[3] == 13:                                   # would leave a rigid translation undetermined
                t[draw(st.integers(2, 3))] = 11
            c["sc"] += ["bcx W -2", "bcx E -12", "bcz W -12", "bcz E -12"]
            c["tang"] = {"S": t[2], "N": t[3]}
        else:
            c["sc"] += ["bcx W 0", "bcx E 0", "bcz W %d" % t[0], "bcz E %d" % t[1]]
            c["tang"] = dict(zip("WESN", t))
        c["sc"] += ["bcx S %d" % t[2], "bcx N %d" % t[3], "bcz S 0", "bcz N 0", "bcx INTERNAL -1", "bcz INTERNAL -1"]
        # ghost corners follow the tangential condition of the horizontal (Vx) or vertical (Vz) side
        per = "W" not in c["tang"]
        for q in ("SW", "SE", "NW", "NE"):
            c["sc"] += ["bcx %s %d" % (q, t[2] if q[0] == "S" else t[3]), "bcz %s %d" % (q, -12 if per else t[0] if q[1] == "W" else t[1])]
    return c


def chk_sides(c):
    p = c["p"]; mode = c["sc"][0].split()[1]
    r = ran(c)
    steps = r.steps()[1:]
    key = None
    for k in steps:
        o = r.out(k)
        nx, nz = o.dims(); P = o.params(); dx, dz = P[5], P[6]
        vx, vz, sxz = o.vx(), o.vz(), o.s("sxz")
        v = max(np.abs(vx).max(), np.abs(vz).max(), abs(p["bkg_strain_rate"]) * (p["xmax"] - p["xmin"]) * 1e-3)
        tv = 1e-6 * v
        ssc = 1e-6 * max(np.abs(sxz).max(), np.abs(o.n("sxxd")).max()) + 4 * o.s("eta_s").max() * (fd.strain_err(o) + 1e-8 * abs(p["bkg_strain_rate"]))
        X, Z = p["xmin"] + dx * np.arange(nx), p["zmin"] + dz * np.arange(nz)
        xc, zc = 0.5 * (X[1:] + X[:-1]), 0.5 * (Z[1:] + Z[:-1])
        E = p["bkg_strain_rate"]; per = bool(p["periodic_x"])
        if mode in ("lin", "mixed"):
            bx = lambda x, z: geom.ev(c["sc"], "bcvx", x, z); bz = lambda x, z: geom.ev(c["sc"], "bcvz", x, z)
            tang = c.get("tang") or dict(W=11, E=11, S=11, N=11)
        elif mode == "pure":
            bx, bz, tang = (lambda x, z: -x * E), (lambda x, z: z * E), dict(W=13, E=13, S=13, N=13)
        elif mode == "freeslip":
            bx, bz, tang = (lambda x, z: 0 * x), (lambda x, z: 0 * z), dict(W=13, E=13, S=13, N=13)
        else:
            zm = 0.5 * (p["zmin"] + p["zmax"]); H = p["zmax"] - p["zmin"]
            bx, bz, tang = (lambda x, z: np.where(z > zm, 1, -1) * E * H + 0 * x), (lambda x, z: 0 * z), dict(S=11, N=11)
        def near(a, b, t, what):
            d = np.abs(np.asarray(a) - b).max()
            require(d <= t, "step %d, %s (%s): differs from the prescribed value by %.4g (scale %.3g)" % (k, what, mode, d, v))
        if not per:
            near(vx[1:-1, 0], bx(X[0], zc), tv, "Vx on W"); near(vx[1:-1, -1], bx(X[-1], zc), tv, "Vx on E")
        else:
            near(vx[1:-1, 0], vx[1:-1, -1], tv, "periodic Vx"); near(vz[:, 0], vz[:, -2], tv, "periodic Vz W"); near(vz[:, -1], vz[:, 1], tv, "periodic Vz E")
            near(sxz[1:-1, 0], sxz[1:-1, -1], ssc, "periodic shear stress")
        near(vz[0, 1:-1], bz(xc, Z[0]), tv, "Vz on S"); near(vz[-1, 1:-1], bz(xc, Z[-1]), tv, "Vz on N")
        if "W" in tang:
            for s, g, i, xb, col in (("W", 0, 1, X[0], 0), ("E", -1, -2, X[-1], -1)):
                if tang[s] == 11:
                    near(0.5 * (vz[1:-1, g] + vz[1:-1, i]), bz(xb, Z[1:-1]), tv, "Vz along " + s)
                else:
                    near(vz[1:-1, g], vz[1:-1, i], tv, "tangential velocity gradient on " + s)
                    if np.ptp(bx(xb, zc)) == 0:
                        near(sxz[1:-1, col], 0, ssc, "shear stress on " + s)
        q = slice(None) if per else slice(1, -1)
        for s, g, i, zb, row in (("S", 0, 1, Z[0], 0), ("N", -1, -2, Z[-1], -1)):
            if tang[s] == 11:
                near(0.5 * (vx[g, 1:-1] + vx[i, 1:-1]), bx(X[1:-1], zb), tv, "Vx along " + s)
            else:
                near(vx[g, 1:-1], vx[i, 1:-1], tv, "tangential velocity gradient on " + s)
                if np.ptp(bz(xc, zb)) == 0:
                    near(sxz[row, 1:-1], 0, ssc, "shear stress on " + s)
        # markers must not see another field than the solver: strain rate in the output is that of these velocities
        exx, ezz, exz, _ = fd.strain(o)
        near(o.s("exz")[1:-1, 1:-1], exz[1:-1, 1:-1], 4 * fd.strain_err(o) + 1e-6 * np.abs(exz).max(), "shear strain rate")
        if v > 1e-3 * abs(E) * (p["xmax"] - p["xmin"]):
            key = (mode, str(sorted(tang.items())))
    r.free()
    return key


@st.composite
def stress_bc(draw):
    """normal stress prescribed on one vertical and/or one horizontal side; the opposite sides are fixed, no shear stress anywhere"""
    ph, cu = draw(gen.units())
    L, Et, e = ph; S = Et * e
    b = draw(gen.box(13, 25))
    nph = draw(st.integers(1, 3))
    shp = draw(gen.shapes(b, nph))
    sx, sz = draw(st.sampled_from(["W", "E", None])), draw(st.sampled_from(["S", "N", None]))
    if sx is None and sz is None:
        sx = "W"
    vx, vz = draw(gen.num(-4, 4, 1)) * S, draw(gen.num(-4, 4, 1)) * S
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e, min_eta=Et * 1e-6, max_eta=Et * 1e6, dt=0.01 / e, nit_max=4, lin_solver=2,
             Nx_part=3, Nz_part=3, eta_average=draw(st.integers(0, 2)), diag_scaling=draw(gen.flag))
    phases = [dict(eta0=Et * draw(gen.logn(-1, 1)), rho=1.0) for _ in range(nph)]
    grad = draw(st.sampled_from([0.0, 0.0, 1.0, -2.0]))
    W, H = p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
    sc = ["bc mixed"] + gen.shape_lines(shp, L) + ["f bcsx lin %.8g 0 %.8g" % (vx, grad * S / H), "f bcsz const %.8g" % vz, "bcx INTERNAL -1", "bcz INTERNAL -1"]
    if draw(gen.flag):
        vz = 0.0
        sc[-3] = "f bcsz const 0"
    for s in "WE":
        sc += ["bcx %s %d" % (s, 2 if s == sx else 0), "bcz %s 13" % s]
    for s in "SN":
        sc += ["bcz %s %d" % (s, 2 if s == sz else 0), "bcx %s 13" % s]
    for q in ("NW", "NE", "SW", "SE"):
        sc += ["bcx %s 13" % q, "bcz %s 13" % q]
    c = mdz.case(p, phases, sc)
    c.update(sx=sx, sz=sz, hom=(nph == 1 and grad == 0.0), vx=vx, vz=vz, S=S)
    return c


def chk_stress(c):
    p = c["p"]
    r = ran(c)
    o = r.out(1); r.free()
    nx, nz = o.dims(); P = o.params(); dx, dz = P[5], P[6]
    Sx, Sz, t = o.n("sxxd") - o.n("P"), o.n("szzd") - o.n("P"), o.s("sxz")
    zc = p["zmin"] + dz * (np.arange(nz - 1) + 0.5)
    sc = max(np.abs(Sx).max(), np.abs(Sz).max(), np.abs(t).max(), abs(c["vx"]), abs(c["vz"]))
    if sc < 1e-3 * c["S"]:
        return None
    tol = 2e-5 * sc
    vz = geom.ev(c["sc"], "bcsz", 0, 0)
    for s, col, sg, trow in (("W", 0, 1, 0), ("E", -1, -1, -1)):
        if c["sx"] == s:
            # force balance of the half cell between the boundary and the first centre
            d = np.abs((Sx[:, col] - geom.ev(c["sc"], "bcsx", 0, zc)) * sg + 0.5 * dx / dz * (t[1:, trow] - t[:-1, trow]))[1:-1].max()
            require(d < tol, "normal stress on %s is not the prescribed one: %.4g (scale %.4g)" % (s, d, sc))
    for s, row, sg in (("S", 0, 1), ("N", -1, -1)):
        if c["sz"] == s:
            d = np.abs((Sz[row] - vz) * sg + 0.5 * dz / dx * (t[row, 1:] - t[row, :-1]))[1:-1].max()
            require(d < tol, "normal stress on %s is not the prescribed one: %.4g (scale %.4g)" % (s, d, sc))
    if c["hom"]:
        eta = c["ph"][0]["eta0"]
        ex = (c["vx"] - vz) / (4 * eta) if c["sx"] and c["sz"] else 0.0
        Pe = -(c["vx"] + vz) / 2 if c["sx"] and c["sz"] else (-c["vx"] if c["sx"] else -vz)
        exx, ezz, exz, _ = fd.strain(o)
        require(np.abs(exx - ex).max() * eta < tol and np.abs(ezz + ex).max() * eta < tol and np.abs(exz).max() * eta < tol, "uniform body under uniform boundary stress: strain rate %.5g expected %.5g" % (exx.mean(), ex))
        require(np.abs(o.n("P") - Pe).max() < tol, "uniform body under uniform boundary stress: pressure %.5g expected %.5g" % (o.n("P").mean(), Pe))
    return (c["sx"], c["sz"], c["hom"])


PARTS = [Part("sides", sides(), chk_sides, 700, 7000), Part("normal-stress", stress_bc(), chk_stress, 400, 4000)]
