"""C12 heat conduction"""
import numpy as np
from scipy.sparse import lil_matrix, csc_matrix
from scipy.sparse.linalg import splu
from hypothesis import strategies as st
from .. import gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, ran, require

ID = "C12"
RULE = ("random multi-phase bodies with their own conductivity, heat capacity, density and heat production; each side at a temperature profile, insulated, with a heat flux (bottom) or periodic; "
        "step sizes from a small part of a cell's diffusion time to effectively steady: (step) uniform start, the implicit heat balance of every cell in one phase is recomputed from the output; "
        "(history) smooth initial field in a uniform medium, many steps against an independent solver; (cooling) initial cooling stage and thermal perturbation against the same solver; "
        "non-trivial: temperature changed by more than 1 K somewhere in the judged cells")
ASSUMPTIONS = ["float32 outputs", "bottom flux convention of the code: the prescribed value is conductivity times vertical gradient, divided into the lowest cell",
               "histories: markers carry temperature, which smooths it; 3 % of the temperature range is allowed for that"]
SIDES = "WESN"


def bc_of(c, s):
    t = [int(l.split()[2]) for l in c["sc"] if l.startswith("bct %s " % s)]
    return t[0] if t else 0


@st.composite
def sides(draw, T0, L, k, dTs):
    sc = []
    per = draw(st.integers(0, 4)) == 0
    for s in SIDES:
        if per and s in "WE":
            sc.append("bct %s -2" % s); continue
        t = draw(st.sampled_from([0, 1, 1]))
        sc.append("bct %s %d" % (s, t))
        if t == 1:
            sc.append("f bct%s lin %.8g %.6g %.6g" % (s, T0 + draw(gen.num(-200, 300, 0)), *((0.0, 0.0) if draw(gen.flag) else (draw(gen.num(-30, 30, 0)) / L, draw(gen.num(-30, 30, 0)) / L))))
        elif s == "S" and draw(gen.flag):
            sc.append("f bctS lin %.6g %.6g 0" % (k * dTs / L, draw(gen.num(-0.3, 0.3, 1)) * k * dTs / L / L))
    return sc


def operator(p, kx, kz, c):
    """A T = b for -div(k grad T): returns (A, b) on cell centres; kx, kz on faces"""
    nx, nz = p["Nx"] - 1, p["Nz"] - 1
    x, z, dx, dz = geom.centres(p)
    A = lil_matrix((nx * nz, nx * nz)); b = np.zeros(nx * nz)
    i = lambda j, k: j * nx + k
    bc = {s: bc_of(c, s) for s in SIDES}
    val = {s: geom.ev(c["sc"], "bct" + s, x, z) for s in SIDES}
    for j in range(nz):
        for k in range(nx):
            n = i(j, k)
            for s, (jj, kk, kf, d) in dict(W=(j, k - 1, kx[j, k], dx), E=(j, k + 1, kx[j, k + 1], dx), S=(j - 1, k, kz[j, k], dz), N=(j + 1, k, kz[j + 1, k], dz)).items():
                if 0 <= jj < nz and 0 <= kk < nx:
                    A[n, n] += kf / d ** 2; A[n, i(jj, kk)] -= kf / d ** 2
                elif bc[s] == 1:
                    A[n, n] += 2 * kf / d ** 2; b[n] += 2 * kf / d ** 2 * val[s][j, k]
                elif bc[s] == -2:
                    A[n, n] += kf / d ** 2; A[n, i(jj, kk % nx)] -= kf / d ** 2
                elif s == "S":
                    b[n] -= val[s][j, k] / d
    return csc_matrix(A), b


def flow(c):
    """periodic temperature goes with a periodic flow"""
    if bc_of(c, "W") == -2:
        c["p"].update(periodic_x=1, shear_style=1)
        c["sc"][0] = "bc simple"
        W = c["p"]["xmax"] - c["p"]["xmin"]                  # and with a periodic start
        c["sc"] = ["f T cosx %s %.8g %.8g" % (l.split()[3], 2 * np.pi / W, -2 * np.pi * c["p"]["xmin"] / W) if l.startswith(("f T cosx", "f T gauss")) else l for l in c["sc"]]
    return c


@st.composite
def step(draw):
    L = draw(st.sampled_from([1e3, 2e4, 1e5])); E = 1e21
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3]))
    b = draw(gen.box(7, 21)); nph = draw(st.integers(1, 4))
    shp = draw(gen.shapes(b, nph))
    T0 = draw(gen.num(500, 1500, 0))
    k0 = 3.0; kap = 1e-6
    h = L / 20
    dt = float("%.4g" % (h * h / kap * draw(gen.logn(-1, 5, 2))))
    ph = []
    for _ in range(nph):
        rho, Cp, k = draw(gen.num(1000, 4000, 0)), draw(gen.num(500, 2000, 0)), float("%.4g" % (k0 * draw(gen.logn(-1, 1))))
        ph.append(dict(rho=rho, Cp=Cp, k=k, eta0=E, Qr=float("%.4g" % (draw(st.sampled_from([0.0, 1.0, -0.3])) * min(50 * rho * Cp / dt, 50 * k0 / L ** 2)))))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=1e-20, gz=draw(st.sampled_from([0.0, -10.0])), min_eta=1e17, max_eta=1e25, dt=dt, lin_solver=2, thermal=1, subgrid_diffusion=draw(st.integers(0, 2)), Nx_part=draw(st.integers(3, 5)), Nz_part=4)
    sc = ["bc pure"] + gen.shape_lines(shp, L) + ["f T const %.8g" % T0] + draw(sides(T0, L, k0, 50.0))
    if not any(l.startswith("bct") and l.split()[2] == "1" for l in sc):       # without a fixed temperature heat accumulates: bounded step
        p["dt"] = min(dt, h * h / kap * 100)
    c = flow(mdz.case(p, ph, sc))
    c["T0"] = T0
    return c


def chk_step(c):
    p = c["p"]; T0 = c["T0"]; dt = p["dt"]
    r = mdz.run(c)
    if not r.ok():
        if "Negative temperature" in r.log:
            raise Inconclusive("temperature below zero")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-600:]))
    o = r.out(1); o0 = r.out(0); r.free()
    require(np.abs(o0.n("T") - T0).max() < 1e-6 * T0, "initial temperature is not the one set")
    T = o.n("T"); nz, nx = T.shape
    x, z, dx, dz = geom.centres(p)
    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz)
    if bc_of(c, "W") == -2:
        same = (ph[:, 0] == ph[:, -1])
        ph[~same, 0] = -1; ph[~same, -1] = -1
        ph[:, 1][ph[:, 0] != ph[:, 1]] = -1; ph[:, -2][ph[:, -1] != ph[:, -2]] = -1
    pr = {f: np.array([q[f] for q in c["ph"]]) for f in ("k", "rho", "Cp", "Qr")}
    K = np.where(ph >= 0, pr["k"][ph], 0.0)
    # faces inside a one-phase neighbourhood have its conductivity
    kx = np.zeros((nz, nx + 1)); kx[:, :-1] = K; kx[:, 1:] = np.maximum(kx[:, 1:], K); kz = np.zeros((nz + 1, nx)); kz[:-1] = K; kz[1:] = np.maximum(kz[1:], K)
    A, b = operator(p, kx, kz, c)
    src = pr["Qr"][ph]
    lhs = (pr["rho"] * pr["Cp"])[ph] * (T - T0) / dt
    res = lhs - (src + (b - A @ T.ravel()).reshape(T.shape))
    sc = (pr["rho"] * pr["Cp"])[ph] * 2e-7 * T / dt + 1e-6 * np.abs(T).max() * K * (1 / dx ** 2 + 1 / dz ** 2) + 2e-5 * (np.abs(lhs) + np.abs(src)) + 1e-300
    m = ph >= 0
    if not m.any():
        return None
    q = (np.abs(res) / sc)[m]
    if not q.max() < 1:
        j = int(np.argmax(q))
        raise Violation("heat balance of cell at %.5g, %.5g: imbalance %.4g W/m3 (storage %.4g, heat production %.4g); T=%.7g from %.7g" % (x[m][j], z[m][j], res[m][j], lhs[m][j], src[m][j], T[m][j], T0))
    # nothing above the hottest or below the coldest of start and boundary without sources
    return tuple(bc_of(c, s) for s in SIDES) + (len(c["ph"]),) if np.abs(T - T0)[m].max() > 1 else None


def advance(p, c, T, k, rc, Q, dt, n):
    nz, nx = T.shape
    A, b = operator(p, np.full((nz, nx + 1), k), np.full((nz + 1, nx), k), c)
    from scipy.sparse import identity
    lu = splu((A + identity(nx * nz) * (rc / dt)).tocsc())
    out = [T]
    for _ in range(n):
        T = lu.solve(b + Q + rc / dt * T.ravel()).reshape(T.shape); out.append(T)
    return out


@st.composite
def history(draw, cool=False):
    L = draw(st.sampled_from([1e3, 2e4, 1e5])); E = 1e21
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3]))
    b = draw(gen.box(13, 25))
    T0 = draw(gen.num(700, 1300, 0))
    rho, Cp, k = draw(gen.num(1000, 4000, 0)), draw(gen.num(500, 2000, 0)), draw(gen.num(1, 6, 1))
    tau = L * L * rho * Cp / k
    nt = draw(st.integers(3, 12))
    dt = float("%.4g" % (tau * draw(gen.num(0.02, 0.2)) / nt))
    q = dict(rho=rho, Cp=Cp, k=k, eta0=E, Qr=float("%.4g" % (draw(st.sampled_from([0.0, 1.0])) * 100 * k / L ** 2)))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=1e-20, min_eta=1e17, max_eta=1e25, dt=dt, Nt=nt, lin_solver=2, thermal=1, subgrid_diffusion=draw(st.integers(0, 2)), advection=draw(gen.flag), Nx_part=4, Nz_part=4)
    xm, zm, W, H = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"]), p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
    sc = ["bc pure", "f phase const 0"]
    if draw(gen.flag):                       # several numbers for the same material
        sc += gen.shape_lines(draw(gen.shapes(b, 3))[1:], L)
    ph = [dict(q) for _ in range(3)]
    sd = draw(sides(T0, L, k, 50.0))
    sc += ["f T const %.8g" % T0]
    if not cool:
        kind = draw(st.sampled_from(["uniform", "gauss", "cos"]))
        if kind == "gauss":
            sc.append("f T gauss %g %.6g %.6g %.6g" % (draw(gen.num(-300, 300, 0)), xm + W * draw(gen.num(-0.3, 0.3)), zm + H * draw(gen.num(-0.3, 0.3)), max(0.3 * min(W, H), 4.0 * max(W / (p["Nx"] - 1), H / (p["Nz"] - 1)))))
        elif kind == "cos":
            sc.append("f T cosx %g %.8g %.8g" % (draw(gen.num(-200, 200, 0)), np.pi / W, -np.pi * p["xmin"] / W))
            sc.append("f T cosz %g %.8g %.8g" % (draw(gen.num(-200, 200, 0)), np.pi / H, -np.pi * p["zmin"] / H))
    else:
        p.update(initial_cooling=1, cooling_duration=float("%.4g" % (tau * draw(gen.logn(-3, 0, 2)))), Nt=draw(st.integers(0, 1)), advection=0, dt=float("%.4g" % (tau * 1e-9)))
        if draw(gen.flag):
            p.update(therm_perturb=1, therm_perturb_dT=draw(gen.num(-200, 200, 0)), therm_perturb_x0=xm + W * draw(gen.num(-0.3, 0.3)), therm_perturb_z0=zm + H * draw(gen.num(-0.3, 0.3)),
                     therm_perturb_rad_x=W * draw(gen.num(0.1, 0.4)), therm_perturb_rad_z=H * draw(gen.num(0.1, 0.4)))
    c = flow(mdz.case(p, ph, sc + sd))
    c["T0"] = T0
    return c


def chk_history(c):
    p, q = c["p"], c["ph"][0]
    r = mdz.run(c)
    if not r.ok():
        if "Negative temperature" in r.log:
            raise Inconclusive("temperature below zero")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-600:]))
    x, z, dx, dz = geom.centres(p)
    ref = advance(p, c, geom.ev(c["sc"], "T", x, z), q["k"], q["rho"] * q["Cp"], q["Qr"], p["dt"], p["Nt"])
    rng = max(np.ptp(t) for t in ref) + 1.0
    g = 0.0
    for k in r.steps():
        T = r.out(k).n("T")
        e = np.abs(T - ref[k]).max() / rng
        require(e < (0.03 if k else 0.015) * 1.0 + 1e-6 * c["T0"] / rng, "step %d: temperature is off the reference solution by %.3g of its range %.4g K" % (k, e, rng))
        em = abs((T - ref[k]).mean()) / rng
        require(em < 0.006 + 1e-6 * c["T0"] / rng, "step %d: mean temperature is off the reference by %.3g of the range %.4g K" % (k, em, rng))
        g = max(g, np.abs(ref[k] - ref[0]).max())
    r.free()
    return ("history", p["subgrid_diffusion"]) if g > 1 else None


def chk_cool(c):
    p, q = c["p"], c["ph"][0]
    r = mdz.run(c)
    if not r.ok():
        if "Negative temperature" in r.log:
            raise Inconclusive("temperature below zero")
        raise Violation("run failed: rc=%s\n%s" % (r.rc, r.log[-600:]))
    x, z, dx, dz = geom.centres(p)
    T = advance(p, c, geom.ev(c["sc"], "T", x, z), q["k"], q["rho"] * q["Cp"], q["Qr"], p["cooling_duration"] / 10, 10)[-1]
    g = np.abs(T - c["T0"]).max()
    edge = np.zeros(T.shape, bool)
    if p.get("therm_perturb"):
        d = ((x - p["therm_perturb_x0"]) / p["therm_perturb_rad_x"]) ** 2 + ((z - p["therm_perturb_z0"]) / p["therm_perturb_rad_z"]) ** 2
        T = T + p["therm_perturb_dT"] * (d < 1); edge = np.abs(d - 1) < 1e-6
    o = r.out(0)
    e = np.where(edge, 0, np.abs(o.n("T") - T))
    require(e.max() < 2e-5 * np.abs(T).max(), "temperature after initial cooling is off by %.4g K (max change %.4g K)" % (e.max(), g))
    r.free()
    return ("cooling", p.get("therm_perturb", 0)) if g > 1 else None


PARTS = [Part("step", step(), chk_step, 500, 6000), Part("history", history(), chk_history, 150, 2000), Part("cooling", history(True), chk_cool, 120, 1500)]
