"""C08 density of every phase, lithostatic initial pressure"""
import os
import numpy as np
from hypothesis import strategies as st
from .. import fd, gen, geom, mdz
from ..engine import Inconclusive, Part, Violation, ran, require
from .c02 import residual

ID = "C08"
RULE = ("random multi-phase bodies under gravity, each phase with its own density law (constant, linear in T and P with a composition, exponential, solid/melt mixture), random temperature, composition and "
        "background pressure: the density of every one-phase cell is recomputed from the temperature, pressure, composition and melt fraction of the same output, mixed cells lie between the densities of their phases, "
        "vertices average cells, the force balance holds with these densities, and the first output's pressure is the weight of the column above; "
        "and phases whose density comes from a generated phase-diagram or pressure table; non-trivial: at least two distinct densities in the model, one of them off its reference value")
ASSUMPTIONS = ["float32 outputs", "reference temperature 273.15 K and pressure 1e5 Pa of the linear law are fixed in the code"]


def law(c, i, T, P, X, phi):
    q = c["ph"][i]; m = q["density_model"]; a, b, r, dr = q["alp"], q["bet"], q["rho"], q["drho"]
    if m == 0:
        return r + 0 * T
    if m == 1:
        return (r + X * dr) * (1 - a * (T - 273.15)) * (1 + b * (P - 1e5))
    if m == 3:
        return r * np.exp(b * P - a * T)
    if m == 5:
        return ((1 - phi) * r + phi * (r + dr)) * np.exp(b * P - a * T)
    raise KeyError(m)


@st.composite
def eos(draw):
    L = draw(st.sampled_from([1e4, 5e4, 2e5])); E = 1e21; e = 1e-15
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3]))
    b = draw(gen.box(9, 25)); nph = draw(st.integers(1, 4))
    shp = draw(gen.shapes(b, nph))
    melting = draw(gen.flag)
    phases = []
    for _ in range(nph):
        m = draw(st.sampled_from([0, 1, 1, 3, 5]))
        q = dict(density_model=m, rho=draw(gen.num(1000, 4000, 0)), eta0=E * draw(gen.logn(-1, 1)), alp=draw(st.sampled_from([0.0, 3e-5, 1e-4])), bet=draw(st.sampled_from([1e-30, 1e-11, 5e-11])),
                 drho=draw(gen.num(-500, 500, 0)))
        if melting:
            q["melt"] = draw(st.sampled_from([0, 10, 40]))
        phases.append(q)
    g = draw(st.sampled_from([-10.0, -9.81, -1.0]))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), gz=g, bkg_strain_rate=e, min_eta=1e18, max_eta=1e24, dt=1e10, lin_solver=2, Nt=draw(st.integers(1, 2)), melting=melting,
             bkg_pressure=draw(st.sampled_from([0.0, 1e8, 1e9])), Nx_part=4, Nz_part=4, thermal=draw(gen.flag))
    bc = draw(st.sampled_from(["pure", "freeslip"]))
    sc = ["bc " + bc] + gen.shape_lines(shp, L)
    T0 = draw(gen.num(300, 1300, 0))
    sc.append("f T lin %g %.6g %.6g" % (T0 + 500, draw(gen.num(-200, 200, 0)) / (2 * L), draw(gen.num(-400, 400, 0)) / (2 * L)))
    if draw(gen.flag):
        sc.append("f X lin 0.5 %.6g %.6g" % (draw(gen.num(-0.08, 0.08)) / L, draw(gen.num(-0.08, 0.08)) / L))
    if not melting and draw(gen.flag):
        sc.append("f phi lin 0.3 %.6g %.6g" % (draw(gen.num(-0.05, 0.05)) / L, draw(gen.num(-0.05, 0.05)) / L))
    for s in "WESN":
        sc.append("bct %s 0" % s)
    return mdz.case(p, phases, sc)


def litho(c, o):
    """pressure of the first output: weight above each cell centre"""
    p = c["p"]; r = o.n("rho_n"); dz = o.params()[6]
    w = -p["gz"] * dz * r
    above = np.cumsum(w[::-1], axis=0)[::-1] - w
    return p["bkg_pressure"] + above + 0.5 * w


def judge(c, r, dens):
    p = c["p"]
    x, z, dx, dz = geom.centres(p)
    # one-phase cells: markers are within the cell, neighbours' markers count too
    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz)
    for k in r.steps():
        o = r.out(k)
        rho, T, P, X, phi = o.n("rho_n"), o.n("T"), o.n("P"), o.n("X"), o.n("phi")
        if k == 0:
            if (p["melting"] or any(l.startswith("f phi") for l in c["sc"])) and any(q["density_model"] == 5 for q in c["ph"]):
                continue                             # melt appears after the pressure was set
            want = litho(c, o); sc = np.abs(want).max() + abs(p["gz"]) * rho.max() * dz
            bad = np.abs(P - want).max() / sc
            require(bad < 3e-5, "initial pressure is not the weight of the column above (relative error %.3g)" % bad)
            continue
        D = [dens(i, T, P, X, phi) for i in range(len(c["ph"]))]
        for i in range(len(c["ph"])):
            m = ph == i
            if not m.any():
                continue
            q = np.abs(rho - D[i])[m] / (3e-6 * np.abs(D[i][m]) + 1e-3)
            if q.max() > 1:
                j = int(np.argmax(q))
                raise Violation("step %d: density of phase %d is %.7g, its law gives %.7g (T %.6g P %.6g X %.4g phi %.4g)" % (k, i, rho[m][j], D[i][m][j], T[m][j], P[m][j], X[m][j], phi[m][j]))
        lo, hi = np.minimum.reduce(D), np.maximum.reduce(D)
        require((rho >= lo - 1e-5 * hi).all() and (rho <= hi + 1e-5 * hi).all(), "step %d: a mixed cell is lighter or denser than its phases" % k)
        rs = o.s("rho_s")[1:-1, 1:-1]
        require(np.abs(rs - fd.v2c(rho)).max() < 3e-6 * rho.max(), "step %d: vertex density is not the average of its cells" % k)
    return ph


def chk_eos(c):
    p = c["p"]
    r = ran(c)
    judge(c, r, lambda i, T, P, X, phi: law(c, i, T, P, X, phi))
    o = r.out(1); o0 = r.out(0)
    # densities in the force balance: those of the start of the step, equal to the written ones if nothing they depend on changes
    if not p["melting"] and not p["thermal"] and all(q["bet"] < 1e-20 or q["density_model"] == 0 for q in c["ph"]):
        res, rx, rz = residual(o, p)
        require(res < 1e-4, "force balance does not hold with the densities written: relative residual %.3g" % res)
    rho = o.n("rho_n")
    # composition and porosity as given
    x, z, dx, dz = geom.centres(p)
    for f in ("X", "phi"):
        if any(l.startswith("f %s " % f) for l in c["sc"]):
            w = geom.ev(c["sc"], f, x, z)
            for k in r.steps()[1:]:
                require(np.abs(r.out(k).n(f) - w)[1:-1, 1:-1].max() < 0.2 * (np.abs(w.max() - w.min()) / 8 + 1e-3), "%s on the grid is not that of the markers" % f)
    r.free()
    off = any(np.abs(rho - q["rho"]).min() > 1 for q in c["ph"])
    return tuple(sorted({q["density_model"] for q in c["ph"]})) if off and rho.max() - rho.min() > 1 else None


# ---- tables -----------------------------------------------------------------------------------------------------------
# number: (file, nT, nP, Tmin, Tmax, Pmin, Pmax)
K = 273.15
TAB = {0: ("Hawaiian_Pyrolite_rho_bin.dat", 1000, 1000), 1: ("Hawaiian_Pyrolite_HR_rho_bin.dat", 1500, 1500), 2: ("MORB_H2Osat_rho_bin.dat", 1000, 1000), 3: ("Andesite.dat", 1249, 1249),
       4: ("Hydrated_Pdt.dat", 793, 793), 5: ("MORB.dat", 1249, 1249), 6: ("Pelite.dat", 1249, 1249), 7: ("Rhyolite.dat", 1249, 1249), 8: ("Serpentinite.dat", 793, 793), 9: ("SiO2_nsm010.dat", 675, 2500)}
RANGE = {0: (473.0, 2273.0, 100e6, 15e9), 1: (273.0, 2273.0, 1e5, 25e9), 2: (573.0, 1273.0, 100e6, 5.1e9), 9: (398.001, 1073.0, 0.9e6, 4.9989e9)}
for _i in range(3, 9):
    RANGE[_i] = (373.0, 1373.0, 10.13e6, 5.5816e9)


def table(k, a):
    """values of table k: plane plus waves of a few nodes' length, Fortran order (T fastest)"""
    _, nT, nP = TAB[k]
    i, j = np.arange(nT)[None, :], np.arange(nP)[:, None]
    return a[0] + a[1] * i / nT + a[2] * j / nP + 40 * np.sin(a[3] * i + 1) * np.cos(a[4] * j + 2)


def lookup(v, k, T, P):
    _, nT, nP = TAB[k]; t0, t1, p0, p1 = RANGE[k]; dT, dP = (t1 - t0) / (nT - 1), (p1 - p0) / (nP - 1)
    # values outside are taken 1 % of a node spacing inside the edge
    T = np.where(T < t0, t0 + 0.01 * dT, np.where(T > t1, t1 - 0.01 * dT, T)); P = np.where(P < p0, p0 + 0.01 * dP, np.where(P > p1, p1 - 0.01 * dP, P))
    i = np.clip(np.floor((T - t0) / dT).astype(int), 0, nT - 2); j = np.clip(np.floor((P - p0) / dP).astype(int), 0, nP - 2)
    u, w = (T - t0) / dT - i, (P - p0) / dP - j
    return (1 - u) * (1 - w) * v[j, i] + u * (1 - w) * v[j, i + 1] + (1 - u) * w * v[j + 1, i] + u * w * v[j + 1, i + 1]


P1 = dict(n=10000, lo=1e5, hi=1e10)


def table1(a):
    """pressure table with a step, and what the code keeps of it after 200 sweeps of explicit diffusion"""
    j = np.arange(P1["n"])
    raw = a[0] + a[1] * j / P1["n"] + a[2] * (j > 3000 + 1000 * a[3])
    v = raw.copy()
    for _ in range(200):
        v[1:-1] = v[1:-1] + (v[2:] - 2 * v[1:-1] + v[:-2]) / 2.1
    return raw, v


def lookup1(v, P):
    d = (P1["hi"] - P1["lo"]) / (P1["n"] - 1)
    P = np.where(P < P1["lo"], P1["lo"] + 0.01 * d, np.where(P > P1["hi"], P1["hi"] - 0.01 * d, P))
    i = np.clip(np.floor((P - P1["lo"]) / d).astype(int), 0, P1["n"] - 2); u = (P - P1["lo"]) / d - i
    return (1 - u) * v[i] + u * v[i + 1]


@st.composite
def tables(draw):
    L = draw(st.sampled_from([1e4, 1e5])); E = 1e21
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3]))
    b = draw(gen.box(9, 15)); nph = draw(st.integers(1, 3))
    phases, tb = [], []
    for _ in range(nph):
        k = draw(st.integers(-1, 9))
        phases.append(dict(density_model=2 if k >= 0 else 4, phase_diagram=k, rho=3000.0, eta0=E * draw(gen.logn(-1, 1))))
        tb.append([k, [draw(gen.num(2500, 3300, 0)), draw(gen.num(-200, 200, 0)), draw(gen.num(0, 500, 0)), draw(gen.num(0.01, 0.2)), draw(gen.num(0.01, 0.2))]])
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), gz=-10.0, bkg_strain_rate=1e-15, min_eta=1e18, max_eta=1e24, dt=1e10, bkg_pressure=draw(st.sampled_from([0.0, 1e9, 3e9])),
             import_files_dir="T")
    sc = ["bc pure"] + gen.shape_lines(draw(gen.shapes(b, nph)), L)
    T0 = draw(st.sampled_from([300.0, 373.0, 473.0, 600.0, 900.0, 1300.0]))
    if draw(st.integers(0, 3)) == 0:
        sc.append("f T const %g" % T0)
    else:
        sc.append("f T lin %g %.6g %.6g" % (T0 + 300, draw(gen.num(-300, 300, 0)) / (2 * L), draw(gen.num(-400, 400, 0)) / (2 * L)))
    c = mdz.case(p, phases, sc)
    c["tables"] = tb
    return c


def chk_tables(c):
    import tempfile
    d = tempfile.mkdtemp(dir=mdz.scratch_root())
    os.makedirs(d + "/T"); os.makedirs(d + "/PHASE_DIAGRAMS")
    val, done = [], {}
    for (k, a), q in zip(c["tables"], c["ph"]):
        if k in done:                                # one file per diagram
            val.append(done[k]); continue
        if k >= 0:
            v = table(k, a); v.tofile(os.path.join(d, "T", TAB[k][0]))
        else:
            raw, v = table1(a); raw.tofile(d + "/PHASE_DIAGRAMS/QuartzCoesite600C.bin")
        done[k] = v; val.append(v)
    for k in TAB:
        if k not in done:
            with open(os.path.join(d, "T", TAB[k][0]), "wb") as f:
                f.truncate(TAB[k][1] * TAB[k][2] * 8)
    r = ran(c, d=d)
    o = r.out(1); T, P, rho = o.n("T"), o.n("P"), o.n("rho_n")
    x, z, dx, dz = geom.centres(c["p"])
    ph = geom.pure(c["sc"], x, z, 1.55 * dx, 1.55 * dz)
    key = set()
    for i, (k, a) in enumerate(c["tables"]):
        m = ph == i
        if not m.any():
            continue
        f = (lambda t, p: lookup(val[i], k, t, p)) if k >= 0 else (lambda t, p: lookup1(val[i], p))
        w = f(T, P)
        sens = sum(np.abs(f(T * (1 + s * 2e-7), P * (1 + u * 2e-7) + u * 2e-7 * np.abs(P).max()) - w) for s in (-1, 1) for u in (-1, 1))
        q = np.abs(rho - w)[m] / (3e-6 * w + 2 * sens)[m]
        if q.max() > 1:
            j = int(np.argmax(q))
            raise Violation("density of phase %d is %.7g, its table gives %.7g at T=%.6g P=%.6g" % (i, rho[m][j], w[m][j], T[m][j], P[m][j]))
        key.add(k)
    r.free()
    return tuple(sorted(key)) if key and rho.max() - rho.min() > 1 else None


PARTS = [Part("eos", eos(), chk_eos, 500, 6000), Part("tables", tables(), chk_tables, 120, 1500)]
