"""C32 markers take on the changes of the fields around them"""
import numpy as np
from hypothesis import strategies as st
from .. import mdz, p2m, world
from ..engine import Inconclusive, Part, Violation, require
from . import c31

ID = "C32"
RULE = ("random bodies in pure and simple shear, with gravity, heat flow, heat sources, elasticity, plasticity, compressibility, a free surface, all kinds of subgrid diffusion and stress rotation, one to four steps; temperature, pressure and stresses of every marker are predicted from its values in the previous output and the written fields; "
        "non-trivial: at least one marker was compared in a step in which a field changed")
ASSUMPTIONS = ["markers within four cells of a free surface, and new ones, are not compared", "shear stresses next to periodic sides are not compared", "subgrid diffusion of temperature with constant density only; rotation in incompressible bodies without initial stress"]
FE = ("thermal", "gravity", "compressible", "simple", "freesurf", "elastic", "noise", "power", "advection", "fields", "plast", "adaptive")


def cells(F, p, x, z):
    """bilinear between cell centres, constant beyond the outer ones, periodic in x on request"""
    nz, nx = F.shape; dx, dz = (p["xmax"] - p["xmin"]) / nx, (p["zmax"] - p["zmin"]) / nz
    a, b = (x - p["xmin"]) / dx - 0.5, (z - p["zmin"]) / dz - 0.5
    j = np.floor(a).astype(int); i = np.floor(b).astype(int); a, b = a - j, b - i
    if p.get("periodic_x"):
        j0, j1 = j % nx, (j + 1) % nx
    else:
        j0, j1 = np.clip(j, 0, nx - 1), np.clip(j + 1, 0, nx - 1)
    i0, i1 = np.clip(i, 0, nz - 1), np.clip(i + 1, 0, nz - 1)
    return (1 - b) * ((1 - a) * F[i0, j0] + a * F[i0, j1]) + b * ((1 - a) * F[i1, j0] + a * F[i1, j1])


def verts(F, p, x, z):
    nz, nx = F.shape; dx, dz = (p["xmax"] - p["xmin"]) / (nx - 1), (p["zmax"] - p["zmin"]) / (nz - 1)
    a, b = (x - p["xmin"]) / dx, (z - p["zmin"]) / dz
    j = np.clip(np.floor(a).astype(int), 0, nx - 2); i = np.clip(np.floor(b).astype(int), 0, nz - 2); a, b = a - j, b - i
    return (1 - b) * ((1 - a) * F[i, j] + a * F[i, j + 1]) + b * ((1 - a) * F[i + 1, j] + a * F[i + 1, j + 1])


def born(p, k, o, m, m0, same):
    """markers added by reseeding sit in the centre of a quarter cell and take after their nearest neighbour or the fields"""
    G = {q: m["Particles/" + q].astype(float) for q in ("x", "z", "T", "P", "sxxd", "sxz")}; PH = m["Particles/phase"]; act = PH >= 0
    W, H = p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]; fx, fz = W / (p["Nx"] - 1) / 2, H / (p["Nz"] - 1) / 2
    a, b = (G["x"] - p["xmin"]) / fx - 0.5, (G["z"] - p["zmin"]) / fz - 0.5
    e = 4e-7 * max(abs(p[q]) for q in ("xmin", "xmax", "zmin", "zmax")) / min(fx, fz)
    mid = (abs(a - np.rint(a)) < e) & (abs(b - np.rint(b)) < e)
    new = act & ~same & mid; old = act & ~new; n = 0
    if p["reseed_markers"] == 0 or not new.any() or old.sum() == 0:
        return 0
    xo, zo = G["x"][old], G["z"][old]
    io, jo = np.floor((xo - p["xmin"]) / fx), np.floor((zo - p["zmin"]) / fz)
    for q in np.nonzero(new)[0][:60]:
        d = np.hypot(xo - G["x"][q], zo - G["z"][q]); far = abs(io - np.rint(a[q])).clip(0) > 2
        far |= abs(jo - np.rint(b[q])) > 2
        d = np.where(far, np.inf, d)
        if not np.isfinite(d.min()):
            continue
        near = np.nonzero(old)[0][d <= d.min() + 1e-5 * W / p["Nx"]]
        if (io[d <= d.min() + 1e-5 * W / p["Nx"]] - (xo[d <= d.min() + 1e-5 * W / p["Nx"]] - p["xmin"]) / fx > -1e-4).any():
            continue                             # a neighbour on the limit of quarter cells
        require(PH[q] in PH[near], "step %d: new marker at (%.6g, %.6g) has phase %d, its nearest neighbour %s" % (k, G["x"][q], G["z"][q], PH[q], PH[near]))
        for f in ("T", "P") + (("sxxd", "sxz") if p.get("elastic") else ()):
            sc = max(abs(G[f][act]).max(), 1e-30 if f == "T" else 1e4)
            if p.get("direct_neighbour"):
                ok = (abs(G[f][near] - G[f][q]) <= 1e-6 * sc).any(); want = G[f][near][0]
            else:
                F = o.s(f) if f == "sxz" else o.n(f)
                want = (verts if f == "sxz" else cells)(F.astype(float), p, G["x"][[q]], G["z"][[q]])[0]
                ok = abs(want - G[f][q]) <= 5e-6 * sc
            require(ok, "step %d: new marker at (%.6g, %.6g) has %s = %.8g instead of %.8g" % (k, G["x"][q], G["z"][q], f, G[f][q], want))
        n += 1
    return n


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "simulation will stop" in r.log or "Exiting" in r.log or "Are you crazy" in r.log or "negative strain increment" in r.log and any(q.get("plast") for q in c["ph"]):
                raise Inconclusive("the run stopped with a message")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        n = 0; prev = None; dev = 0.0; sub = p["subgrid_diffusion"]; fs = p.get("free_surface", 0); el = p.get("elastic", 0)
        par = lambda f, ph: np.array([q.get(f, 0.0) for q in c["ph"]], float)[ph]
        dx, dz = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1), (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
        still = not p.get("compressible") and not any(l.startswith("f Tx") or l.startswith("f Tz") for l in c["sc"])
        for k in r.steps():
            o, m = r.out(k), r.particles(k)
            if k:
                o0, m0 = prev; dt = o.params()[0] - o0.params()[0]
                g = {q: m0["Particles/" + q].astype(float) for q in ("x", "z", "T", "P", "sxxd", "sxz")}; ph = m0["Particles/phase"]; N = len(ph)
                on = ph >= 0; x, z = g["x"], g["z"]; act = np.where(on, ph, 0)
                use = c31.follow(r, p, k, m0, m)[:N] & on
                if fs:
                    t = o0["Flags/tag_n"].reshape(p["Nz"] - 1, p["Nx"] - 1) != -1
                    for _ in range(4 if sub else 2):
                        e = t.copy(); e[1:] |= t[:-1]; e[:-1] |= t[1:]; e[:, 1:] |= t[:, :-1]; e[:, :-1] |= t[:, 1:]; t = e
                    i = np.clip(((z - p["zmin"]) / dz).astype(int), 0, p["Nz"] - 2); j = np.clip(((x - p["xmin"]) / dx).astype(int), 0, p["Nx"] - 2)
                    use &= ~t[i, j]
                D = {}; slack = 0.0
                todo = [("T", o.n("T"), "n", 1, cells), ("P", o.n("P"), "n", None, cells)]
                if el:
                    todo += [("sxxd", o.n("sxxd"), "n", None, cells), ("sxz", o.s("sxz"), "s", None, verts)]
                for q, F, kind, sten, interp in todo:
                    F = F.astype(float)
                    old = p2m.average(p, x, z, on, g[q], kind, sten)
                    hole = np.isnan(old); old = np.where(hole, 0, old)
                    d = np.where(hole, 0, F - old)
                    ok = use & (interp(hole.astype(float), p, x, z) == 0)
                    if q == "sxz" and p.get("periodic_x"):
                        e = (3.2 if sub >= 2 else 1.5) * dx
                        ok &= (x > p["xmin"] + e) & (x < p["xmax"] - e)
                    if q == "T" and sub >= 1 or q == "P" and sub >= 2 or q in ("sxxd", "sxz") and sub >= 2:
                        if q == "T":
                            tau = par("Cp", act) * cells(o.n("rho_n").astype(float), p, x, z) / (par("k", act) * (1 / dx ** 2 + 1 / dz ** 2))
                        elif q == "P":
                            tau = cells(o.n("eta_n").astype(float), p, x, z) * par("bet", act)
                        else:
                            tau = verts(o.s("eta_s").astype(float), p, x, z) / par("G", act)
                        with np.errstate(all="ignore"):
                            s = -(g[q] - interp(old, p, x, z)) * (1 - np.exp(-dt / tau))
                        s = np.where(on, s, 0.0)
                        rest = p2m.average(p, x, z, on, s, kind, 1 if q in "TP" else None)
                        new = g[q] + s + interp(d - np.where(np.isnan(rest), 0, rest), p, x, z)
                    else:
                        new = g[q] + interp(d, p, x, z)
                    D[q] = (new, ok)
                if el and p["stress_rotation"]:
                    if not still:
                        del D["sxxd"], D["sxz"]
                    else:
                        vx, vz = o.vx(), o.vz()
                        w = 0.5 * ((vz[:, 1:] - vz[:, :-1]) / dx - (vx[1:] - vx[:-1]) / dz)
                        wm = verts(w.astype(float), p, x, z); txx, txz = D["sxxd"][0], D["sxz"][0]; a = wm * dt
                        dev += abs(o.n("sxxd").astype(float) + o.n("szzd")).max()   # unbalanced divergence of a solution that is not converged
                        slack = 2 * dev * abs(a[on]).max()
                        if p["stress_rotation"] == 1:
                            nxx, nxz = txx - 2 * a * txz, txz + 2 * a * txx
                        else:
                            nxx, nxz = txx * np.cos(2 * a) - txz * np.sin(2 * a), txz * np.cos(2 * a) + txx * np.sin(2 * a)
                        ok = D["sxxd"][1] & D["sxz"][1]
                        D["sxxd"], D["sxz"] = (nxx, ok), (nxz, ok)
                for q, (new, ok) in D.items():
                    got = m["Particles/" + q][:N].astype(float)
                    both = ("sxxd", "sxz") if q in ("sxxd", "sxz") else (q,)
                    sc = max(max(abs(g[f][on]).max() for f in both), max(abs(D[f][0][ok]).max() for f in both) if ok.any() else 0, 1e-30 if q == "T" else 1e4)
                    e = np.where(ok, abs(got - new), 0.0); i = int(e.argmax())
                    require(e[i] <= 5e-6 * sc + (slack if q in both[1:] or q == "sxxd" else 0), "step %d: %s of marker %d of phase %d at (%.6g, %.6g) changed from %.8g to %.8g instead of %.8g" % (k, q, i, ph[i], x[i], z[i], g[q][i], got[i], new[i]))
                    if (abs(got - g[q])[ok] > 1e-5 * sc).any():
                        n += 1
                if p["reseed_mode"] == 1 and not fs:
                    n += born(p, k, o, m, m0, c31.follow(r, p, k, m0, m))
            prev = (o, m)
        return n
    finally:
        r.free()


@st.composite
def cases(draw):
    c = draw(c31.cases(fe=FE))
    return c


PARTS = [Part("transfer", cases(), check, 700, 9000)]
