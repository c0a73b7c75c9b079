"""C31 markers carry their history: initial and largest temperature and pressure, initial position"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, p2m, surf, world
from ..engine import Inconclusive, Part, Violation, require
from . import c11

ID = "C31"
RULE = ("random bodies with the tracking of markers switched on, in pure and simple shear, with gravity, heat flow, elasticity, compressibility, a free surface, reseeding, two to five steps; the tracked fields of cells are compared with the averages over markers whose history was followed through all outputs; "
        "non-trivial: at least one cell was compared in a step with flow or heat flow")
ASSUMPTIONS = ["cells with new markers, or within two cells of the surface, are not compared"]
FE = ("thermal", "gravity", "compressible", "simple", "freesurf", "elastic", "noise", "density", "power", "advection")


def follow(r, p, k, prev, cur):
    """markers of output k-1 that are the same in output k: boolean over the markers of k"""
    o = r.out(k); o0 = r.out(k - 1); dt = o.params()[0] - o0.params()[0]
    x, z, ph = (prev["Particles/" + q] for q in ("x", "z", "phase"))
    X, Z, PH = (cur["Particles/" + q] for q in ("x", "z", "phase"))
    N = len(x); same = np.zeros(len(X), bool)
    if not p.get("advection"):
        same[:N] = (ph >= 0) & (PH[:N] >= 0)
        return same
    xa, za, u, w, ok = c11.advect(o, p, x, z, dt)
    vm = max(abs(o.vx()).max(), abs(o.vz()).max()); W = p["xmax"] - p["xmin"]
    d = abs(X[:N] - xa)
    if p.get("periodic_x"):
        d = np.minimum(d, abs(d - W))
    same[:N] = (ph >= 0) & (PH[:N] >= 0) & ok & (d + abs(Z[:N] - za) < 1e-4 * vm * dt + 1e-6 * W)
    return same


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "simulation will stop" in r.log or "Exiting" in r.log or "Are you crazy" in r.log:
                raise Inconclusive("the run stopped with a message")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        n = 0; S = None; prev = None
        for k in r.steps():
            o, m = r.out(k), r.particles(k)
            g = {q: m["Particles/" + q].astype(float) for q in ("x", "z", "T", "P")}; PH = m["Particles/phase"]; M = len(PH)
            if k == 0:
                S = dict(T0=g["T"], P0=g["P"], x0=g["x"], z0=g["z"], Tmax=g["T"], Pmax=g["P"])
            else:
                same = follow(r, p, k, prev, m)
                for q in S:
                    v = np.full(M, np.nan); v[:len(S[q])] = S[q]; v[~same] = np.nan
                    S[q] = v
                S["Tmax"] = np.maximum(S["Tmax"], g["T"]); S["Pmax"] = np.maximum(S["Pmax"], g["P"])
            on = PH >= 0
            cut = None
            if p.get("free_surface"):
                cut = o["Flags/tag_n"].reshape(p["Nz"] - 1, p["Nx"] - 1) != -1
                d = cut.copy()
                for _ in range(2):
                    e = d.copy(); e[1:] |= d[:-1]; e[:-1] |= d[1:]; e[:, 1:] |= d[:, :-1]; e[:, :-1] |= d[:, 1:]; d = e
                cut = d
            for q in S:
                v = S[q]
                a = p2m.average(p, g["x"], g["z"], on, np.where(np.isnan(v), 0, v)); bad = p2m.average(p, g["x"], g["z"], on, np.isnan(v).astype(float))
                use = ~np.isnan(a) & (bad == 0)
                if cut is not None:
                    use &= ~cut
                f = o.n(q)
                sc = max(abs(v[on & ~np.isnan(v)]).max(), 1e-30) if (on & ~np.isnan(v)).any() else 1
                e = np.where(use, abs(f - a), 0); i = int(e.argmax())
                require(e.flat[i] <= 2e-5 * sc, "output %d: %s of cell (%d, %d) is %.8g, its markers have %.8g" % (k, q, i % (p["Nx"] - 1), i // (p["Nx"] - 1), f.flat[i], a.flat[i]))
                if k:
                    n += int(use.sum())
            prev = m
        return n
    finally:
        r.free()


@st.composite
def cases(draw, force=(), fe=FE):
    c = draw(world.world(feats=fe, lo=7, hi=14, nt=(2, 5), prob=draw(st.sampled_from([2, 3])), force=force))
    p = c["p"]
    if p.get("free_surface"):
        p["reseed_markers"] = 1
        dz = (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
        for q, l in enumerate(c["sc"]):
            if l.startswith("f topo const"):
                h = float(l.split()[3])
                if abs(((h - p["zmin"]) / dz) % 1 - 0.5) < 0.05:
                    c["sc"][q] = "f topo const %.8g" % (h - 0.1 * dz)
    else:
        p["reseed_markers"] = draw(st.sampled_from([0, 0, 1]))
    xm, zm = max(abs(p["xmin"]), abs(p["xmax"])), max(abs(p["zmin"]), abs(p["zmax"]))
    cfl = world.e0 * max(xm * (p["Nx"] - 1) / (p["xmax"] - p["xmin"]), zm * (p["Nz"] - 1) / (p["zmax"] - p["zmin"]), (p["Nz"] - 1) / 2, (p["Nx"] - 1) / 2)
    p["dt"] = float("%.3g" % min(p["dt"], 0.7 / cfl))
    if cfl * p["dt"] * p["Nt"] > 0.25:
        p["reseed_markers"] = 1                  # otherwise cells at inflow sides run empty
    p.update(track_T_P_x_z=1, writer_step=1, delete_breakpoints=-1, writer_markers=1)
    return c


PARTS = [Part("history", cases(), check, 800, 10000)]
