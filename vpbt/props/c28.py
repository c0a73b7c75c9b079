"""C28 the moving box"""
import re
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from . import c11

ID = "C28"
RULE = ("random bodies in a box whose walls move with the prescribed velocity (pure_shear_ALE = 1), compression and extension, boxes off the origin, with gravity, heat flow, elasticity, compressibility, a free surface, substeps, one to six steps; walls, coordinates, markers and velocities of every step are predicted from the previous one; "
        "non-trivial: walls moved and markers were compared")
ASSUMPTIONS = ["markers within three cells of a free surface are not compared"]
FE = ("thermal", "gravity", "compressible", "freesurf", "elastic", "noise", "density", "power", "adaptive", "strain", "newton")


class Grid:
    """an output seen on another grid"""
    def __init__(self, o, b):
        self.o, self.b = o, b

    def dims(self):
        return self.o.dims()

    def params(self):
        P = np.array(self.o.params(), float); nx, nz = self.dims(); x1, x2, z1, z2 = self.b
        P[5], P[6] = (x2 - x1) / (nx - 1), (z2 - z1) / (nz - 1)
        return P

    def vx(self):
        return self.o.vx()

    def vz(self):
        return self.o.vz()


def substeps(log):
    """number of advection substeps of every step"""
    out = []
    for l in log.splitlines():
        m = re.search(r"Advection step (\d+) of (\d+)", l)
        if m and int(m.group(1)) == 0:
            out.append(int(m.group(2)))
    return out


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "simulation will stop" in r.log or "Exiting" in r.log or "Are you crazy" in r.log:
                raise Inconclusive("the run stopped with a message")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        nsub = substeps(r.log); n = 0; e = p["bkg_strain_rate"]; fs = p.get("free_surface", 0)
        box = np.array([p["xmin"], p["xmax"], p["zmin"], p["zmax"]], float); nx, nz = p["Nx"], p["Nz"]
        prev = None
        for k in r.steps():
            o, m = r.out(k), r.particles(k); big = abs(box).max(); tol = 3e-7 * big * (1 + 3 * k)
            if k:
                dt = o.params()[0] - prev[0].params()[0]; ns = nsub[k - 1]
                x1, x2, z1, z2 = box
                if fs and (prev[0]["Flags/tag_v"].reshape(nz, nx + 1)[-1] != 30).any():
                    break                        # the surface has come to the upper wall
                vel = np.array([-e * x1, -e * x2, e * z1, 0.0 if fs else e * z2])
                # the velocity at the walls is the prescribed one at their place before the step
                vx, vz = o.vx(), o.vz(); s = 1e-5 * abs(vel).max()
                on = slice(1, -1)
                tu, tv = prev[0]["Flags/tag_u"].reshape(nz + 1, nx), prev[0]["Flags/tag_v"].reshape(nz, nx + 1)
                for what, got, t, want in (("left", vx[on, 0], tu[on, 0], vel[0]), ("right", vx[on, -1], tu[on, -1], vel[1]), ("lower", vz[0, on], tv[0, on], vel[2]), ("upper", vz[-1, on], tv[-1, on], vel[3])):
                    if what == "upper" and fs:
                        continue
                    d = np.where(t == 30, 0.0, abs(got - want))
                    require(d.max() <= s, "step %d: velocity %.6g at the %s wall instead of %.6g" % (k, got[int(d.argmax())], what, want))
                old = box; box = box + dt * vel
            # coordinates
            X = {q: o["Model/" + q].astype(float) for q in ("xg_coord", "zg_coord", "xc_coord", "zc_coord", "xvz_coord", "zvx_coord")}
            dx, dz = (box[1] - box[0]) / (nx - 1), (box[3] - box[2]) / (nz - 1)
            for q, want in (("xg_coord", box[0] + dx * np.arange(nx)), ("zg_coord", box[2] + dz * np.arange(nz)), ("xc_coord", box[0] + dx * (np.arange(nx - 1) + 0.5)), ("zc_coord", box[2] + dz * (np.arange(nz - 1) + 0.5)),
                            ("xvz_coord", box[0] + dx * (np.arange(nx + 1) - 0.5)), ("zvx_coord", box[2] + dz * (np.arange(nz + 1) - 0.5))):
                d = abs(X[q] - want); i = int(d.argmax())
                require(len(X[q]) == len(want) and d[i] <= tol, "step %d: %s[%d] = %.9g instead of %.9g" % (k, q, i, X[q][i], want[i]))
            P = o.params()
            for q, i, want in (("Lx", 1, box[1] - box[0]), ("Lz", 2, box[3] - box[2]), ("dx", 5, dx), ("dz", 6, dz)):
                require(abs(P[i] - want) <= tol, "step %d: %s = %.9g instead of %.9g" % (k, q, P[i], want))
            x, z, ph = (m["Particles/" + q] for q in ("x", "z", "phase"))
            act = ph >= 0
            out = act & ((x < box[0] - tol) | (x > box[1] + tol) | (z < box[2] - tol) | (z > box[3] + tol))
            if out.any():
                i = int(np.argmax(out)); raise Violation("step %d: active marker %d outside the box at (%.8g, %.8g)" % (k, i, x[i], z[i]))
            if k and ns <= 10:
                x0, z0, ph0 = (prev[1]["Particles/" + q].astype(float) if q != "phase" else prev[1]["Particles/phase"] for q in ("x", "z", "phase"))
                N = len(x0); xa, za = x0, z0; cmp = ph0 >= 0
                vm = max(abs(vx).max(), abs(vz).max()); tm = 2e-5 * vm * dt + 3 * tol
                for j in range(ns):
                    b = old + (j + 1) * dt / ns * vel
                    q = dict(p, xmin=b[0], xmax=b[1], zmin=b[2], zmax=b[3])
                    xa, za, u, w, _ = c11.advect(Grid(o, b), q, xa, za, dt / ns)
                    cmp &= (xa > b[0] + 2 * tm) & (xa < b[1] - 2 * tm) & (za > b[2] + 2 * tm) & (za < b[3] - 2 * tm)
                if fs:
                    h = min(prev[0]["Topo/z_grid"].min(), o["Topo/z_grid"].min()); cmp &= (z0 < h - 3 * P[6]) & (za < h - 3 * P[6])
                d = np.where(cmp, np.maximum(abs(x[:N] - xa), abs(z[:N] - za)), 0.0); i = int(d.argmax())
                require(d[i] <= tm, "step %d: marker %d went from (%.8g, %.8g) to (%.8g, %.8g) instead of (%.8g, %.8g); largest displacement %.3g" % (k, i, x0[i], z0[i], x[i], z[i], xa[i], za[i], vm * dt))
                bad = cmp & (ph[:N] != ph0)
                if bad.any():
                    i = int(np.argmax(bad)); raise Violation("step %d: marker %d changed from phase %d to %d" % (k, i, ph0[i], ph[i]))
                n += int(cmp.sum())
            prev = (o, m)
        return n
    finally:
        r.free()


@st.composite
def cases(draw):
    c = draw(world.world(feats=FE, lo=6, hi=14, nt=(1, 6), adv=1, prob=draw(st.sampled_from([2, 3, 5]))))
    p = c["p"]
    p.update(writer_step=1, delete_breakpoints=-1, reseed_markers=draw(st.sampled_from([1, 1, 0])), pure_shear_ALE=1, conserv_interp=draw(gen.flag), dt=float("%.3g" % (draw(gen.num(0.005, 0.15, 3)) / world.e0)), Courant=draw(st.sampled_from([0.3, 0.3, 0.1])))
    a = max(max(abs(p["xmin"]), abs(p["xmax"])) * (p["Nx"] - 1) / (p["xmax"] - p["xmin"]), max(abs(p["zmin"]), abs(p["zmax"])) * (p["Nz"] - 1) / (p["zmax"] - p["zmin"]))
    if a * p["Nt"] * (p["dt"] * world.e0) ** 2 > 0.1:
        p["reseed_markers"] = 1                  # otherwise cells at the walls run empty
    if p.get("free_surface"):
        p["reseed_markers"] = 1
        p["dt"] = float("%.3g" % min(p["dt"], 0.5 * (p["zmax"] - p["zmin"]) / max(abs(p["zmin"]), abs(p["zmax"])) / (p["Nz"] - 1) / world.e0))
        for q, l in enumerate(c["sc"]):
            if l.startswith("f topo const"):
                dz = (p["zmax"] - p["zmin"]) / (p["Nz"] - 1); h = float(l.split()[3])
                if abs(((h - p["zmin"]) / dz) % 1 - 0.5) < 0.05:
                    c["sc"][q] = "f topo const %.8g" % (h - 0.1 * dz)
    return c


PARTS = [Part("moving box", cases(), check, 600, 9000)]
