"""C11 markers: layout, advection, reseeding"""
import math
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require

ID = "C11"
RULE = ("random multi-phase bodies over one to four steps in pure or simple shear, with gravity, compressibility, elasticity, power laws, a free surface, both reseeding modes, both velocity interpolations; "
        "the position of every marker is recomputed from its previous position with a fourth-order Runge-Kutta integration of the written velocities; non-trivial: at least one step with moving markers was compared")
ASSUMPTIONS = ["marker paths next to the free surface (three cells) are not compared; moving boxes (pure_shear_ALE) are not covered"]
FE = ("gravity", "power", "compressible", "simple", "freesurf", "elastic", "noise", "density", "adaptive")


def lines(sc, name):
    return [l.split()[2:] for l in sc if l.startswith("f %s " % name)]


def phase_at(sc, x, z):
    v = np.zeros_like(x)
    for t in lines(sc, "phase"):
        a = [float(q) for q in t[1:]]
        if t[0] == "const":
            v = v + a[0]
        elif t[0] == "box":
            v = np.where((x >= a[1]) & (x < a[2]) & (z >= a[3]) & (z < a[4]), a[0], v)
        elif t[0] == "ell":
            c, s = math.cos(a[5]), math.sin(a[5])
            X, Z = x - a[1], z - a[2]
            u, w = (X * c + Z * s) / a[3], (-X * s + Z * c) / a[4]
            v = np.where(u * u + w * w < 1.0, a[0], v)
    return v.astype(int)


def interp(V, x0, z0, dx, dz, x, z, corr):
    """velocity on a staggered grid (first node at x0, z0; V[row, column]) at points; corr: along 'x', 'z' or None the quadratic correction that keeps the divergence"""
    nz, nx = V.shape
    j = np.clip(np.ceil((x - x0) / dx).astype(int) - 1, 0, nx - 2); i = np.clip(np.ceil((z - z0) / dz).astype(int) - 1, 0, nz - 2)
    a, b = (x - x0) / dx - j, (z - z0) / dz - i

    def along(W, k, t):                          # W(k): values at node k along the corrected direction
        n = W.n
        v = W(k) * (1 - t) + W(k + 1) * t
        up = (t >= 0.5) & (k < n - 2)
        dn = (t < 0.5) & (k > 0)
        k2 = np.minimum(k + 2, n - 1); k0 = np.maximum(k - 1, 0)
        v = v + np.where(up, 0.5 * (t - 0.5) ** 2 * (W(k) - 2 * W(k + 1) + W(k2)), 0.0) + np.where(dn, 0.5 * (t - 0.5) ** 2 * (W(k0) - 2 * W(k) + W(k + 1)), 0.0)
        return v
    if corr is None:
        return (1 - b) * ((1 - a) * V[i, j] + a * V[i, j + 1]) + b * ((1 - a) * V[i + 1, j] + a * V[i + 1, j + 1])

    class Wc:
        pass
    if corr == "x":
        def mk(r):
            f = lambda k: V[r, k]
            class W:
                n = nx
                def __call__(s, k): return f(k)
            return W()
        return (1 - b) * along(mk(i), j, a) + b * along(mk(i + 1), j, a)

    def mk(c):
        class W:
            n = nz
            def __call__(s, k): return V[k, c]
        return W()
    return (1 - a) * along(mk(j), i, b) + a * along(mk(j + 1), i, b)


def advect(o, p, x, z, dt):
    """new positions, mean velocities, and whether the marker stays in the box at all stages"""
    nx, nz = o.dims(); P = o.params(); dx, dz = P[5], P[6]
    Vx, Vz = o.vx(), o.vz(); ci = p.get("conserv_interp", 0)
    per = p.get("periodic_x", 0)
    x1, x2, z1, z2 = p["xmin"], p["xmax"], p["zmin"], p["zmax"]
    ok = np.ones(len(x), bool)

    def vel(a, b):
        return (interp(Vx, x1, z1 - dz / 2, dx, dz, a, b, "x" if ci else None), interp(Vz, x1 - dx / 2, z1, dx, dz, a, b, "z" if ci else None))

    def wrap(a, b):
        nonlocal ok
        if per:
            a = np.where(a < x1, a + (x2 - x1), np.where(a > x2, a - (x2 - x1), a))
        ok &= (a > x1 - 1e-7 * (x2 - x1)) & (a < x2 + 1e-7 * (x2 - x1)) & (b > z1 - 1e-7 * (z2 - z1)) & (b < z2 + 1e-7 * (z2 - z1))
        return a, b
    ua, wa = vel(x, z)
    q = wrap(x + 0.5 * dt * ua, z + 0.5 * dt * wa); ub, wb = vel(*q)
    q = wrap(x + 0.5 * dt * ub, z + 0.5 * dt * wb); uc, wc = vel(*q)
    q = wrap(x + dt * uc, z + dt * wc); ud, wd = vel(*q)
    u, w = (ua + 2 * ub + 2 * uc + ud) / 6, (wa + 2 * wb + 2 * wc + wd) / 6
    q = wrap(x + dt * u, z + dt * w)
    return q[0], q[1], u, w, ok


def surface(o, p):
    return o["Topo/z_grid"] if p.get("free_surface") else None


def below(o, p, x, z, n):
    """markers at least n cells below the surface of an output"""
    s = surface(o, p)
    if s is None:
        return np.ones(len(x), bool)
    return z < s.min() - n * o.params()[6]


def layout(r, c):
    p = c["p"]; o = r.out(0); m = r.particles(0); P = o.params(); dx, dz = P[5], P[6]
    nx, nz = o.dims(); a, b = p.get("Nx_part", 4), p.get("Nz_part", 4)
    X = p["xmin"] + dx * ((np.arange((nx - 1) * a) + 0.5) / a); Z = p["zmin"] + dz * ((np.arange((nz - 1) * b) + 0.5) / b)
    x, z, ph = m["Particles/x"], m["Particles/z"], m["Particles/phase"]
    i, j = np.rint((x - X[0]) / (dx / a)).astype(int), np.rint((z - Z[0]) / (dz / b)).astype(int)
    require(i.min() >= 0 and i.max() < len(X) and j.min() >= 0 and j.max() < len(Z), "initial markers outside the box")
    lim = 0.1001 if p.get("initial_noise") else 2e-4
    e = np.maximum(abs(x - X[i]) / (dx / a), abs(z - Z[j]) / (dz / b))
    k = int(e.argmax())
    require(e[k] < lim, "initial marker at (%.8g, %.8g) instead of (%.8g, %.8g)" % (x[k], z[k], X[i[k]], Z[j[k]]))
    full = np.zeros((len(Z), len(X)), int); np.add.at(full, (j, i), 1)
    require(full.max() <= 1, "two initial markers at the same position")
    s = surface(o, p)
    want = np.ones(full.shape, bool)
    if s is not None:
        xv = p["xmin"] + dx * np.arange(nx)
        h = np.interp(X, xv, s)
        want = Z[:, None] < h[None, :]
        sure = abs(Z[:, None] - h[None, :]) > 0.05 * dz + 0.02 * abs(s).max() * 0
        want &= sure; full = full * sure
    require((full > 0).sum() == want.sum() and not ((full == 0) & want).any(), "initial markers missing or above the surface: %d instead of %d" % ((full > 0).sum(), want.sum()))
    if not p.get("initial_noise"):               # the phase is the one of the setup, away from the limits of bodies
        xx, zz = X[i], Z[j]; t = 1e-6 * (p["xmax"] - p["xmin"]); w = phase_at(c["sc"], xx, zz)
        safe = np.ones(len(x), bool)
        for ax, az in ((t, 0), (-t, 0), (0, t), (0, -t)):
            safe &= phase_at(c["sc"], xx + ax, zz + az) == w
        bad = safe & (ph != w) & (ph >= 0)
        if bad.any():
            k = int(np.argmax(bad)); raise Violation("initial marker at (%.6g, %.6g) has phase %d instead of %d" % (xx[k], zz[k], ph[k], w[k]))
        require(not ((ph < 0) & safe).any(), "initial marker marked as out")


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r):
                raise Inconclusive("solver gave up")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        layout(r, c)
        n = 0
        for k in r.steps()[1:]:
            o0, o1, m0, m1 = r.out(k - 1), r.out(k), r.particles(k - 1), r.particles(k)
            dt = o1.params()[0] - o0.params()[0]
            x, z, ph = (m0["Particles/" + q] for q in ("x", "z", "phase"))
            X, Z, PH = (m1["Particles/" + q] for q in ("x", "z", "phase"))
            N = len(x)
            require(len(X) >= N, "step %d: markers vanish from the list" % k)
            W, H = p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
            act = PH >= 0
            e = 2e-7 * max(abs(p[q]) for q in ("xmin", "xmax", "zmin", "zmax"))
            out = act & ((X < p["xmin"] - e) | (X > p["xmax"] + e) | (Z < p["zmin"] - e) | (Z > p["zmax"] + e))
            if out.any():
                q = int(np.argmax(out)); raise Violation("step %d: active marker %d outside the box at (%.8g, %.8g)" % (k, q, X[q], Z[q]))
            if "Advection step 001 of 0" not in r.log and ("Advection step 000 of 001" in r.log):
                xa, za, u, w, ok = advect(o1, p, x, z, dt)
                vm = max(abs(o1.vx()).max(), abs(o1.vz()).max())
                tol = 2e-5 * vm * dt + 2 * e
                cmp = (ph >= 0) & ok & below(o0, p, x, z, 3) & below(o1, p, x, z, 3)
                # a slot keeps its marker unless the marker left the box
                edge = (abs(xa - p["xmin"]) < 2 * tol) | (abs(xa - p["xmax"]) < 2 * tol) | (abs(za - p["zmin"]) < 2 * tol) | (abs(za - p["zmax"]) < 2 * tol)
                cmp &= ~edge
                ddx = abs(X[:N] - xa)
                if p.get("periodic_x"):
                    ddx = np.minimum(ddx, abs(ddx - W))
                d = np.where(cmp, np.maximum(ddx, abs(Z[:N] - za)), 0.0)
                q = int(d.argmax())
                require(d[q] <= tol, "step %d: marker %d went from (%.8g, %.8g) to (%.8g, %.8g) instead of (%.8g, %.8g); largest displacement %.3g" % (k, q, x[q], z[q], X[q], Z[q], xa[q], za[q], vm * dt))
                bad = cmp & (PH[:N] != ph)
                if bad.any():
                    q = int(np.argmax(bad)); raise Violation("step %d: marker %d changed from phase %d to %d" % (k, q, ph[q], PH[q]))
                for f, ref in (("Vx", u), ("Vz", w)):
                    d = np.where(cmp, abs(m1["Particles/" + f][:N] - ref), 0.0); q = int(d.argmax())
                    require(d[q] <= 2e-5 * vm, "step %d: marker %d: %s = %.6g instead of %.6g" % (k, q, f, m1["Particles/" + f][q], ref[q]))
                if p["reseed_markers"] == 0 and not p.get("free_surface"):
                    require(len(X) == N, "step %d: markers appear without reseeding" % k)
                n += int(cmp.sum())
                # new markers: in slots that were added or had become free
                new = act.copy(); new[:N] &= np.where(ph >= 0, ~ok & (abs(X[:N] - xa) + abs(Z[:N] - za) > 10 * tol), True)
                if not p.get("free_surface") and new.any():
                    dx, dz = o1.params()[5], o1.params()[6]
                    old = act & ~new
                    for q in np.nonzero(new)[0][:40]:
                        ddx = abs(X[old] - X[q])
                        if p.get("periodic_x"):
                            ddx = np.minimum(ddx, W - ddx)
                        near = (ddx < 2.01 * dx) & (abs(Z[old] - Z[q]) < 2.01 * dz)
                        require(PH[q] in PH[old][near], "step %d: new marker at (%.6g, %.6g) has phase %d, found nowhere around" % (k, X[q], Z[q], PH[q]))
            if p["reseed_markers"] == 1 and not p.get("free_surface"):
                nx, nz = o1.dims(); f = 2 if p["reseed_mode"] == 1 else 1
                i = np.clip(((X[act] - p["xmin"]) / W * (nx - 1) * f).astype(int), 0, (nx - 1) * f - 1); j = np.clip(((Z[act] - p["zmin"]) / H * (nz - 1) * f).astype(int), 0, (nz - 1) * f - 1)
                cnt = np.zeros(((nz - 1) * f, (nx - 1) * f), int); np.add.at(cnt, (j, i), 1)
                require(cnt.min() > 0, "step %d: %d %s without marker after reseeding" % (k, (cnt == 0).sum(), "quarter cells" if f == 2 else "cells"))
        return n
    finally:
        r.free()


@st.composite
def cases(draw):
    c = draw(world.world(feats=FE, lo=6, hi=14, nt=(1, 4), adv=1, prob=draw(st.sampled_from([2, 3, 5]))))
    p = c["p"]
    p.update(writer_step=1, delete_breakpoints=-1, reseed_markers=1 if p.get("free_surface") else draw(st.sampled_from([1, 1, 0])), initial_noise=draw(st.sampled_from([0, 0, 0, 1])), conserv_interp=draw(gen.flag),
             dt=float("%.3g" % (draw(gen.num(0.005, 0.08, 3)) / world.e0)), Nx_part=draw(st.integers(3, 6)), Nz_part=draw(st.integers(3, 6)))
    # inflow of at most 0.7 cells per step (the code stops with a message where all cells around an empty one are empty)
    xm, zm = max(abs(p["xmin"]), abs(p["xmax"])), max(abs(p["zmin"]), abs(p["zmax"]))
    cfl = world.e0 * max(xm * (p["Nx"] - 1) / (p["xmax"] - p["xmin"]), zm * (p["Nz"] - 1) / (p["zmax"] - p["zmin"]), (p["Nz"] - 1) / 2, (p["Nx"] - 1) / 2)
    p["dt"] = float("%.3g" % min(p["dt"], 0.7 / cfl))
    if p.get("free_surface"):                    # a surface level on the centres of cells leaves a layer without mass
        for q, l in enumerate(c["sc"]):
            if l.startswith("f topo const"):
                dz = (p["zmax"] - p["zmin"]) / (p["Nz"] - 1); h = float(l.split()[3])
                if abs(((h - p["zmin"]) / dz) % 1 - 0.5) < 0.05:
                    c["sc"][q] = "f topo const %.8g" % (h - 0.1 * dz)
    if cfl * p["dt"] * p["Nt"] > 0.25:
        p["reseed_markers"] = 1                  # otherwise cells at inflow sides run empty
    return c


PARTS = [Part("markers", cases(), check, 500, 8000)]
