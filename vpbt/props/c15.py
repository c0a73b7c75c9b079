"""C15 free surface: a chain of material markers, cells above it empty, rocks below kept"""
import re
import numpy as np
from hypothesis import strategies as st
from .. import gen, geom, mdz, surf, world
from ..engine import Inconclusive, Part, Violation, require, ran
from . import c11

ID = "C15"
RULE = ("random bodies under a flat or undulating surface, with gravity, extension or shortening, power laws, elasticity, compressibility, both ways to update the topography, both interpolations of velocities, one to four steps, with and without substeps of advection, with and without diffusion and filling of the surface; "
        "surface markers, heights, tags of cells and nodes, rock markers and densities of cells at the surface are recomputed from the previous output; non-trivial: at least one step in which the surface moved was compared")
ASSUMPTIONS = ["spherical models and moving boxes are not covered", "steps in which a decision lies within rounding (a surface on the centre of a cell) are compared up to that decision only"]
FE = ("gravity", "power", "compressible", "freesurf", "elastic", "noise", "density", "adaptive", "plast")


def density(r, c):
    """cells under the surface weigh as much as the rock in them (first output, phases without density variations)"""
    p = c["p"]; o = r.out(0)
    h = o["Topo/z_grid"]
    try:
        cell, u, v, g = surf.tags(p, h)
    except surf.Amb:
        return
    rho = o.n("rho_n"); nx, nz = o.dims(); dz = o.params()[6]
    rr = [q["rho"] for q in c["ph"]]
    lo, hi = min(rr), max(rr)
    zc = p["zmin"] + dz * (np.arange(nz - 1) + 0.5); hc = 0.5 * (h[1:] + h[:-1])
    top = np.zeros(cell.shape, bool); top[:-1] = (cell[:-1] == -1) & (cell[1:] == 31)
    f = np.where(top, abs(hc[None, :] - zc[:, None]) / dz, 1.0)
    rock = cell == -1
    k = np.where(rock, np.maximum(rho - hi * f * (1 + 1e-5), lo * f * (1 - 1e-5) - rho), -1.0)
    j, i = np.unravel_index(int(k.argmax()), k.shape)
    require(k[j, i] <= 1e-2, "density %.6g of cell (%d, %d) %s outside %.6g .. %.6g" % (rho[j, i], i, j, "at the surface" if top[j, i] else "", lo * f[j, i], hi * f[j, i]))


def compare_tags(o, p, h, k):
    try:
        cell, u, v, g = surf.tags(p, h)
    except surf.Amb:
        return None
    nx, nz = o.dims()
    n = o["Flags/tag_n"].reshape(nz - 1, nx - 1)
    for name, T, want in (("cells", np.where((n == 30) | (n == 31), n, -1), cell), ("velocity nodes of Vx", o["Flags/tag_u"].reshape(nz + 1, nx) == 30, u), ("velocity nodes of Vz", o["Flags/tag_v"].reshape(nz, nx + 1) == 30, v), ("vertices", o["Flags/tag_s"].reshape(nz, nx) == 30, g)):
        bad = T != want
        if bad.any():
            j, i = np.argwhere(bad)[0]
            raise Violation("output %d: %s: (%d, %d) is tagged %s instead of %s under the surface at %.6g" % (k, name, i, j, T[j, i], want[j, i], h[min(i, nx - 1)]))
    return u, v


def sediment(p, o1, m0, m1, h0, h, k):
    """two markers per half column where the surface rose, half way between the old and the new surface"""
    nx = p["Nx"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1)
    x = p["xmin"] + dx / 4 * (np.arange(4 * (nx - 1)) + 0.5)
    a, b = surf.line_at(p, h0, x), surf.line_at(p, h, x)
    fl = 3e-7 * max(abs(p[q]) for q in ("xmin", "xmax", "zmin", "zmax"))
    if (abs(b - a) < 20 * fl).any() and not (abs(b - a) == 0).all():
        x = None
    N = len(m0["Particles/phase"])
    if x is None:
        return
    q = b > a
    want = p["surf_ised1"] if int(o1.params()[0] // (3600 * 365.25 * 24 * 1e6)) % 2 else p["surf_ised2"]
    n = int(q.sum())
    X, Z, P = (m1["Particles/" + f][N:N + n] for f in ("x", "z", "phase"))
    require(len(X) == n, "step %d: %d sediment markers instead of %d" % (k, len(X), n))
    if not n:
        return
    e = 10 * fl + 1e-5 * abs(b - a).max()
    d = np.maximum(abs(X - x[q]), abs(Z - 0.5 * (a + b)[q])); i = int(d.argmax())
    require(d[i] <= e, "step %d: sediment marker %d at (%.8g, %.8g) instead of (%.8g, %.8g)" % (k, i, X[i], Z[i], x[q][i], 0.5 * (a + b)[q][i]))
    require((P == want).all(), "step %d: sediment markers of phase %s instead of %d" % (k, sorted(set(P.tolist())), want))


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "are empty, simulation will stop" in r.log or "has 0 neighouring particles... Exiting" in r.log:
                raise Inconclusive("the run stopped with a message")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        subs = [int(q) for q in re.findall(r"Advection step 000 of (\d+)", r.log)]
        if c.get("dens"):
            density(r, c)
        n = 0; dz = r.out(0).params()[6]; moved = False
        scale = max(abs(p[q]) for q in ("xmin", "xmax", "zmin", "zmax"))
        fl = 3e-7 * scale
        o0, m0 = r.out(0), r.particles(0)
        # the initial chain: on the initial topography, heights from it
        h = o0["Topo/z_grid"]; compare_tags(o0, p, h, 0)
        x, z, ph = m0["Topo/x"], m0["Topo/z"], m0["Topo/phase"]
        nx = p["Nx"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1)
        want = p["xmin"] + dx / 23 * (np.arange(23 * (nx - 1)) + 0.5)
        require(len(x) == len(want) and abs(x - want).max() <= fl, "surface markers do not start evenly spaced")
        zt = geom.ev(c["sc"], "topo", x, 0 * x)
        require(abs(z - zt).max() <= fl + 2e-6 * scale, "surface markers start %.4g away from the given topography" % abs(z - zt).max())
        q = surf.heights(dict(p, topo_update=0), want, z, z, np.ones(len(x), bool), h)
        require(abs(q - h).max() <= 2 * fl, "initial heights differ by %.4g from the ones of the surface markers" % abs(q - h).max())
        for k in r.steps()[1:]:
            o1, m1 = r.out(k), r.particles(k)
            if k - 1 >= len(subs):
                break
            ns = subs[k - 1]
            dt = (o1.params()[0] - o0.params()[0]) / ns
            x, z, on = m0["Topo/x"], m0["Topo/z"], m0["Topo/phase"] >= 0
            h = o0["Topo/z_grid"]; hi = h
            near = np.zeros(len(x), bool); amb = False; new = []
            vm = max(abs(o1.vx()).max(), abs(o1.vz()).max())
            try:
                for s in range(ns):
                    cell, ua, va, g = surf.tags(p, h)
                    z0, h0 = z.copy(), h
                    X, Z, u, w, on, ne = surf.rk4(p, o1.vx(), o1.vz(), ua, va, x, z, on, dt)
                    near[:len(ne)] |= ne
                    if ne.any() and not (abs(u[ne]) < 1e-9 * vm).all():
                        raise surf.Amb
                    h1 = surf.heights(p, X, Z, z0, on, h0)
                    x, zz, z0, on, new = surf.refill(p, X, Z, z0, on, h1, h0)
                    h = surf.heights(p, x, zz, z0, on, h0)
                    h = surf.diffuse(p, h, dt)
                    if p.get("zero_mean_topo"):
                        h = h - h.mean()
                    z = surf.line_at(p, h, x)
                    if len(near) < len(x):
                        near = np.concatenate([near, np.zeros(len(x) - len(near), bool)])
            except surf.Amb:
                amb = True
            H = o1["Topo/z_grid"]
            if not amb:
                tol = 5 * fl * ns + 1e-5 * vm * dt * ns
                d = abs(H - h); i = int(d.argmax())
                require(d[i] <= tol, "step %d: height %.8g at column %d instead of %.8g (it was %.8g; %d substeps)" % (k, H[i], i, h[i], hi[i], ns))
                require(len(m1["Topo/x"]) == len(x), "step %d: %d surface markers instead of %d" % (k, len(m1["Topo/x"]), len(x)))
                d = np.where(on, abs(m1["Topo/x"] - x), 0)
                if p.get("periodic_x"):
                    d = np.minimum(d, abs(d - (p["xmax"] - p["xmin"])))
                i = int(d.argmax())
                require(d[i] <= tol, "step %d: surface marker %d at x = %.8g instead of %.8g" % (k, i, m1["Topo/x"][i], x[i]))
                if abs(h - hi).max() > 100 * tol:
                    moved = True
            # markers lie on the line of the heights
            xm, zm, om = m1["Topo/x"], m1["Topo/z"], m1["Topo/phase"] >= 0
            d = np.where(om, abs(zm - surf.line_at(p, H, xm)), 0); i = int(d.argmax())
            slope = abs(np.diff(H)).max() / dx
            require(d[i] <= 4 * fl * (1 + slope), "step %d: surface marker %d at z = %.8g, the surface is %.3g away" % (k, i, zm[i], d[i]))
            compare_tags(o1, p, H, k)
            # rocks: none above the surface, none lost below it
            X, Z, P = m1["Particles/x"], m1["Particles/z"], m1["Particles/phase"]
            top = surf.line_at(p, H, X)
            d = np.where(P >= 0, Z - top, -1.0); i = int(d.argmax())
            require(d[i] <= 4 * fl * (1 + slope), "step %d: rock marker %d is %.4g above the surface" % (k, i, d[i]))
            N = min(len(X), len(m0["Particles/phase"]))
            if p.get("surface_processes") == 2 and ns == 1 and not amb:
                sediment(p, o1, m0, m1, h0, h, k)
            lost = (m0["Particles/phase"][:N] >= 0) & (P[:N] < 0)
            ins = (X[:N] > p["xmin"] + fl) & (X[:N] < p["xmax"] - fl) & (Z[:N] > p["zmin"] + fl) & (Z[:N] < p["zmax"] - fl) & (Z[:N] < top[:N] - 4 * fl * (1 + slope))
            if ns == 1 and not p.get("zero_mean_topo") and p.get("reseed_mode", 0) == 1 and (lost & ins).any():
                i = int(np.argmax(lost & ins)); raise Violation("step %d: rock marker %d vanished at (%.8g, %.8g), %.4g below the surface" % (k, i, X[i], Z[i], top[i] - Z[i]))
            o0, m0 = o1, m1; n += 1
        return n if moved else 0
    finally:
        r.free()


def shift(c, s):
    """the same world with the level s at zero"""
    p = c["p"]; p["zmin"] -= s; p["zmax"] -= s
    for i, l in enumerate(c["sc"]):
        t = l.split()
        if t[0] != "f" or t[1].startswith("bc"):
            continue
        a = [float(q) for q in t[3:]]
        if t[1] == "topo":
            if t[2] == "const":
                a[0] -= s
        elif t[2] == "lin":
            a[0] += a[2] * s
        elif t[2] in ("gauss", "ell"):
            a[2] -= s
        elif t[2] == "cosz":
            a[2] += a[1] * s
        elif t[2] == "box":
            a[3] -= s; a[4] -= s
        c["sc"][i] = " ".join(t[:3] + ["%.9g" % q for q in a])


@st.composite
def cases(draw, processes=False):
    c = draw(world.world(feats=FE, lo=8, hi=16, nt=(1, 4), adv=1, prob=draw(st.sampled_from([2, 3, 5])), force=("freesurf",)))
    p = c["p"]
    p.update(writer_step=1, delete_breakpoints=-1, reseed_markers=1, reseed_mode=draw(gen.flag), conserv_interp=draw(gen.flag), dt=float("%.3g" % (draw(gen.num(0.005, 0.08, 3)) / world.e0)), Nx_part=draw(st.integers(3, 6)), Nz_part=draw(st.integers(3, 6)))
    xm, zm = max(abs(p["xmin"]), abs(p["xmax"])), max(abs(p["zmin"]), abs(p["zmax"]))
    cfl = world.e0 * max(xm * (p["Nx"] - 1) / (p["xmax"] - p["xmin"]), zm * (p["Nz"] - 1) / (p["zmax"] - p["zmin"]), (p["Nz"] - 1) / 2, (p["Nx"] - 1) / 2)
    p["dt"] = float("%.3g" % min(p["dt"], 0.7 / cfl))
    dz = (p["zmax"] - p["zmin"]) / (p["Nz"] - 1); H = p["zmax"] - p["zmin"]; W = p["xmax"] - p["xmin"]
    sc = []
    for l in c["sc"]:
        if l.startswith("f topo const"):
            h = float(l.split()[3])
            if abs(((h - p["zmin"]) / dz) % 1 - 0.5) < 0.05:
                h -= 0.1 * dz
            l = "f topo const %.8g" % h
        elif l.startswith("f topo gauss"):
            continue
        sc.append(l)
    m = draw(st.integers(0, 3))
    xm = 0.5 * (p["xmin"] + p["xmax"])
    if m & 1:
        sc.append("f topo gauss %.6g %.6g 0 %.6g" % (0.12 * H * draw(gen.num(-1, 1)), xm + W * draw(gen.num(-0.3, 0.3)), W * draw(gen.num(0.08, 0.3))))
    if m & 2:
        sc.append("f topo lin 0 %.6g 0" % (0.1 * H / W * draw(gen.num(-1, 1))))
    c["sc"] = sc
    p["topo_update"] = draw(gen.flag)
    if draw(st.integers(0, 3)) == 0:
        p["zero_mean_topo"] = 1
        shift(c, float(re.search(r"f topo const (\S+)", "\n".join(sc)).group(1)))
    if processes:
        dx = W / (p["Nx"] - 1)
        sp = draw(st.sampled_from([1, 2, 5]))
        top = float(re.search(r"f topo const (\S+)", "\n".join(c["sc"])).group(1))
        p.update(surface_processes=sp, surf_diff=float("%.4g" % (draw(gen.logn(-2, 0.5)) * dx * dx / p["dt"])), surf_baselev=float("%.6g" % (top + 0.1 * H * draw(gen.num(-1, 1)))),
                 surf_sedirate=float("%.4g" % (draw(st.sampled_from([0.0, 1.0, 1.0])) * draw(gen.num(0.02, 0.3)) * dz / p["dt"])), surf_ised1=draw(st.integers(0, len(c["ph"]) - 1)), surf_ised2=draw(st.integers(0, len(c["ph"]) - 1)),
                 surf_Winc=float("%.5g" % (W * draw(gen.num(0.1, 0.6)))), surf_Vinc=float("%.4g" % (draw(gen.num(0, 0.2)) * dz / p["dt"])))
    c["dens"] = not any(q.get("density_model") for q in c["ph"])
    return c


PARTS = [Part("surface", cases(), check, 900, 12000)]
