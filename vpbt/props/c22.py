"""C22 accumulated strain and finite strain"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from . import c11

ID = "C22"
RULE = ("(hom) homogeneous bodies of random rheology in random linear flows, up to five steps, random initial deformation gradient: strains of every mechanism and deformation gradient in closed form from the written rates and velocities; "
        "(het) random multi-phase bodies: strain and deformation gradient integrated along the written marker paths have to enclose the written field; non-trivial: at least one cell was compared after at least one step")
ASSUMPTIONS = ["float32 output: 1e-4 of the accumulated value", "in (het) new markers are given the range of the markers within two cells; for the deformation gradient cells with markers born later than the start, and two cells along the sides, are not compared"]
PARTS_ = ("el", "pl", "pwl", "exp", "lin", "gbs")


def one(r, c):
    if not r.ok():
        if mdz.gave_up(r):
            raise Inconclusive("solver gave up")
        raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))


def hom(c):
    p, q = c["p"], c["ph"][0]
    a, b, d = c["grad"]; e = world.e0
    r = mdz.run(c)
    try:
        one(r, c)
        F = np.array(c["F0"], float).reshape(2, 2); L = e * np.array([[a, b], [d, -a]])
        acc = {m: 0.0 for m in PARTS_}; tot = 0.0; n = 0
        for k in r.steps():
            o = r.out(k)
            if k > 0:
                dt = o.params()[0] - r.out(k - 1).params()[0]
                vx = o.vx(); g = (vx[1:-1, -1] - vx[1:-1, 0]) / (p["xmax"] - p["xmin"])
                if abs(g - a * e).max() > 1e-5 * e:
                    raise Inconclusive("flow not linear")
                ii = {m: o.n("eII_" + m) for m in PARTS_}
                for m in PARTS_:
                    if np.ptp(ii[m]) > 2e-3 * max(abs(ii[m]).max(), 1e-2 * e):
                        raise Inconclusive("not homogeneous")
                    acc[m] = acc[m] + dt * ii[m].mean()
                E = np.sqrt(0.5 * (o.n("exxd") ** 2 + o.n("ezzd") ** 2 + (o.n("exxd") + o.n("ezzd")) ** 2).mean() + (o.s("exz") ** 2)[1:-1, 1:-1].mean())
                tot += dt * E
                F = (np.eye(2) + dt * L) @ F
                n += 1
            s = sum(abs(v) for v in acc.values()) + tot + 1e-30
            for m in PARTS_:
                v = o.n("strain_" + m); D = abs(v - acc[m]).max()
                require(D <= 3e-4 * s, "step %d: accumulated strain of mechanism %s is %.6g instead of %.6g" % (k, m, v.flat[abs(v - acc[m]).argmax()], acc[m]))
            v = o.n("strain")
            if not q.get("cstv", 1):
                D = abs(v - sum(acc.values())).max(); require(D <= 3e-4 * s, "step %d: accumulated strain %.6g is not the sum of all mechanisms %.6g" % (k, v.flat[0], sum(acc.values())))
            elif not p.get("elastic") and not q.get("plast") and not q.get("pwlv") and not q.get("linv") and not q.get("expv"):
                D = abs(v - tot).max(); require(D <= 3e-4 * s, "step %d: accumulated strain %.6g instead of %.6g" % (k, v.flat[abs(v - tot).argmax()], tot))
            else:
                require(v.min() >= sum(acc.values()) - 3e-4 * s, "step %d: accumulated strain %.6g is less than the sum of its parts %.6g" % (k, v.min(), sum(acc.values())))
            if p.get("finite_strain"):
                for nm, w in (("Fxx", F[0, 0]), ("Fxz", F[0, 1]), ("Fzx", F[1, 0]), ("Fzz", F[1, 1])):
                    v = o.n(nm); i = abs(v - w).argmax()
                    require(abs(v.flat[i] - w) <= 2e-5 * max(1, abs(F).max()), "step %d: %s = %.8g instead of %.8g" % (k, nm, v.flat[i], w))
        return n
    finally:
        r.free()


@st.composite
def hom_cases(draw):
    b = draw(gen.box(5, 9)); cu = draw(st.sampled_from(gen.CODE_UNITS[1:3])); e = world.e0; E = world.E0
    g = [draw(gen.num(-1.5, 1.5, 1)) for _ in range(3)]
    if max(abs(v) for v in g) < 0.3:
        g[0] = 1.0
    p = dict(gen.scaled_box(b, world.L0), **gen.code_units(cu), bkg_strain_rate=e, min_eta=E * 1e-4, max_eta=E * 1e3, Nt=draw(st.integers(1, 5)), dt=float("%.3g" % (draw(gen.num(0.002, 0.04, 3)) / e)),
             nit_max=20, nonlin_abs_mom=1e-10, nonlin_abs_div=1e-10, nonlin_rel_mom=1e-10, nonlin_rel_div=1e-10, lin_solver=2, Nx_part=draw(st.integers(3, 5)), Nz_part=draw(st.integers(3, 5)), writer_markers=0,
             writer_step=1, delete_breakpoints=-1, advection=1, elastic=draw(gen.flag), finite_strain=draw(gen.flag), interp_stencil=draw(st.sampled_from([1, 9])), reseed_mode=draw(gen.flag),
             conserv_interp=draw(gen.flag), direct_neighbour=draw(gen.flag), stress_rotation=draw(st.sampled_from([0, 1, 2])), eta_average=draw(st.integers(0, 2)), subgrid_diffusion=draw(st.sampled_from([0, 1, 2])))
    xm, zm = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"])
    sc = ["bc lin", "f phase const 0", "f T const %g" % draw(gen.num(900, 1500, 0)), "f P const 1e8",
          "f bcvx lin %.12g %.12g %.12g" % (-g[0] * e * xm - g[1] * e * zm, g[0] * e, g[1] * e), "f bcvz lin %.12g %.12g %.12g" % (-g[2] * e * xm + g[0] * e * zm, g[2] * e, -g[0] * e)]
    q = dict(eta0=float("%.4g" % (E * draw(gen.logn(-1, 1)))), G=float("%.4g" % draw(gen.logn(9.5, 11))), rho=3000.0, gs_ref=1e-3)
    kind = draw(st.sampled_from(["cst", "cst", "db", "db", "dbc", "plast"]))
    if kind in ("db", "dbc"):
        q.update(cstv=1 if kind == "dbc" else 0, pwlv=draw(st.sampled_from([10, 19, 40, 0])), linv=draw(st.sampled_from([0, 40])), expv=draw(st.sampled_from([0, 40])))
        if not q["pwlv"] and not q["linv"]:
            q["pwlv"] = 40
        if q["linv"]:
            sc.append("f d const 1e-3")
    if kind == "plast":
        q.update(plast=1, C=float("%.4g" % draw(gen.logn(6, 7.5))), phi=draw(gen.num(6, 35, 0)), Slim=1e90, eta_vp=float("%.4g" % draw(gen.logn(19, 20.5))))
    F0 = [1.0, 0.0, 0.0, 1.0]
    if p["finite_strain"] and draw(gen.flag):
        F0 = [draw(gen.num(0.5, 1.5, 1)), draw(gen.num(-0.5, 0.5, 1)), draw(gen.num(-0.5, 0.5, 1)), draw(gen.num(0.5, 1.5, 1))]
        sc += ["f F%s const %g" % (n, v) for n, v in zip(("11", "12", "21", "22"), F0)]
    c = mdz.case(p, [q], sc); c["grad"] = g; c["F0"] = F0
    return c


def bil(V, x0, z0, dx, dz, x, z):
    return c11.interp(V, x0, z0, dx, dz, x, z, None)


def het(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        one(r, c)
        n = 0; S = None
        dx = dz = None
        for k in r.steps():
            o, m = r.out(k), r.particles(k)
            nx, nz = o.dims(); dx, dz = o.params()[5:7]
            X, Z, PH = (m["Particles/" + q] for q in ("x", "z", "phase"))
            if k == 0:
                S = {q: (np.zeros(len(X)), np.zeros(len(X))) for q in PARTS_ + ("",)}
                F = np.tile(np.eye(2), (len(X), 1, 1))
                pX, pZ, pPH = X, Z, PH; gen0 = m["Particles/generation"]
                continue
            o0 = r.out(k - 1); dt = o.params()[0] - o0.params()[0]
            xa, za, u, w, ok = c11.advect(o, p, pX, pZ, dt)
            vm = max(abs(o.vx()).max(), abs(o.vz()).max())
            N = len(pX); M = len(X)
            ddx = abs(X[:N] - xa)
            if p.get("periodic_x"):
                ddx = np.minimum(ddx, abs(ddx - (p["xmax"] - p["xmin"])))
            same = np.zeros(M, bool); same[:N] = (pPH >= 0) & (PH[:N] >= 0) & ok & (ddx + abs(Z[:N] - za) < 1e-4 * vm * dt + 1e-6 * (p["xmax"] - p["xmin"]))
            xc, zc = p["xmin"] + dx / 2, p["zmin"] + dz / 2
            act = PH >= 0
            ic = np.clip(((X - p["xmin"]) / dx).astype(int), 0, nx - 2); jc = np.clip(((Z - p["zmin"]) / dz).astype(int), 0, nz - 2)
            unk = np.zeros(M, bool); unk[:N] = (pPH >= 0) & ~ok; fresh = act & ~same & ~unk

            def inherit(lo, hi):
                """A new marker has what a marker near it has: bounds from the two cells around."""
                gl = np.full((nz + 3, nx + 3), np.inf); gh = -gl; gn = np.zeros(gl.shape, bool)
                w = act & ~fresh; k_ = np.isfinite(lo); I = (jc + 2, ic + 2)
                m_ = w & k_
                np.minimum.at(gl, (I[0][m_], I[1][m_]), lo[m_]); np.maximum.at(gh, (I[0][m_], I[1][m_]), hi[m_]); m_ = w & ~k_; gn[I[0][m_], I[1][m_]] = True
                R_ = range(-2, 3)
                for i in np.flatnonzero(fresh):
                    js, is_ = slice(jc[i], jc[i] + 5), slice(ic[i], ic[i] + 5)
                    lo[i], hi[i] = (np.nan, np.nan) if gn[js, is_].any() or not np.isfinite(gl[js, is_].min()) else (gl[js, is_].min(), gh[js, is_].max())
                return lo, hi
            parts = sum(o.n("eII_" + q) for q in PARTS_); exz = 0.5 * (np.diff(o.vx(), axis=0) / dz + np.diff(o.vz(), axis=1) / dx)
            rest = np.sqrt(0.5 * (o.n("exxd") ** 2 + o.n("ezzd") ** 2 + (o.n("exxd") + o.n("ezzd")) ** 2)) + np.max([abs(exz[:-1, :-1]), abs(exz[1:, :-1]), abs(exz[:-1, 1:]), abs(exz[1:, 1:])], axis=0)
            for q in PARTS_ + ("",):
                nb = []
                for w_, e_ in zip(S[q], [o.n("eII_" + q)] * 2 if q else [parts, 3 * parts + 3 * rest]):   # the total also holds constant-viscosity creep, which is not written
                    v = np.full(M, np.nan); v[:N] = w_
                    v = v + dt * bil(e_, xc, zc, dx, dz, np.clip(X, xc, p["xmax"] - dx / 2), np.clip(Z, zc, p["zmax"] - dz / 2)); v[~same] = np.nan
                    nb.append(v)
                S[q] = inherit(*nb)
            vx, vz = o.vx(), o.vz()
            gxx, gzz = np.diff(vx[1:-1], axis=1) / dx, np.diff(vz[:, 1:-1], axis=0) / dz
            gxz, gzx = np.diff(vx, axis=0) / dz, np.diff(vz, axis=1) / dx
            Lg = np.zeros((M, 2, 2))
            Lg[:, 0, 0] = bil(gxx, xc, zc, dx, dz, X, Z); Lg[:, 1, 1] = bil(gzz, xc, zc, dx, dz, X, Z)
            Lg[:, 0, 1] = bil(gxz, p["xmin"], p["zmin"], dx, dz, X, Z); Lg[:, 1, 0] = bil(gzx, p["xmin"], p["zmin"], dx, dz, X, Z)
            Fn = np.full((M, 2, 2), np.nan); Fn[:N] = F
            F = (np.eye(2) + dt * Lg) @ Fn
            inner = (X > xc + dx) & (X < p["xmax"] - 1.5 * dx) & (Z > zc + dz) & (Z < p["zmax"] - 1.5 * dz)
            F[~(same & inner)] = np.nan

            def enclose(name, low, high, field, scale):
                lo = np.full((nz + 1, nx + 1), np.inf); hi = np.full((nz + 1, nx + 1), -np.inf); bad = np.zeros((nz + 1, nx + 1), bool)
                v, v2 = low[act], high[act]; J, I = jc[act] + 1, ic[act] + 1
                nanv = np.isnan(v)
                np.minimum.at(lo, (J[~nanv], I[~nanv]), v[~nanv]); np.maximum.at(hi, (J[~nanv], I[~nanv]), v2[~nanv]); bad[J[nanv], I[nanv]] = True
                LO = np.min([lo[1 + a:nz + a, 1 + b:nx + b] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)
                HI = np.max([hi[1 + a:nz + a, 1 + b:nx + b] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)
                BAD = np.any([bad[1 + a:nz + a, 1 + b:nx + b] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)
                if p.get("interp_stencil", 1) == 1:
                    LO, HI, BAD = lo[1:-1, 1:-1], hi[1:-1, 1:-1], bad[1:-1, 1:-1]
                if p.get("periodic_x"):
                    BAD = BAD.copy(); BAD[:, [0, -1]] = True
                use = ~BAD & np.isfinite(LO) & (HI >= LO)
                d = np.where(use, np.maximum(LO - field, field - HI), -1)
                q = int(d.argmax())
                require(d.flat[q] <= 2e-4 * scale, "step %d: %s of cell %s is %.6g, but its markers have %.6g to %.6g" % (k, name, (q // (nx - 1), q % (nx - 1)), field.flat[q], LO.flat[q], HI.flat[q]))
                return int(use.sum())
            top = {q: np.nanmax(np.abs(S[q][1])) if np.isfinite(S[q][1]).any() else 0 for q in S}; sc = max(top[q] for q in PARTS_) + 1e-30
            for q in PARTS_:
                n += enclose("strain_" + q, *S[q], o.n("strain_" + q), max(sc * 0.1, top[q]))
            for q in PARTS_ + ("",):
                v = o.n("strain_" + q if q else "strain")
                require(v.min() >= 0, "step %d: negative accumulated strain %s: %.6g" % (k, q, v.min()))
            enclose("strain", *S[""], o.n("strain"), top[""])
            if p.get("finite_strain"):
                G = {ab: inherit(F[:, ab[0], ab[1]].copy(), F[:, ab[0], ab[1]].copy()) for ab in ((0, 0), (0, 1), (1, 0), (1, 1))}
                for nm, a, b in (("Fxx", 0, 0), ("Fxz", 0, 1), ("Fzx", 1, 0), ("Fzz", 1, 1)):
                    n += enclose(nm, *G[a, b], o.n(nm), 1.0)
            pX, pZ, pPH = X, Z, PH
        return n
    finally:
        r.free()


@st.composite
def het_cases(draw):
    c = draw(world.world(feats=("gravity", "simple", "elastic", "plast", "dblaw", "compressible"), lo=7, hi=13, nt=(1, 4), adv=1, prob=2))
    p = c["p"]
    p.update(writer_step=1, delete_breakpoints=-1, finite_strain=draw(gen.flag), reseed_markers=1, conserv_interp=draw(gen.flag), dt=float("%.3g" % (draw(gen.num(0.005, 0.04, 3)) / world.e0)), writer_markers=1)
    return c


PARTS = [Part("hom", hom_cases(), hom, 250, 4000), Part("het", het_cases(), het, 200, 3000)]
