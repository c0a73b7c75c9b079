"""C23 set-up helpers and the initial model"""
import math, os, subprocess, tempfile
import numpy as np
from hypothesis import strategies as st
from .. import gen, geom, mdz
from ..engine import Part, Violation, ran, require

ID = "C23"
PROGS = ("driver", "helpers")
RULE = ("(start) the first output of random models (callbacks present or absent, random phases, surface, gravity, noise, code units) against the callbacks, the weight of the column above and the defaults; (shapes) random ellipses and rectangles (centre, size, angle, length unit) and points inside, outside and near their outlines, asked of the library's helpers; (sides) the prepared velocity conditions for every position, style, rate and box; (names) default setup file names of random paths; "
        "non-trivial: points on both sides of the outline / all ten positions / at least one path with a directory or several dots / at least one field set by a callback")
ASSUMPTIONS = ["points closer to the outline than 1e-9 of the size are not asked", "ellipses: full axes and degrees; rectangles: full sizes and radians; a positive angle turns the shape clockwise"]
POS = ["NE", "NW", "SE", "SW", "INTERNAL", "N", "S", "W", "E", "free_surface"]


def ask(lines):
    d = tempfile.mkdtemp(dir=mdz.scratch_root()); a, b = os.path.join(d, "i"), os.path.join(d, "o")
    open(a, "w").write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([mdz.binpath("helpers"), a, b], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        require(p.returncode == 0, "the helpers died with status %s" % p.returncode)
        return open(b).read().split("\n")[:-1]
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)


sgn = lambda s: st.tuples(s, gen.flag).map(lambda t: t[0] if t[1] else -t[0])


@st.composite
def shapes(draw):
    s = []
    for _ in range(draw(st.integers(1, 6))):
        size = draw(gen.logn(-2, 6))
        s.append(dict(k=draw(st.sampled_from("ER")), c=[size * draw(st.floats(-3, 3)), size * draw(st.floats(-3, 3))], a=size * draw(gen.logn(-1, 1)), b=size * draw(gen.logn(-1, 1)),
                      ang=draw(st.one_of(st.just(0.0), st.floats(-400, 400), st.sampled_from([90.0, 45.0, 180.0, -30.0]))), L=draw(st.sampled_from([1.0, 1e3, 1e-3, 3.7e4])),
                      pts=draw(st.lists(st.tuples(st.floats(0, 2 * math.pi), st.one_of(st.floats(0, 2), st.sampled_from([0.99, 1.01, 0.999999, 1.000001]))), min_size=2, max_size=12))))
    return dict(s=s)


def check_shapes(c):
    L, want = [], []
    for s in c["s"]:
        t = math.radians(s["ang"]); co, si = math.cos(t), math.sin(t); A, B = s["a"] / 2, s["b"] / 2
        for phi, r in s["pts"]:
            if s["k"] == "E":
                u, w = r * math.cos(phi), r * math.sin(phi)
            else:
                m = max(abs(math.cos(phi)), abs(math.sin(phi))); u, w = r * math.cos(phi) / m, r * math.sin(phi) / m
            if abs(r - 1) < 1e-7:
                continue
            u *= A; w *= B
            x = s["c"][0] + u * co + w * si; z = s["c"][1] - u * si + w * co          # u, w are the coordinates along the turned axes
            if abs(r - 1) < 1e-9 * (abs(x) + abs(z)) / min(A, B) * 10:
                continue
            L.append("%s %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g" % (s["k"], x / s["L"], z / s["L"], s["c"][0], s["c"][1], s["a"], s["b"], s["ang"] if s["k"] == "E" else t, s["L"]))
            want.append((r < 1, s))
    if not L:
        return None
    got = ask(L)
    require(len(got) == len(want), "%d answers to %d questions" % (len(got), len(want)))
    for g, (w, s), l in zip(got, want, L):
        require((g == "1") == w, "a point %s the %s is reported %s: %s" % ("inside" if w else "outside", "ellipse" if s["k"] == "E" else "rectangle", "inside" if g == "1" else "outside", l))
    k = {w for w, _ in want}
    return (tuple(sorted(s["k"] + str(s["ang"] == 0) for s in c["s"]))) if len(k) == 2 else None


@st.composite
def sides(draw):
    z0 = draw(st.floats(-10, 10)); 
    return dict(x=draw(st.floats(-5, 5)), z=draw(st.floats(-5, 5)), e=draw(sgn(gen.logn(-20, 3))), z0=z0, z1=z0 + draw(gen.logn(-2, 2)), s=draw(st.integers(0, 1)))


def check_sides(c):
    q = [(f, p) for f in range(6) for p in range(10)]
    got = ask(["B %.17g %.17g %.17g %.17g %.17g %d %d %d" % (c["x"], c["z"], c["e"], c["z0"], c["z1"], c["s"], f, p) for f, p in q])
    require(len(got) == 60, "answers missing")
    V = c["e"] * (c["z1"] - c["z0"])
    for (f, p), g in zip(q, got):
        t, v = g.split(); t, v = int(t), float(v); P = POS[p]
        if P == "free_surface":
            continue
        simple = c["s"] if f > 3 else f > 1; vx = f % 2 == 0
        if P == "INTERNAL": w = (-1, 0)
        elif simple and vx: w = (11, -V) if P[0] == "S" else (11, V) if P[0] == "N" else (-12, 0) if P == "E" else (-2, 0)
        elif simple: w = (0, 0) if P in "SN" else (-12, 0)
        elif vx: w = (0, -c["x"] * c["e"]) if P in "WE" else (13, 0)
        else: w = (0, c["z"] * c["e"]) if P in "NS" else (13, 0)
        require(t == w[0] and abs(v - w[1]) <= 1e-12 * abs(w[1]), "%s shear, V%s at %s: type %d, value %g instead of %d, %g" % ("simple" if simple else "pure", "x" if vx else "z", P, t, v, w[0], w[1]))
    return (c["s"], c["e"] > 0)


seg = st.text("abcXYZ019_-+", min_size=1, max_size=40)


@st.composite
def names(draw):
    return [dict(d=draw(st.sampled_from(["", "", "/a/b/", "../", "SETS/", "/x.y/z.w/", "C:\\\\m\\\\"])), b=".".join(draw(st.lists(seg, min_size=1, max_size=3))), e=draw(st.sampled_from([".c", ".cpp", ".txt", ".x"]))) for _ in range(draw(st.integers(1, 5)))]


def check_names(c):
    got = ask(["F " + n["d"] + n["b"] + n["e"] for n in c])
    require(len(got) == len(c), "answers missing")
    for n, g in zip(c, got):
        require(g == n["b"] + ".txt", "the setup file of %s is %s" % (n["d"] + n["b"] + n["e"], g))
    return tuple(sorted((n["d"], n["b"].count(".")) for n in c)) if any(n["d"] or "." in n["b"] for n in c) else None



LG, EG, RG = 2e4, 1e21, 1e-14
UNIT = dict(Vx=LG * RG, Vz=LG * RG, Txx=1e8, Tzz=1e8, Txz=1e8, T=600.0, X=1.0, phi=0.05, noise=1.0, topo=LG)
BASE = dict(T=900.0, X=0.5, phi=0.06)


@st.composite
def starts(draw):
    b = draw(gen.box(6, 14)); nph = draw(st.integers(1, 4))
    p = dict(gen.scaled_box(b, LG), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=draw(st.sampled_from([RG, -RG, 3 * RG])), min_eta=EG * 1e-2, max_eta=EG * 1e2, Nt=0, constant_dt=1, dt=1e10, writer_markers=1,
             Nx_part=draw(st.integers(2, 5)), Nz_part=draw(st.integers(2, 5)), gz=-draw(st.sampled_from([0, 9.81, 10])), bkg_pressure=draw(st.sampled_from([0, 1e8])), elastic=draw(gen.flag), initial_noise=draw(gen.flag), interp_stencil=draw(st.sampled_from([1, 1, 9])), subgrid_diffusion=draw(st.integers(0, 2)), noisy=draw(gen.flag))
    W, H = p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
    sc = ["bc pure"] + gen.shape_lines(draw(gen.shapes(b, nph)), LG)
    for f in ("Vx", "Vz", "Txx", "Tzz", "Txz", "T", "X"):
        if draw(gen.flag):
            u = UNIT[f]; k = draw(gen.num(-0.4, 0.4)); m = draw(gen.num(-0.4, 0.4))
            sc.append("f %s lin %.8g %.8g %.8g" % (f, BASE.get(f, 0) + (0 if f in BASE else u * draw(gen.num(-1, 1))), k * u / W, m * u / H))
    if draw(st.integers(0, 2)) == 0:
        p["free_surface"] = 1
        if draw(gen.flag):
            sc.append("f topo const %.8g" % (p["zmin"] + H * draw(gen.num(0.6, 0.85)))); sc.append("f topo gauss %.6g %.6g 0 %.6g" % (0.06 * H * draw(gen.num(-1, 1)), p["xmin"] + W * draw(gen.num(0.3, 0.7)), 0.2 * W))
            sc.append("surfphase %d" % draw(st.integers(0, nph - 1)))
        else:
            d = 1e3 - p["zmin"] - 0.7 * H
            p["zmin"] = round(p["zmin"] + d, 3); p["zmax"] = round(p["zmax"] + d, 3)
    ph = [dict(rho=draw(gen.num(2500, 3400, 0)), eta0=EG, G=3e10, density_model=1, gs_ref=draw(gen.num(1, 9, 0)) * 1e-3, alp=0, bet=1e-11, k=3, Cp=1000) for _ in range(nph)]
    return mdz.case(p, ph, sc)


def check_start(c):
    p, sc, ph = c["p"], c["sc"], c["ph"]
    has = lambda f: any(l.startswith("f %s " % f) for l in sc)
    r = ran(c)
    try:
        o, m = r.out(0), r.particles(0)
        a = m["Particles/phase"] >= 0; x, z = m["Particles/x"][a], m["Particles/z"][a]; k = m["Particles/phase"][a].astype(int)
        nx, nz = p["Nx"], p["Nz"]; dx, dz = (p["xmax"] - p["xmin"]) / (nx - 1), (p["zmax"] - p["zmin"]) / (nz - 1)
        tol = 3e-6 * max(abs(p["xmin"]), abs(p["xmax"]), abs(p["zmin"]), abs(p["zmax"]))
        n, fs = 0, p.get("free_surface")
        from .c11 import phase_at
        q = [phase_at(sc, x + s * tol, z + t * tol) for s in (-1, 1) for t in (-1, 1)]
        bad = (np.min(q, 0) == np.max(q, 0)) & (q[0] != k)
        require(not bad.any(), "%d markers of the first output have another phase than the callback gives" % bad.sum())
        e = p["bkg_strain_rate"]
        for f, key in (("Vx", "Vx"), ("Vz", "Vz"), ("Txx", "sxxd"), ("Txz", "sxz")):
            if "Particles/" + key not in m:
                continue
            g = m["Particles/" + key][a]
            w = geom.ev(sc, f, x, z) if has(f) else {"Vx": -x * e, "Vz": z * e}.get(f, 0 * x)
            d = np.abs(g - w); lim = 1e-5 * UNIT[f] + 1e-5 * np.abs(w)
            require((d <= lim).all(), "marker %s of the first output is %.8g instead of %.8g" % (key, g[d.argmax()], w[d.argmax()])); n += has(f)
        # cells: the value is within those of the markers around it
        j = np.clip(np.floor((x - p["xmin"]) / dx).astype(int), 0, nx - 2); i = np.clip(np.floor((z - p["zmin"]) / dz).astype(int), 0, nz - 2)
        air = np.isin(o["Flags/tag_n"].reshape(nz - 1, nx - 1), (30, 31))
        for f, key, off in (("T", "T", 0), ("X", "X", 0), ("d", "d", 0)):
            g = o.n(key) + off
            if f == "d":
                w = np.array([q["gs_ref"] for q in ph])[k]; u = 1e-3
            else:
                w = geom.ev(sc, f, x, z) if has(f) else np.full(x.shape, 273.15 if f == "T" else 0.0); u = UNIT[f]; n += has(f)
            lo, hi = np.full((nz - 1, nx - 1), np.inf), np.full((nz - 1, nx - 1), -np.inf)
            rng = 1 if p["interp_stencil"] == 9 and f != "T" else 0
            for dj in range(-rng, rng + 1):
                for di in range(-rng, rng + 1):
                    I, J = i + di, j + dj; ok = (I >= 0) & (I < nz - 1) & (J >= 0) & (J < nx - 1)
                    np.minimum.at(lo, (I[ok], J[ok]), w[ok]); np.maximum.at(hi, (I[ok], J[ok]), w[ok])
            use = ~air & np.isfinite(lo) & np.isfinite(g)
            t = 2e-5 * u + 2e-6 * np.abs(g)
            bad = use & ((g < lo - t) | (g > hi + t))
            require(not bad.any(), "first output, cell %s: %s = %.8g, its markers have %.8g to %.8g" % (np.argwhere(bad)[:1].tolist(), key, g[bad][:1].sum(), lo[bad][:1].sum(), hi[bad][:1].sum()))
        # the initial pressure is the weight above
        P, rho, w = o.n("P"), np.where(air, 0, o.n("rho_n")), np.zeros(nx - 1)
        if p["gz"]:
            s = 1e-5 * np.nanmax(np.abs(P)) + 1
            for i in range(nz - 2, -1, -1):
                h = w + 0.5 * dz * rho[i] * -p["gz"] + p["bkg_pressure"]; w = w + dz * rho[i] * -p["gz"]
                d = np.where(air[i], 0, np.abs(P[i] - h))
                require(np.nanmax(d) <= s, "first output, row %d: pressure %.8g under a weight of %.8g" % (i, P[i][np.nanargmax(d)], h[np.nanargmax(d)]))
        if fs:
            tx, tz = m["Topo/x"], m["Topo/z"]; w = geom.ev(sc, "topo", tx, 0 * tx) if has("topo") else 1e3 + 0 * tx
            require(np.abs(tz - w).max() <= 2 * tol, "the surface starts at %.8g instead of %.8g" % (tz[np.abs(tz - w).argmax()], w[np.abs(tz - w).argmax()]))
            sp = [int(l.split()[1]) for l in sc if l.startswith("surfphase")]
            require((m["Topo/phase"] == (sp[0] if sp else 0)).all(), "surface markers have phase %s" % set(m["Topo/phase"].tolist()))
            zs = geom.ev(sc, "topo", x, 0 * x) if has("topo") else 1e3 + 0 * x
            require((z <= zs + 0.02 * (p["zmax"] - p["zmin"])).all(), "markers start above the surface")
        return (n, len(ph) > 1, bool(fs)) if n else None
    finally:
        r.free()


PARTS = [Part("shapes", shapes(), check_shapes, 1500, 40000), Part("sides", sides(), check_sides, 300, 5000), Part("names", names(), check_names, 400, 5000), Part("start", starts(), check_start, 500, 6000)]
