"""C17 the reader of setup files"""
import json, math, os, random, re, subprocess, tempfile
from hypothesis import strategies as st
from .. import gen, mdz
from ..engine import Inconclusive, Part, Violation, require

ID = "C17"
VARIANTS = ("plain", "addr")
PROGS = ("driver", "reader")
RULE = ("(values) setup files with a random subset of all parameters, random values, scales, line order, comments, blank lines and phase order, read by the library's own reader: every parameter equals the given value (or its default) in code units; "
        "(robust) such files after random edits (lines or bytes deleted, repeated, truncated, replaced by junk), read in a build with address sanitizer: values or a clean refusal, never a memory error; "
        "non-trivial: at least five given values were compared, or the edited file differs from the original in a parameter line")
ASSUMPTIONS = ["key, one or more spaces, '=', one space, value; data-base flow laws and phase diagrams are left out (C08 judges them)", "defaults and units as of the pinned commit"]
KEYS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "inputkeys.json")))
GLOB = [k for k in KEYS if k[0] != "materials"]
MAT = [k for k in KEYS if k[0] == "materials"]
SKIP = {"pwlv", "linv", "gbsv", "expv", "gs", "kin", "n_vp"}
SMALL = {"Nx": (2, 400), "Nz": (2, 400), "Nx_part": (1, 9), "Nz_part": (1, 9), "interp_stencil": (0, 1), "irestart": (0, 50), "reac_phase": (0, 0), "kinetics": (2, 60)}
FLAGS = {"Newton", "anisotropy", "shear_style", "periodic_x", "Picard2Newton", "line_search", "compressible", "finite_strain", "coh_soft", "phi_soft", "psi_soft", "reac_soft", "lin_solver", "phase_mix", "cstv"}
WORDS = ["./", "out/a", "a", "x" * 29, "y" * 31, "dir/" + "z" * 120, "../../IMPORT", "name-with.dots_1.bin", "=", "a=b"]
KINDS = {"k_eff": "k"}


def ftext(R):
    v = R.choice([R.uniform(-5, 5), R.uniform(-5, 5), 10**R.uniform(-30, 30), -10**R.uniform(-3, 6), R.choice([0.0, 1.0, -1.0, 1e-40, 1e90])])
    return R.choice(["%.3g", "%.6e", "%.12g", "%.4f" if 1e-3 < abs(v) < 1e9 else "%.5g"]) % v


def make(c):
    """the file: parameters of the model, of the phases, their order and decoration"""
    R = random.Random(c["seed"]); dens, n = c["dens"], c["n"]
    pick = lambda: R.random() < dens
    g = {}
    for s, f, kind, key, d, u in GLOB:
        if not pick():
            continue
        if kind == "s":
            g[key] = R.choice(WORDS)
        elif kind == "i":
            g[key] = R.choice("19") if key == "interp_stencil" else str(R.randint(*(SMALL[key] if key in SMALL else (0, 1) if key in FLAGS else (0, 60))))
        else:
            g[key] = ftext(R)
    for key in ("eta", "L", "V", "T"):
        if R.random() < 0.8:
            g[key] = "%.3g" % 10**(R.uniform(-6, 20) if key == "eta" else R.uniform(-10, 5))
    g["Nb_phases"] = str(n)
    ph = []
    for k in range(n):
        q = {}
        for s, f, kind, key, d, u in MAT:
            if key in SKIP or not pick():
                continue
            q[key] = ftext(R) if kind != "i" else str(R.choice([0, 1, 3, 5]) if key == "density_model" else 0 if key == "reac_phase" else R.randint(*((0, 1) if key in FLAGS else (0, 60))))
        q["cstv"] = "1"
        C = float(q.get("C", 1e7))
        if float(q.get("Slim", 1e90)) < C:
            q["Slim"] = "%.6g" % (abs(C) * 2 + 1)
        if float(q.get("psi", 0)) > 0 or int(q.get("psi_soft", 0)) > 0:
            g["compressible"] = "1"
        for s_, a, b, da in (("coh_soft", "C", "Ce", 1e7), ("phi_soft", "phi", "phie", 30.), ("psi_soft", "psi", "psie", 0.)):
            x = float(q.get(a, da))
            if q.get(s_) == "1" and abs(x - float(q.get(b, x))) < 2 + 1e-6 * abs(x):
                q[b] = "%.6g" % (x * 2 + 100)
        q = list(q.items()); R.shuffle(q); ph.append((k, q))
    g = list(g.items()); R.shuffle(g)
    if R.random() < 0.5:
        R.shuffle(ph)
    return dict(g=g, ph=ph, cut=R.randint(0, len(g)), R=R, quiet=c["quiet"], nl=c["nl"], crlf=c["crlf"])


@st.composite
def files(draw):
    return dict(seed=draw(st.integers(0, 2**31)), dens=draw(st.sampled_from([0.02, 0.05, 0.3, 0.9])), n=draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.sampled_from([19, 20]))),
                quiet=draw(gen.flag), nl=draw(gen.flag), crlf=draw(st.integers(0, 5)) == 0)


NOISE = ["", "", "/**** comment ****/", "    ", "/* Nx = 3 */", "#", "-----", "long " + "comment " * 60, "Nx= 7", "IDs of phases", "rhox = 3"]


def text(c):
    R, L = c["R"], []

    def put(k, v):
        if c["quiet"]:
            L.append("%s = %s" % (k, v)); return
        while R.random() < 0.2:
            L.append(R.choice(NOISE))
        L.append(k + " " * R.randint(1, 6) + "= " + v + R.choice(["", "", " ", "   / comment = 5", "\t// km", " /* Nx = 9 */"]))
    for k, v in c["g"][:c["cut"]]:
        put(k, v)
    for k, q in c["ph"]:
        put("ID", str(k))
        for a, b in q:
            put(a, b)
    rest = c["g"][c["cut"]:]
    for k, v in rest:
        put(k, v)
    e = "\r\n" if c["crlf"] else "\n"
    return e.join(L) + (e if c["nl"] else "")


def read(txt, variant="plain"):
    d = tempfile.mkdtemp(dir=mdz.scratch_root())
    fn, o = os.path.join(d, "in.txt"), os.path.join(d, "out")
    open(fn, "wb").write(txt if isinstance(txt, bytes) else txt.encode())
    try:
        try:
            p = subprocess.run([mdz.binpath("reader", variant), fn, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "PATH": os.environ["PATH"]}, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            raise Violation("the reader did not come to an end")
        v = {}
        if p.returncode == 0 and os.path.exists(o):
            for l in open(o, errors="replace"):
                a = l.rstrip("\n").split(" ", 1)
                if a[0].startswith("materials."):
                    k, x = a[1].split(); v[a[0], int(k)] = float(x)
                elif len(a) > 1:
                    try:
                        v[a[0]] = float(a[1])
                    except ValueError:
                        v[a[0]] = a[1]
        return p.returncode, p.stdout[-1500:], v
    finally:
        for x in (fn, o):
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)


def atoi(x):
    return int(re.match(r"\s*[-+]?\d+", x).group())


def chk(c):
    c = make(c)
    g = dict(c["g"]); ph = {k: dict(q) for k, q in c["ph"]}
    rc, log, v = read(text(c))
    require(rc == 0, "a valid file was refused (rc %s): %s" % (rc, log[-300:]))
    S = {k: float(g.get(k, 1)) for k in ("eta", "L", "V", "T")}
    S["t"] = S["L"] / S["V"]; S["a"] = S["V"] / S["t"]; S["E"] = 1 / S["t"]; S["S"] = S["eta"] / S["t"]; S["m"] = S["S"] * S["L"] * S["t"]**2
    S["rho"] = S["m"] / S["L"]**3; S["J"] = S["m"] * S["L"]**2 / S["t"]**2; S["W"] = S["J"] / S["t"]; S["Cp"] = S["J"] / S["m"] / S["T"]; S["k"] = S["W"] / S["L"] / S["T"]; S["pi"] = math.pi
    want = {}
    for s, f, kind, key, d, u in GLOB:
        x = g.get(key)
        want[s + "." + f] = (x if x is not None else d) if kind == "s" else atoi(x) if x is not None and kind == "i" else (float(x) if x is not None else d)
        if kind == "d":
            w = want[s + "." + f] + (273.15 if key in ("Tmin", "Tmax") else 0)
            want[s + "." + f] = w / eval(u, {}, S)
    w = want
    # consequences
    if w["model.istep"] == 0: w["model.irestart"] = 0
    w["model.periodic_x"] = {0: 0, 1: 1}.get(w["model.shear_style"], w["model.periodic_x"])
    if w["model.anisotropy"] == 1: w["model.finite_strain"] = 1
    if w["model.Newton"] == 0: w["Nmodel.Picard2Newton"] = 0
    if w["model.Newton"] == 1: w["model.line_search"] = 1
    if w["model.lin_solver"] == 0 or w["model.Newton"] == 1 or w["model.anisotropy"] == 1: w["model.lin_solver"] = 2
    nx, nz = w["model.Nx"], w["model.Nz"]
    w["model.dx"] = (w["model.xmax"] - w["model.xmin"]) / (nx - 1); w["model.dz"] = (w["model.zmax"] - w["model.zmin"]) / (nz - 1)
    w["model.dt0"] = w["model.dt_start"] = w["model.dt"]
    for x in ("xmin", "xmax", "zmin", "zmax"):
        w["model.%s0" % x] = w["model." + x]
    w["model.Nb_phases"] = len(ph)
    w["particles.Nb_part"] = (nx - 1) * (nz - 1) * w["particles.Nx_part"] * w["particles.Nz_part"]
    for k, q in ph.items():
        raw = {}
        for s, f, kind, key, d, u in MAT:
            x = q.get(key)
            raw[f] = (atoi(x) if kind == "i" else float(x)) if x is not None else (raw[d] if isinstance(d, str) and d in raw else k if d == "k" else d)
            w["materials." + f, k] = raw[f] / eval(u, {}, S) if kind != "i" else raw[f]
        w["materials.k_eff", k] = w["materials.k", k]; w["materials.T0", k] = 273.15 / S["T"]; w["materials.P0", k] = 1e5 / S["S"]
    n = 0
    for f, x in w.items():
        got = v.get(f)
        if isinstance(x, str):
            ok = str(got) == x or isinstance(got, float) and float(x) == got
        else:
            ok = got is not None and not isinstance(got, str) and (got == x or abs(got - x) <= 1e-11 * abs(x) or not math.isfinite(x))
        require(ok, "%s is %s instead of %s (file: %s)" % (f, got, x, g.get(str(f).split(".")[-1]) if isinstance(f, str) else ph[f[1]].get(f[0].split(".")[1])))
    n = len(g) + sum(len(q) for q in ph.values())
    return (n > 60, len(ph) > 2, c["nl"], c["crlf"], [k for k, _ in c["ph"]] != sorted(ph)) if n >= 5 else None


@st.composite
def edited(draw):
    c = draw(files())
    ops = draw(st.lists(st.tuples(st.integers(0, 8), st.floats(0, 1), st.floats(0, 1)), min_size=1, max_size=6))
    return dict(c=c, ops=ops)


JUNK = [b"ID = 0", b"ID =", b"ID", b"=", b"=====", b"Nx", b"Nx =", b"rho =", b"\x00\x01\xff", b"A" * 2500, b"writer_subfolder = " + b"w" * 3000, b"import_file =", b"import_file", b"Nb_phases = 21", b"Nb_phases = 4000", b"Nb_phases = -5", b"ID = 7", b"writer_subfolder=", b" ", b"density_model = 4", b"density_model = 2", b"phase_diagram = 99", b"pwlv = 999", b"pwlv = 10", b"ID\t= 1", b"initial_markers_file ="]


def robust(c):
    a = text(make(c["c"])).encode(); t = a
    for op, x, y in c["ops"]:
        L = t.split(b"\n"); i = int(x * len(L)) % len(L); j = int(y * len(t)) if t else 0
        if op == 0: del L[i]; t = b"\n".join(L)
        elif op == 1: L.insert(i, JUNK[int(y * len(JUNK)) % len(JUNK)]); t = b"\n".join(L)
        elif op == 2: t = t[:j]
        elif op == 3: t = t[:j] + bytes([int(x * 255)]) + t[j:]
        elif op == 4: t = t[:j] + t[j + 1 + int(x * 5):]
        elif op == 5: L.insert(i, L[int(y * len(L)) % len(L)]); t = b"\n".join(L)
        elif op == 6: t = t[:j] + t[j:].replace(b"\n", b" ", 1)
        elif op == 7: t = t[:j] + t[j:].replace(b"=", b"", 1)
        else: t = t.replace(b" ", b"", int(x * 4))
        if not t:
            break
    rc, log, v = read(t, "addr")
    m = re.search(r"AddressSanitizer: [\w-]+", log)
    f = re.findall(r"in (\w+) [^ ]*MDLIB", log)
    require(m is None and rc >= 0, "reading an edited setup file: %s in %s" % (m.group() if m else "signal %s" % rc, f[:2]))
    return (rc, len(c["ops"])) if t != a else None


PARTS = [Part("values", files(), chk, 1500, 20000), Part("robust", edited(), robust, 1200, 20000)]
