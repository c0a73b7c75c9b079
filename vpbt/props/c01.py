"""C01 restart equivalence"""
import os, shutil, tempfile
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require

ID = "C01"
RULE = ("random histories combining heat, elasticity, plasticity, compressibility, free surface, anisotropy, finite strain, melting, diffusion, marker tracking, box deformation, periodic shear, adaptive steps, reseeding; "
        "run uninterrupted, and again from one of the breakpoint files it left (or from the last breakpoint of a shorter run, with a larger number of steps); every dataset of every later grid and marker file, and the later breakpoints, have to agree; "
        "non-trivial: the restarted run redid at least one step")
ASSUMPTIONS = ["agreement to 2e-4 of the range of a field (breakpoints hold dimensional doubles, outputs are float32, nonlinear iterations stop at 1e-9)"]
SKIP = ("Iterations/",)
TOL = 2e-4
MECH = ("OverS", "sxx", "szz", "sxz", "Tii", "strain", "eta", "eII", "divu_", "VE_", "Work", "Uel")


def floor(k, p):
    """what counts as zero for a dataset: differences far below the level of the run are rounding"""
    e = max(abs(p["bkg_strain_rate"]), abs(p.get("bkg_div_rate", 0.0))) or 1e-20
    W = p["xmax"] - p["xmin"]
    n = k.split("/")[-1]
    if n.startswith(("divu", "exx", "ezz", "exz", "eII", "Eii")):
        return e
    if n.startswith(("sxx", "szz", "sxz", "P", "Tii", "OverS")) and not n.startswith("Params"):
        return 1e-2 * e * p["max_eta"]
    if n.startswith(("Vx", "Vz", "vx", "vz")):
        return e * W
    if n.startswith("strain"):
        return e * p["dt"]
    if n in ("x", "z", "x0", "z0") or "z_" in n or "height" in n:
        return W
    if n in ("Fxx", "Fxz", "Fzx", "Fzz"):
        return 0.1
    if n == "Uthermal_time":
        return 1e6 * W * (p["zmax"] - p["zmin"])
    if n == "Short_time":
        return e * p["dt"]
    if n in ("nx", "nz", "X", "phi"):
        return 0.1
    return 0.0


def nudge(c):
    """the same case with a step 1e-8 longer and slightly other code units: all round-off differs"""
    p = c["p"]
    return dict(c, p=dict(p, dt=p["dt"] * (1 + 1e-8), L=p["L"] * 1.0123, V=p["V"] * 0.987, eta=p["eta"] * 1.017, T=p["T"] * 0.979))


def differ(a, b, what, p, tol=TOL):
    """first dataset that disagrees"""
    inbox = p["xmin"], p["xmax"]
    if set(a) != set(b):
        return "%s: datasets differ: %s" % (what, sorted(set(a) ^ set(b))[:4])
    for k in sorted(a):
        if k.startswith(SKIP):
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return "%s: %s has %d instead of %d values" % (what, k, y.size, x.size)
        if x.dtype.kind != "f":
            if not np.array_equal(x, y):
                return "%s: %s differs in %d of %d values" % (what, k, int((x != y).sum()), x.size)
            continue
        if not x.size:
            continue
        ok = np.isfinite(x)
        if not np.array_equal(ok, np.isfinite(y)):
            return "%s: %s is not finite in one of the runs" % (what, k)
        if k.startswith("Topo") and k.split("/")[0] + "/x" + ("_mark" if k.endswith("_mark") else "") in a:   # surface markers that left the box are spent
            xx = a[k.split("/")[0] + "/x" + ("_mark" if k.endswith("_mark") else "")]
            if xx.shape == x.shape:
                ok &= (xx > inbox[0]) & (xx < inbox[1])
        if k in ("Particles/sxxd", "Particles/szzd", "Particles/sxz") and not p.get("elastic"):
            continue
        if not p.get("mechanical", 1) and k.split("/")[-1].startswith(MECH):     # without the mechanical solver nothing evaluates stresses and viscosities
            continue
        if not ok.any():
            continue
        s = max(np.abs(x[ok]).max(), floor(k, p))
        e = np.abs(x - y)[ok].max()
        if e > tol * s:
            i = int(np.argmax(np.where(ok, np.abs(x - y), 0)))
            return "%s: %s[%d] = %.8g instead of %.8g (largest value %.4g)" % (what, k, i, y[i], x[i], s)
    return None


@st.composite
def cases(draw):
    c = draw(world.world(lo=7, hi=13, nt=(2, 5), prob=draw(st.sampled_from([2, 3, 5]))))
    c["p"]["delete_breakpoints"] = draw(st.sampled_from([0, 1, 1, -1]))
    c["p"]["writer_step"] = draw(st.sampled_from([1, 1, 1, 2]))
    c["k"] = draw(st.integers(1, 4)); c["extend"] = draw(gen.flag)
    return c


def chk(c):
    p = c["p"]; n = p["Nt"]; ws = p["writer_step"]
    k = min(c["k"], n - 1) // ws * ws
    if k < 1:
        return None
    A = mdz.run(c)
    dirs = [A.dir]
    try:
        if not A.ok():
            raise Inconclusive("run gave up")
        src = A.dir
        if c["extend"] or p["delete_breakpoints"] == -1:        # a shorter run, continued
            c1 = dict(c, p=dict(p, Nt=k))
            A1 = mdz.run(c1); dirs.append(A1.dir)
            require(A1.ok(), "the first %d steps alone fail" % k)
            src = A1.dir
        name = "BreakpointXXXXX.dat" if p["delete_breakpoints"] == -1 else "Breakpoint%05d.dat" % k
        if not os.path.exists(os.path.join(src, name)):
            require(p["delete_breakpoints"] == 1 and src is A.dir and k < n - ws, "breakpoint of step %d is missing" % k)
            return None
        c2 = dict(c, p=dict(p, istep=k, irestart=1))
        d = tempfile.mkdtemp(dir=mdz.scratch_root()); dirs.append(d)
        shutil.copy(os.path.join(src, name), d)
        B = mdz.run(c2, d=d)
        require(B.ok(), "the restarted run fails: rc=%s %s" % (B.rc, B.log[-300:]))
        require(B.steps() == [j for j in A.steps() if j > k], "the restarted run wrote steps %s, the uninterrupted one %s" % (B.steps(), A.steps()))
        for j in B.steps():
            m = differ(A.out(j), B.out(j), "restart from %d, step %d" % (k, j), p) or differ(A.particles(j), B.particles(j), "restart from %d, markers of step %d" % (k, j), p)
            if m:
                # control: is the history itself stable enough to be compared?  (unconverged plastic steps amplify rounding)
                Z = mdz.run(nudge(c)); dirs.append(Z.dir)
                if not Z.ok() or Z.steps() != A.steps() or differ(A.out(j), Z.out(j), "", p) or differ(A.particles(j), Z.particles(j), "", p):
                    raise Inconclusive("history amplifies a relative change of 1e-8")
                raise Violation(m)
        return (n - k, c["extend"]) if B.steps() else None
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("restart", cases(), chk, 220, 3000)]
