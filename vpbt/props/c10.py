"""C10 mirror and axis-swap symmetry"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from . import c09
from .c01 import differ
from .c02 import converged

ID = "C10"
RULE = ("random histories combining all features of the shared world generator, and their mirror image (x -> -x: box, phases, fields, sides, surface, directors, sense of shear), "
        "or, without gravity and surface, the same body with both axes exchanged; every field of the output has to be the image of the other one; non-trivial: both runs ended")
ASSUMPTIONS = ["agreement to 2e-4 of the range of a field; histories that amplify a relative change of 1e-8, or do not converge, are not judged; phase maps, markers and iteration counts are not compared"]
NEG = ("Vx", "exz", "sxz", "Fxz", "Fzx", "x0", "sxz_mean_time", "exz_mean_time", "wxz")


def line(l, kind):
    t = l.split()
    n = lambda v: "%.15g" % v
    if kind == "mirror":
        sw = {"W": "E", "E": "W"}
    else:
        sw = {"W": "S", "S": "W", "E": "N", "N": "E"}
    if t[0] in ("bct", "bcc"):
        return " ".join([t[0], sw.get(t[1], t[1])] + t[2:])
    if t[0] != "f":
        return l
    name, prim, a = t[1], t[2], [float(v) for v in t[3:]]
    if name[:3] in ("bct", "bcc"):
        name = name[:3] + sw.get(name[3], name[3])
    if kind == "mirror":
        if prim == "lin":
            a[1] = -a[1]
        elif prim == "gauss":
            a[1] = -a[1]
        elif prim == "box":
            a[1], a[2] = -a[2], -a[1]
        elif prim == "ell":
            a[1], a[5] = -a[1], -a[5]
        elif prim != "const":
            raise ValueError(l)
        if name == "Txz":
            a[0] = -a[0]
    else:
        if prim == "lin":
            a[1], a[2] = a[2], a[1]
        elif prim == "gauss":
            a[1], a[2] = a[2], a[1]
        elif prim == "box":
            a = [a[0], a[3], a[4], a[1], a[2]]
        elif prim == "ell":
            a = [a[0], a[2], a[1], a[4], a[3], -a[5]]
        elif prim != "const":
            raise ValueError(l)
        name = {"Txx": "Tzz", "Tzz": "Txx"}.get(name, name)
    return " ".join(["f", name, prim] + [n(v) for v in a])


def image(c, kind):
    p = dict(c["p"])
    if kind == "mirror":
        p.update(xmin=-p["xmax"], xmax=-p["xmin"])
        if p.get("shear_style"):
            p["bkg_strain_rate"] = -p["bkg_strain_rate"]
        ang = lambda a: -a
    else:
        p.update(Nx=p["Nz"], Nz=p["Nx"], xmin=p["zmin"], xmax=p["zmax"], zmin=p["xmin"], zmax=p["xmax"], bkg_strain_rate=-p["bkg_strain_rate"], Nx_part=p["Nz_part"], Nz_part=p["Nx_part"])
        ang = lambda a: 90 - a
    ph = [dict(q, aniso_angle=ang(q["aniso_angle"])) if "aniso_angle" in q and p.get("anisotropy") else q for q in c["ph"]]
    return dict(c, p=p, ph=ph, sc=[line(l, kind) for l in c["sc"]])


SHAPES = {"Centers": (0, 0), "Vertices": (1, 1), "VxNodes": (2, 1), "VzNodes": (1, 2)}      # rows, columns beyond the number of cells
SWAP = {"exxd": "ezzd", "ezzd": "exxd", "sxxd": "szzd", "szzd": "sxxd", "Fxx": "Fzz", "Fzz": "Fxx", "Fxz": "Fzx", "Fzx": "Fxz", "x0": "z0", "z0": "x0", "sxxd_mean_time": "szzd_mean_time", "szzd_mean_time": "sxxd_mean_time",
        "exxd_mean_time": "ezzd_mean_time", "ezzd_mean_time": "exxd_mean_time"}


def grids(o, p, kind=None):
    """fields of an output (or of the image of an output) as they compare"""
    r = {}
    ncx, ncz = p["Nx"] - 1, p["Nz"] - 1
    for k, v in o.items():
        g, n = k.split("/", 1)
        if g in SHAPES:
            if v.dtype.kind != "f":
                continue
            dz, dx = SHAPES[g]
            a = v.reshape(ncz + dz, ncx + dx)
        elif g == "TimeSeries" or k in ("Topo/z_grid", "Topo/Vx_grid", "Topo/Vz_grid"):
            a = v
        else:
            continue
        if n in ("nx", "nz"):
            continue
        m = n
        if kind == "mirror":
            a = a[..., ::-1] if g != "TimeSeries" else a
            if n in NEG or n == "Vx_grid":
                a = -a
        elif kind == "swap":
            if g in SHAPES:
                a = a.T
                g = {"VxNodes": "VzNodes", "VzNodes": "VxNodes"}.get(g, g)
                m = {"Vx": "Vz", "Vz": "Vx"}.get(n, SWAP.get(n, n))
                if n == "wxz":
                    a = -a
            else:
                m = SWAP.get(n, n)
                if n == "Short_time":
                    continue
        r[g + "/" + m] = np.ascontiguousarray(a).ravel()
    if "Centers/nx" in o:                                       # directors have no sign
        x, z = (o["Centers/" + n].reshape(ncz, ncx) for n in ("nx", "nz"))
        q, s = x * z, x * x - z * z
        if kind == "mirror":
            q, s = -q[:, ::-1], s[:, ::-1]
        elif kind == "swap":
            q, s = q.T, -s.T
        r["Centers/nx"], r["Centers/nz"] = q.ravel(), s.ravel()   # names that have a floor
    if kind == "swap" or kind == "ref-swap":
        r.pop("TimeSeries/Short_time", None)
    return r


def judge(kind):
    def chk(c):
        p = c["p"]; c2 = image(c, kind); p2 = c2["p"]
        A = mdz.run(c); B = mdz.run(c2)
        try:
            if (A.ok() or mdz.gave_up(A)) and (B.ok() or mdz.gave_up(B)) and not (A.ok() and B.ok()):
                raise Inconclusive("solver gave up")
            require(A.ok() == B.ok(), "one of the two runs ends, the other does not (%s, %s): %s" % (A.rc, B.rc, (B if A.ok() else A).log[-300:]))
            if not A.ok():
                raise Inconclusive("run gave up")
            require(A.steps() == B.steps(), "steps %s and %s" % (A.steps(), B.steps()))
            ref = lambda r, j: grids(r.out(j), p, "ref-swap" if kind == "swap" else None)
            for j in A.steps():
                m = differ(ref(A, j), grids(B.out(j), p2, kind), "%s image, step %d" % (kind, j), p)
                if m:
                    if p.get("mechanical", 1) and any(not converged(r.out(i), q) for r, q in ((A, p), (B, p2)) for i in A.steps() if 0 < i <= j):
                        raise Inconclusive("not converged")
                    for sg in (1, -1):
                        Z = mdz.run(c09.soft(c, sg))
                        try:
                            if not Z.ok() or Z.steps() != A.steps() or any(differ(ref(A, i), ref(Z, i), "", p) for i in A.steps() if i <= j):
                                raise Inconclusive("history amplifies a relative change of 1e-8")
                        finally:
                            Z.free()
                    raise Violation(m)
            return len(A.steps())
        finally:
            A.free(); B.free()
    return chk


@st.composite
def mirror_cases(draw):
    fe = [f for f in world.ALL if f != "nomech"]              # the velocities of a run without mechanical solver are those of pure shear
    return tidy(draw(world.world(feats=fe, lo=7, hi=13, nt=(1, 3), prob=draw(st.sampled_from([2, 3, 5])))))


@st.composite
def swap_cases(draw):
    fe = [f for f in world.ALL if f not in ("gravity", "freesurf", "simple")]
    return tidy(draw(world.world(feats=fe, lo=7, hi=13, nt=(1, 3), prob=draw(st.sampled_from([2, 3, 5])))))


def tidy(c):
    c["p"].update(writer_step=1, delete_breakpoints=-1, Nx_part=4, Nz_part=4)
    if c["p"].get("anisotropy"):
        for q in c["ph"]:
            q.update(cstv=1, pwlv=0)
    return c


PARTS = [Part("mirror", mirror_cases(), judge("mirror"), 200, 3000), Part("swap", swap_cases(), judge("swap"), 200, 3000)]
