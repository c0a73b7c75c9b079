"""C09 results do not depend on the code units (scaling section of the input file)"""
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from .c01 import differ
from .c02 import converged

ID = "C09"
RULE = ("random histories combining all features of the shared world generator, run with two sets of code units (viscosity, length, velocity and temperature scales up to 3 orders of magnitude apart); "
        "every dataset of every output and marker file has to agree; non-trivial: both runs ended and the units differ by a factor of 2 at least")
ASSUMPTIONS = ["absolute tolerances of the solver are quantities in code units and converted", "agreement to 2e-4 of the range of a field; histories that amplify a relative change of 1e-8 of step, viscosities and rates are not judged"]


@st.composite
def cases(draw):
    c = draw(world.world(lo=7, hi=13, nt=(1, 3), prob=draw(st.sampled_from([2, 3, 5]))))
    c["p"].update(writer_step=1, delete_breakpoints=-1, Nx_part=4, Nz_part=4)      # odd numbers put markers on the limits of staggered cells: ties
    if c["p"].get("anisotropy"):                  # no viscosity limits there: cold power laws are unbounded
        for q in c["ph"]:
            q.update(cstv=1, pwlv=0)
    c["units"] = [float("%.4g" % draw(gen.logn(-1.5, 1.5))) for _ in range(3)] + [float("%.4g" % draw(gen.logn(-1, 1)))]
    return c


def soft(c, s):
    """the same physics with 1e-8 of change in step, rates, viscosities and box: all round-off differs"""
    p = c["p"]
    box = {k: p[k] * (1 + s * 1e-9) for k in ("xmin", "xmax", "zmin", "zmax")}
    ph = [dict(q, eta0=q["eta0"] * (1 + s * 1e-8), rho=q["rho"] * (1 + s * 1e-8)) for q in c["ph"]]
    return dict(c, p=dict(p, dt=p["dt"] * (1 + s * 1e-8), bkg_strain_rate=p["bkg_strain_rate"] * (1 + s * 1e-8), **box), ph=ph)


def fields(o):
    """phase maps take the phase of the nearest marker: ties are broken by round-off"""
    return {k: v for k, v in o.items() if not k.startswith("VizGrid/compo")}


def compare(A, B, p, what, control, pB=None):
    if (A.ok() or mdz.gave_up(A)) and (B.ok() or mdz.gave_up(B)) and not (A.ok() and B.ok()):
        raise Inconclusive("solver gave up")
    require(A.ok() == B.ok(), "%s: one run ends, the other does not (%s, %s): %s" % (what, A.rc, B.rc, (B if A.ok() else A).log[-300:]))
    if not A.ok():
        raise Inconclusive("run gave up")
    require(A.steps() == B.steps(), "%s: steps %s and %s" % (what, A.steps(), B.steps()))
    for j in A.steps():
        m = differ(fields(A.out(j)), fields(B.out(j)), "%s, step %d" % (what, j), p) or differ(A.particles(j), B.particles(j), "%s, markers of step %d" % (what, j), p)
        if m:
            if p.get("mechanical", 1) and any(not converged(r.out(i), q) for r, q in ((A, p), (B, pB or p)) for i in A.steps() if 0 < i <= j):
                raise Inconclusive("not converged: the path of the line search mixes residuals of different units")
            for sg in (1, -1):
                Z = mdz.run(control(sg))
                try:
                    if not Z.ok() or Z.steps() != A.steps() or any(differ(fields(A.out(i)), fields(Z.out(i)), "", p) or differ(A.particles(i), Z.particles(i), "", p) for i in A.steps() if i <= j):
                        raise Inconclusive("history amplifies a relative change of 1e-8")
                finally:
                    Z.free()
            raise Violation(m)


def other(c):
    """the case in the other code units"""
    p = c["p"]; u = c["units"]
    q = dict(p, eta=p["eta"] * u[0], L=p["L"] * u[1], V=p["V"] * u[2], T=p["T"] * u[3])
    m, d = u[0] * u[2], u[2] * u[1]              # absolute tolerances: code units of stress x length and velocity x length
    q.update({k: p[k] / f for f, ks in ((m, ("nonlin_abs_mom", "lin_abs_mom")), (d, ("nonlin_abs_div", "lin_abs_div"))) for k in ks})
    return dict(c, p=q)


def chk(c):
    p = c["p"]; u = c["units"]
    c2 = other(c)
    A = mdz.run(c); B = mdz.run(c2)
    try:
        compare(A, B, p, "other units", lambda s: soft(c, s), c2["p"])
        return len(A.steps()) if max(max(x, 1 / x) for x in u) > 2 else None
    finally:
        A.free(); B.free()


PARTS = [Part("units", cases(), chk, 400, 4000)]
