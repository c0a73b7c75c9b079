"""C19 choice of the time step, run length, output rhythm"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require

ID = "C19"
RULE = ("(steps) random worlds with random Courant number, step limits, reaction limit and output rhythm, constant or adaptive step: every step and time written is recomputed from the velocities of the step before; "
        "(maxwell) elastic one-phase bodies: the first step is at most the Maxwell time; non-trivial: at least two steps compared and, if adaptive, at least one step differs from the first")
ASSUMPTIONS = ["float32 output: 1e-5 relative", "safe_mode (repetition of a failed step with a smaller one) is off"]


def vmax(o):
    return max(np.nanmax(np.abs(o.vx())), np.nanmax(np.abs(o.vz())))


def expected(p, o, sc):
    """the step that follows output o"""
    q = o.params(); dt0 = q[7]
    if p["constant_dt"]:
        return float(p["dt"])
    v = vmax(o)
    dt = p["Courant"] * min(q[5], q[6]) / v if v > 0 else 1e300
    dt = min(dt, (1.25 if p.get("elastic") else 2.0) * dt0)
    if p.get("surface_processes") and p.get("surf_Vinc"):
        dt = min(dt, p["Courant"] * min(q[5], q[6]) / abs(p["surf_Vinc"]))
    if p.get("chemical_diffusion") and p.get("user1", 0) > 0:
        dt = min(dt, p["user1"] / p.get("dt_reduction_factor", 1))
    if v * 1 < 1e-30 * p["V"]:
        dt = float(p["dt"])
    return max(min(dt, p.get("dt_max", 1e20)), p.get("dt_min", -1e20))


def steps(c):
    p = c["p"]; every = p["writer_step"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "Are you crazy" in r.log:
                raise Inconclusive("gave up")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        ks = r.steps(); N = p["Nt"]
        require(ks == [k for k in range(N + 1) if k % every == 0], "%d steps with writer_step %d gave outputs %s" % (N, every, ks))
        q = r.out(0).params(); require(q[0] == 0, "first output has time %g" % q[0])
        if not p.get("elastic") or p["constant_dt"]:
            require(abs(q[7] - p["dt"]) <= 1e-6 * p["dt"], "initial step %.8g instead of %.8g" % (q[7], p["dt"]))
        n, other = 0, False
        for k0, k in zip(ks, ks[1:]):
            a, b = r.out(k0), r.out(k); q, q0 = b.params(), a.params()
            if p["constant_dt"] or k - k0 == 1:
                require(abs(q[0] - q0[0] - (k - k0) * q[7]) <= 2e-6 * q[0], "step %d: time grows by %.8g in %d step(s) of %.8g" % (k, q[0] - q0[0], k - k0, q[7]))
            if k - k0 == 1:
                w = expected(p, a, c["sc"])
                require(abs(q[7] - w) <= 2e-5 * abs(w), "step %d is %.8g s instead of %.8g" % (k, q[7], w))
                n += 1; other |= abs(w - p["dt"]) > 1e-3 * p["dt"]
            ts = b.get("TimeSeries/Time_time")
            if ts is not None and len(ts) >= k + 1:
                require(abs(ts[k] - q[0]) <= 2e-6 * q[0], "step %d: time %.8g in the time series, %.8g in the output" % (k, ts[k], q[0]))
        return (p["constant_dt"], n > 1, other) if n and (other or p["constant_dt"]) else None
    finally:
        r.free()


@st.composite
def step_cases(draw):
    c = draw(world.world(feats=("thermal", "elastic", "compressible", "gravity", "freesurf", "chem", "power", "ale", "simple", "adaptive", "heat"), lo=6, hi=11, nt=(2, 5), prob=4, adv=1))
    p = c["p"]
    p.update(constant_dt=0 if draw(st.integers(0, 4)) else 1, Courant=draw(st.sampled_from([0.05, 0.1, 0.3, 0.5])), dt=float("%.3g" % (draw(gen.logn(-3.5, -1.5)) / world.e0)), delete_breakpoints=-1, writer_step=draw(st.sampled_from([1, 1, 1, 2, 3])))
    t = 0.3 * 0.05 / world.e0
    if draw(st.integers(0, 2)) == 0:
        p["dt_max"] = float("%.3g" % (t * draw(gen.logn(-1.5, 0.5))))
    if draw(st.integers(0, 3)) == 0:
        p["dt_min"] = float("%.3g" % (min(p.get("dt_max", 1e30), t) * draw(gen.logn(-2, -0.1))))
    if p.get("chemical_diffusion") and draw(gen.flag):
        p["user1"] = float("%.3g" % (t * draw(gen.logn(-1, 1)))); p["dt_reduction_factor"] = draw(gen.num(1, 5, 1))
    if p.get("free_surface") and draw(gen.flag):
        p.update(surface_processes=1, surf_diff=1e-6, surf_Vinc=float("%.3g" % draw(gen.logn(-10.5, -9))))
    if p["writer_step"] > 1:
        p["writer_markers"] = 0
    return c


def maxwell(c):
    p, q = c["p"], c["ph"][0]
    r = mdz.run(c)
    try:
        if not r.ok():
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        w = p["dt"] if p["constant_dt"] else min(p["dt"], q["eta0"] / q["G"])
        got = r.out(0).params()[7]
        require(abs(got - w) <= 1e-4 * w, "initial step %.6g instead of %.6g (Maxwell time %.6g)" % (got, w, q["eta0"] / q["G"]))
        return w < 0.99 * p["dt"]
    finally:
        r.free()


@st.composite
def maxwell_cases(draw):
    b = draw(gen.box(5, 8)); e, E = world.e0, world.E0
    q = dict(eta0=float("%.4g" % (E * draw(gen.logn(-1, 1)))), G=float("%.4g" % draw(gen.logn(9.5, 11))), rho=3000.0)
    p = dict(gen.scaled_box(b, world.L0), **gen.code_units(draw(st.sampled_from(gen.CODE_UNITS[1:3]))), bkg_strain_rate=e, min_eta=E * 1e-4, max_eta=E * 1e3, Nt=1, nit_max=2, elastic=1, constant_dt=draw(gen.flag) and draw(gen.flag),
             lin_solver=2, Nx_part=3, Nz_part=3, dt=float("%.4g" % (q["eta0"] / q["G"] * draw(gen.logn(-1, 1)))))
    return mdz.case(p, [q], ["bc pure", "f phase const 0"])


PARTS = [Part("steps", step_cases(), steps, 320, 5000), Part("maxwell", maxwell_cases(), maxwell, 60, 600)]
