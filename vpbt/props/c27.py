"""C27 phase transmutation of markers at a temperature"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from . import c31

ID = "C27"
RULE = ("random bodies of two to four phases, some of which turn into others above or below a temperature, with conduction between hot and cold sides, heat sources, flow, reseeding and a free surface, two to five steps; the phase of every marker is predicted from its phase and temperature in the previous output; "
        "non-trivial: at least one marker changed phase and one stayed by its temperature")
ASSUMPTIONS = ["markers within 0.01 K of the temperature, or new ones, are not compared"]
FE = ("thermal", "gravity", "compressible", "simple", "freesurf", "elastic", "noise", "density", "power", "advection")


def check(c):
    p = c["p"]
    r = mdz.run(c)
    try:
        if not r.ok():
            if mdz.gave_up(r) or "simulation will stop" in r.log or "Exiting" in r.log or "Are you crazy" in r.log:
                raise Inconclusive("the run stopped with a message")
            raise Violation("run failed (%s): %s" % (r.rc, r.log[-300:]))
        sign = np.array([q.get("transmutation", 0) for q in c["ph"]]); to = np.array([q.get("transmutation_phase", 1) for q in c["ph"]]); Tt = np.array([q.get("transmutation_temperature", 0.0) for q in c["ph"]])
        prev = None; done = set()
        for k in r.steps():
            m = r.particles(k)
            if k:
                same = c31.follow(r, p, k, prev, m)
                N = len(prev["Particles/phase"]); s = same[:N]
                ph, T = prev["Particles/phase"][s], prev["Particles/T"][s].astype(float)
                got = m["Particles/phase"][:N][s]
                go = ((sign[ph] == 1) & (T >= Tt[ph])) | ((sign[ph] == -1) & (T <= Tt[ph]))
                want = np.where(go, to[ph], ph)
                sure = (sign[ph] == 0) | (abs(T - Tt[ph]) > 0.01)
                bad = sure & (got != want)
                if bad.any():
                    i = int(np.argmax(bad)); raise Violation("step %d: marker of phase %d at %.6g K is now of phase %d instead of %d (rule %d at %.6g K to %d)" % (k, ph[i], T[i], got[i], want[i], sign[ph[i]], Tt[ph[i]], to[ph[i]]))
                if go.any():
                    done.add(1)
                if ((sign[ph] != 0) & ~go).any():
                    done.add(0)
            prev = m
        return tuple(sorted(int(s) for s in set(sign.tolist()))) + (p["Nt"], len(c["ph"])) if len(done) == 2 else None
    finally:
        r.free()


@st.composite
def cases(draw):
    c = draw(c31.cases(force=("thermal", "noise") if draw(gen.flag) else ("thermal",)))
    p = c["p"]; p.pop("track_T_P_x_z", None)
    while len(c["ph"]) < 2:
        c["ph"].append(dict(c["ph"][0]))
    n = len(c["ph"])
    T = [float(l.split()[3]) for l in c["sc"] if l.startswith("f T lin")][0]
    dT = [abs(float(l.split()[3])) for l in c["sc"] if l.startswith("f T gauss")]
    dT = max(dT[0] if dT else 0, 20)
    sg = [float(l.split()[3]) for l in c["sc"] if l.startswith("f T gauss")]
    up = (sg[0] if sg else 0) >= 0
    any_ = False
    for q in c["ph"]:
        s = draw(st.sampled_from([0, 1, -1]))
        if s or not any_:
            s = s or 1; any_ = True
            q.update(transmutation=s, transmutation_phase=draw(st.integers(0, n - 1)), transmutation_temperature=float("%.6g" % (T + dT * draw(gen.num(-0.3, 0.9)) * (1 if up else -1))))
    return c


PARTS = [Part("transmutation", cases(), check, 800, 10000)]
