"""C20 determinism: same input, same result"""
import numpy as np
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require
from .c01 import differ, nudge

ID = "C20"
VARIANTS = ("zero", "pattern", "omp")
RULE = ("random histories combining all features of the shared world generator, each run twice: with uninitialised memory filled with zeros / with a pattern (results have to be bit-identical), "
        "or with one / several OpenMP threads (markers identical in number and phase, fields equal to 2e-4 of their range); non-trivial: the history ran to its end in both")
ASSUMPTIONS = ["uninitialised automatic variables are filled by the compiler (-ftrivial-auto-var-init), heap memory by glibc (MALLOC_PERTURB_)", "thread schedules are whatever the machine does; thread counts 2 to 8"]


def hist(draw, lo, hi, n):
    c = draw(world.world(lo=lo, hi=hi, nt=n, prob=draw(st.sampled_from([2, 3, 5]))))
    c["p"].update(writer_step=1, delete_breakpoints=-1)
    return c


@st.composite
def mem_cases(draw):
    return hist(draw, 6, 13, (1, 3))


@st.composite
def thr_cases(draw):
    c = hist(draw, 8, 21, (1, 3))
    c["threads"] = draw(st.integers(2, 8))
    return c


def bits(a, b, what):
    require(set(a) == set(b), "%s: different datasets" % what)
    for k in sorted(a):
        x, y = a[k], b[k]
        if x.shape == y.shape and x.tobytes() == y.tobytes():
            continue
        require(x.shape == y.shape, "%s: %s has %d and %d values" % (what, k, x.size, y.size))
        if x.dtype.kind == "f" and np.array_equal(np.isnan(x), np.isnan(y)) and np.array_equal(x[~np.isnan(x)], y[~np.isnan(y)]):
            continue
        i = int(np.argmax(np.where(np.isnan(x) | np.isnan(y), np.isnan(x) != np.isnan(y), x != y)))
        raise Violation("%s: %s[%d] = %r and %r, depending on what memory held before" % (what, k, i, x.flat[i], y.flat[i]))


def mem(c):
    A = mdz.run(c, variant="zero", env={"MALLOC_PERTURB_": "0"})
    B = mdz.run(c, variant="pattern", env={"MALLOC_PERTURB_": "85"})
    try:
        require(A.ok() == B.ok(), "fails or not (%s, %s) depending on what memory held before: %s" % (A.rc, B.rc, (B if A.ok() else A).log[-200:]))
        if not A.ok():
            raise Inconclusive("run gave up")
        require(A.steps() == B.steps(), "steps %s and %s" % (A.steps(), B.steps()))
        for j in A.steps():
            bits(A.out(j), B.out(j), "step %d" % j)
            bits(A.particles(j), B.particles(j), "markers of step %d" % j)
        return len(A.steps())
    finally:
        A.free(); B.free()


def thr(c):
    p = c["p"]
    A = mdz.run(c, variant="omp")
    B = mdz.run(c, variant="omp", env={"OMP_NUM_THREADS": str(c["threads"]), "OMP_WAIT_POLICY": "passive"}, mem_mb=16000)
    Z = None
    try:
        if A.ok() and B.ok():
            m = None
            for j in A.steps():
                m = m or differ(A.out(j), B.out(j), "%d threads, step %d" % (c["threads"], j), p) or differ(A.particles(j), B.particles(j), "%d threads, markers of step %d" % (c["threads"], j), p)
            if m is None:
                return len(A.steps()), c["threads"]
        elif not A.ok() and not B.ok():
            raise Inconclusive("run gave up")
        else:
            m = "succeeds or fails (%s, %s) depending on the number of threads: %s" % (A.rc, B.rc, (B if A.ok() else A).log[-200:])
        Z = mdz.run(nudge(c), variant="omp")
        if Z.ok() != A.ok() or any(differ(A.out(j), Z.out(j), "", p) or differ(A.particles(j), Z.particles(j), "", p) for j in A.steps()):
            raise Inconclusive("history amplifies a relative change of 1e-8")
        raise Violation(m)
    finally:
        A.free(); B.free()
        if Z: Z.free()


PARTS = [Part("memory", mem_cases(), mem, 200, 2500), Part("threads", thr_cases(), thr, 150, 3000)]
