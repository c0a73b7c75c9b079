"""C25 memory safety"""
import re
from hypothesis import strategies as st
from .. import gen, mdz, world
from ..engine import Inconclusive, Part, Violation, require

ID = "C25"
VARIANTS = ("asan",)
RULE = ("random histories combining all features of the shared world generator, and restarts from their breakpoints, run in a build with address and undefined-behaviour sanitizers; any report is a failure; "
        "non-trivial: at least one time step ran to its end")
ASSUMPTIONS = ["clang sanitizers; leaks, alignment, float-to-int casts and float division by zero are not judged; the linear-algebra and HDF5 libraries are not instrumented"]
PAT = re.compile(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,120})")
FR = re.compile(r"#\d+ \S+ in (\S+) \S*/MDLIB/(\S+)")
ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"}


def report(r):
    m = PAT.search(r.log)
    if m:
        f = FR.findall(r.log)[:2]
        return "%s at %s" % (m.group(1), " < ".join("%s %s" % x for x in f))
    if isinstance(r.rc, int) and r.rc < 0:
        return "signal %d" % -r.rc
    return None


@st.composite
def cases(draw):
    c = draw(world.world(lo=6, hi=13, nt=(1, 3), prob=draw(st.sampled_from([2, 3, 5]))))
    c["p"].update(writer_step=1, delete_breakpoints=0, noisy=draw(gen.flag))
    c["k"] = draw(st.integers(0, 2))
    return c


def chk(c):
    p = c["p"]
    r = mdz.run(c, variant="asan", env=ENV, cpu=120)
    try:
        m = report(r)
        require(m is None, m)
        if not r.ok():
            raise Inconclusive("run gave up")
        k = c["k"]
        if 1 <= k < p["Nt"]:
            q = mdz.run(dict(c, p=dict(p, istep=k, irestart=1)), variant="asan", env=ENV, cpu=120, d=r.dir)
            m = report(q)
            require(m is None, "restarted from step %d: %s" % (k, m))
        return (p["Nt"], k)
    finally:
        r.free()


PARTS = [Part("history", cases(), chk, 160, 2500)]
