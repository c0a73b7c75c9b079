"""Builds the library under test from /repo's working tree, with build files of our own.

Products go to /verif/build/<variant>-<hash>/ (git-ignored); the hash covers every
source and header of /repo/MDLIB, the harness sources and the flags, so a changed
tree is always rebuilt and an unchanged one is reused."""
import glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VPBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
ROOT = os.environ.get("VPBT_BUILD", os.path.join(VERIF, "build"))

INC = ["-I" + REPO + "/MDLIB", "-I" + REPO + "/MDLIB/include", "-I/usr/include/hdf5/serial", "-I/usr/include/suitesparse"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lumfpack", "-lcholmod", "-lcxsparse", "-lhdf5", "-llapack", "-lblas", "-lm", "-lz"]
BASE = ["-std=gnu11", "-w", "-g"]
VARIANTS = {
    "plain": (["gcc"], BASE + ["-O1", "-fno-strict-aliasing"], []),
    "omp": (["gcc"], BASE + ["-O1", "-fno-strict-aliasing", "-fopenmp", "-D_OMP_"], ["-fopenmp"]),
    "zero": (["gcc"], BASE + ["-O1", "-fno-strict-aliasing", "-ftrivial-auto-var-init=zero"], []),          # whatever memory happens to contain ...
    "pattern": (["gcc"], BASE + ["-O1", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern"], []),    # ... must not matter
    "asan": (["clang"], BASE + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                "-fno-sanitize-recover=undefined",
                                "-fno-sanitize=float-divide-by-zero,float-cast-overflow,alignment,function"],
             ["-fsanitize=address,undefined"]),
    "addr": (["clang"], BASE + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"], ["-fsanitize=address"]),
}


class BuildError(Exception):
    pass


def sources():
    txt = open(REPO + "/MDLIB/CMakeLists.txt").read()
    m = re.search(r"add_library\(\s*mdoodz\b(.*?)\)", txt, re.S)
    return [REPO + "/MDLIB/" + s for s in re.findall(r"[\w./-]+\.c\b", m.group(1))]


def treehash(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/MDLIB/**/*.[ch]", recursive=True)) + [REPO + "/MDLIB/CMakeLists.txt"] + sorted(glob.glob(HARN + "/*"))
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def build(variant="plain", progs=("driver",)):
    """Returns the directory with libmdoodz objects linked into each harness program."""
    cc, cfl, lfl = VARIANTS[variant]
    out = os.path.join(ROOT, variant + "-" + treehash((variant, cfl, lfl)))
    need = [p for p in progs if not os.path.exists(os.path.join(out, p))]
    if not need and os.path.exists(os.path.join(out, "libh5all.so")):
        return out
    os.makedirs(out, exist_ok=True)
    for d in glob.glob(os.path.join(ROOT, variant + "-*")):
        if d != out and ".tmp" not in d:
            shutil.rmtree(d, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        srcs = sources()
        jobs = [(s, os.path.join(tmp, os.path.basename(s)[:-2] + ".o")) for s in srcs]
        hj = [(os.path.join(HARN, p + ".c"), os.path.join(tmp, "H_" + p + ".o")) for p in need]
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(lambda j: _run(cc + cfl + INC + ["-c", j[0], "-o", j[1]]), jobs + hj))
            list(ex.map(lambda j: _run(cc + lfl + [j[1]] + [o for _, o in jobs] + ["-o", os.path.join(tmp, "bin_" + os.path.basename(j[0])[:-2])] + LIBS), hj))
        _run(["gcc", "-shared", "-fPIC", "-O1", "-I/usr/include/hdf5/serial", os.path.join(HARN, "h5all.c"), "-o", os.path.join(tmp, "libh5all.so"),
              "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"])
        for p in need:
            os.replace(os.path.join(tmp, "bin_" + p), os.path.join(out, p))
        os.replace(os.path.join(tmp, "libh5all.so"), os.path.join(out, "libh5all.so"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
