"""Self-contained: builds MDLIB of the current directory with a scenario driver in a scratch directory and runs models there."""
import atexit, ctypes, glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo-"); atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
INC = ["-I" + REPO + "/MDLIB", "-I" + REPO + "/MDLIB/include", "-I/usr/include/hdf5/serial", "-I/usr/include/suitesparse"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lumfpack", "-lcholmod", "-lcxsparse", "-lhdf5", "-llapack", "-lblas", "-lm", "-lz"]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(" ".join(cmd), p.stdout[-2000:]); sys.exit(3)


def build(flags=("-O1", "-g"), cc="gcc", link=(), driver="driver.c", name="driver"):
    m = re.search(r"add_library\(\s*mdoodz\b(.*?)\)", open(REPO + "/MDLIB/CMakeLists.txt").read(), re.S)
    src = [REPO + "/MDLIB/" + s for s in re.findall(r"[\w./-]+\.c\b", m.group(1))] + [os.path.join(HERE, driver)]
    obj = [os.path.join(TMP, name + "_" + os.path.basename(s)[:-2] + ".o") for s in src]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh([cc, "-std=gnu11", "-w", "-fno-strict-aliasing"] + list(flags) + INC + ["-c", j[0], "-o", j[1]]), zip(src, obj)))
    sh([cc] + list(flags) + list(link) + obj + ["-o", os.path.join(TMP, name)] + LIBS)
    so = os.path.join(TMP, "h5.so")
    if not os.path.exists(so):
        sh(["gcc", "-shared", "-fPIC", "-O1", "-I/usr/include/hdf5/serial", os.path.join(HERE, "h5all.c"), "-o", so, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5"])
    global H5
    H5 = ctypes.CDLL(so); H5.h5_name.restype = ctypes.c_char_p; H5.h5_count.restype = ctypes.c_long; H5.h5_data.restype = ctypes.c_void_p
    return os.path.join(TMP, name)


def load(fn):
    n = H5.h5_open(fn.encode())
    if n < 0:
        return None
    out, dt = {}, {0: np.float32, 1: np.float64, 2: np.int32, 3: np.int8}
    for i in range(n):
        c = H5.h5_count(i)
        if c < 0:
            continue
        t = np.dtype(dt[H5.h5_kind(i)]); b = ctypes.string_at(H5.h5_data(i), c * t.itemsize) if c else b""
        a = np.frombuffer(b, t); out[H5.h5_name(i).decode()] = a.astype(float) if t.kind == "f" else a
    return out


def fmt(v):
    return v if isinstance(v, str) else str(int(v)) if isinstance(v, (int, bool)) else repr(float(v))


BASE = dict(istep=0, irestart=0, writer=1, writer_step=1, eta=1.0, L=1.0, V=1.0, T=1.0, Nx=21, Nz=21, Nt=1, xmin=-0.5, xmax=0.5, zmin=-0.5, zmax=0.5, Nx_part=4, Nz_part=4,
            constant_dt=1, Courant=0.3, dt=0.01, penalty=1e5, lin_solver=2, diag_scaling=0, lin_abs_div=1e-12, lin_rel_div=1e-12, lin_abs_mom=1e-12, lin_rel_mom=1e-12, Newton=0,
            nit_max=1, nonlin_abs_mom=1e-12, nonlin_rel_mom=1e-12, nonlin_abs_div=1e-12, nonlin_rel_div=1e-12, min_eta=1e-10, max_eta=1e10, elastic=0, advection=0,
            shear_style=0, periodic_x=0, pure_shear_ALE=0, bkg_strain_rate=1.0, gx=0.0, gz=0.0)
PH = dict(rho=2700.0, G=1e10, Cp=1050.0, k=2.5, Qr=0.0, C=1e90, phi=30.0, psi=0.0, Slim=5e90, alp=0.0, bet=1e-11, drho=0.0, cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gsel=0,
          eta0=1.0, npwl=3.0, Qpwl=0.0, plast=0, density_model=0)


class Run:
    pass


def text(p, ph):
    P = dict(BASE); P.update(p)
    t = "\n".join("%s = %s" % (k, fmt(v)) for k, v in P.items()) + "\nNb_phases = %d\n" % len(ph)
    for i, q in enumerate(ph):
        t += "ID = %d\n" % i + "\n".join("%s = %s" % (k, fmt(v)) for k, v in dict(PH, **q).items()) + "\n"
    return t + "\n"


def run(exe, p=None, ph=({},), sc=(), d=None, t=None, env=None):
    d = d or tempfile.mkdtemp(dir=TMP)
    open(d + "/in.txt", "w").write(t if t is not None else text(p or {}, ph)); open(d + "/sc.txt", "w").write("\n".join(sc) + "\n")
    e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"); e.update(env or {})
    q = subprocess.run([exe, "in.txt", "sc.txt"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=200)
    r = Run(); r.rc, r.log, r.dir = q.returncode, q.stdout.decode("latin1"), d
    r.out = lambda k: load(d + "/Output%05d.gzip.h5" % k)
    r.part = lambda k: load(d + "/Particles%05d.gzip.h5" % k)
    return r


def check(cond, msg):
    if not cond:
        print("WRONG: " + msg); sys.exit(1)
    print("ok: " + msg)


class G:
    """grid-shaped access to an output file"""
    def __init__(self, o):
        self.o = o; P = o["Model/Params"]; self.nx, self.nz, self.dx, self.dz = int(P[3]), int(P[4]), P[5], P[6]
    def n(self, f): return self.o["Centers/" + f].reshape(self.nz - 1, self.nx - 1)
    def s(self, f): return self.o["Vertices/" + f].reshape(self.nz, self.nx)
    def vx(self): return self.o["VxNodes/Vx"].reshape(self.nz + 1, self.nx)
    def vz(self): return self.o["VzNodes/Vz"].reshape(self.nz, self.nx + 1)
