"""Running simulations: a case is plain JSON {"p": params, "ph": [phase params], "sc": [scenario lines]}."""
import ctypes, os, re, resource, shutil, signal, subprocess, tempfile, time
import numpy as np

from . import build as B

_bin = {}
_h5 = None
SCRATCH = None

# every phase property that makes a run "plain viscous": explicit, so that no case depends on a default
PHASE0 = dict(rho=2700.0, G=1e10, Cp=1050.0, k=2.5, Qr=0.0, C=1e90, phi=30.0, psi=0.0, Slim=5e90, alp=0.0, bet=1e-11, drho=0.0,
              cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gsel=0, eta0=1.0, npwl=3.0, Qpwl=0.0, plast=0, density_model=0)

P0 = dict(istep=0, irestart=0, writer=1, writer_step=1, writer_markers=0, writer_debug=0, noisy=0,
          eta=1.0, L=1.0, V=1.0, T=1.0, Nx=21, Nz=21, Nt=1, xmin=-0.5, xmax=0.5, zmin=-0.5, zmax=0.5,
          Nx_part=4, Nz_part=4, constant_dt=1, Courant=0.3, dt=0.5, RK=4,
          penalty=1e5, lin_solver=2, diag_scaling=0, lin_abs_div=1e-13, lin_rel_div=1e-13, lin_abs_mom=1e-13, lin_rel_mom=1e-13,
          Newton=0, line_search=0, nit_max=1, rel_tol_KSP=1e-4, nonlin_abs_mom=1e-12, nonlin_rel_mom=1e-12,
          nonlin_abs_div=1e-12, nonlin_rel_div=1e-12, min_eta=1e-10, max_eta=1e10,
          anisotropy=0, elastic=0, free_surface=0, free_surface_stab=0, finite_strain=0, advection=0,
          shear_heating=0, adiab_heating=0,
          shear_style=0, periodic_x=0, pure_shear_ALE=0, bkg_strain_rate=1.0, gx=0.0, gz=0.0)


def case(p=None, ph=None, sc=()):
    P = dict(P0); P.update(p or {})
    PH = [dict(PHASE0, **q) for q in (ph or [{}])]
    return {"p": P, "ph": PH, "sc": list(sc)}


def fmt(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, str):
        return v
    return repr(float(v))


def input_text(c):
    L = []
    for k, v in c["p"].items():
        L.append("%s = %s" % (k, fmt(v)))
    L.append("Nb_phases = %d" % len(c["ph"]))
    for i, q in enumerate(c["ph"]):
        L.append("ID = %d" % i)
        for k, v in q.items():
            L.append("%s = %s" % (k, fmt(v)))
    L.append("")
    return "\n".join(L) + "\n"


def init(variants=("plain",), progs=("driver",)):
    global _h5
    for v in variants:
        _bin[v] = B.build(v, progs)
    d = _bin[variants[0]]
    _h5 = ctypes.CDLL(os.path.join(d, "libh5all.so"))
    _h5.h5_name.restype = ctypes.c_char_p
    _h5.h5_count.restype = ctypes.c_long
    _h5.h5_data.restype = ctypes.c_void_p


def binpath(prog="driver", variant="plain"):
    return os.path.join(_bin[variant], prog)


def scratch_root():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        SCRATCH = tempfile.mkdtemp(prefix="vpbt-%d-" % os.getpid(), dir=base)
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


def load(fn):
    n = _h5.h5_open(fn.encode())
    if n < 0:
        return None
    out = {}
    dt = {0: np.float32, 1: np.float64, 2: np.int32, 3: np.int8}
    for i in range(n):
        c = _h5.h5_count(i)
        if c < 0:
            continue
        t = np.dtype(dt[_h5.h5_kind(i)])
        buf = ctypes.string_at(_h5.h5_data(i), c * t.itemsize) if c else b""
        a = np.frombuffer(buf, t)
        out[_h5.h5_name(i).decode()] = a.astype(np.float64) if t.kind == "f" else a
    return out


class Out(dict):
    """One output file: datasets by name, with grid-shaped access."""
    def params(self):
        return self["Model/Params"]

    def dims(self):
        P = self["Model/Params"]
        return int(P[3]), int(P[4])

    def n(self, f):  # cell centres (Nz-1, Nx-1)
        nx, nz = self.dims(); return self["Centers/" + f].reshape(nz - 1, nx - 1)

    def s(self, f):
        nx, nz = self.dims(); return self["Vertices/" + f].reshape(nz, nx)

    def vx(self):
        nx, nz = self.dims(); return self["VxNodes/Vx"].reshape(nz + 1, nx)

    def vz(self):
        nx, nz = self.dims(); return self["VzNodes/Vz"].reshape(nz, nx + 1)


class Result:
    def __init__(self, d, rc, log, dt):
        self.dir, self.rc, self.log, self.t = d, rc, log, dt
        self._c = {}

    def ok(self):
        return self.rc == 0 and "DRIVER-DONE" in self.log

    def steps(self):
        return sorted(int(m.group(1)) for m in (re.match(r"Output(\d{5})\.gzip\.h5$", f) for f in os.listdir(self.dir)) if m)

    def out(self, k):
        fn = os.path.join(self.dir, "Output%05d.gzip.h5" % k)
        if fn not in self._c:
            d = load(fn) if os.path.exists(fn) else None
            self._c[fn] = Out(d) if d is not None else None
        return self._c[fn]

    def particles(self, k):
        fn = os.path.join(self.dir, "Particles%05d.gzip.h5" % k)
        return load(fn) if os.path.exists(fn) else None

    def free(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(c, variant="plain", d=None, cpu=60, env=None, keep=False, text=None, prog="driver", args=None, mem_mb=4000):
    """One simulation in a fresh scratch directory. Result.rc: exit status, negative signal, or 'cpu' on the CPU limit."""
    if d is None:
        d = tempfile.mkdtemp(dir=scratch_root())
    with open(os.path.join(d, "in.txt"), "w") as f:
        f.write(text if text is not None else input_text(c))
    with open(os.path.join(d, "sc.txt"), "w") as f:
        f.write("\n".join(c["sc"]) + "\n")

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if variant != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    e = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", GOTO_NUM_THREADS="1")
    e.update(env or {})
    t0 = time.time()
    lp = os.path.join(d, "log.txt")
    with open(lp, "wb") as lf:
        p = subprocess.Popen([binpath(prog, variant)] + (args if args is not None else ["in.txt", "sc.txt"]), cwd=d, stdin=subprocess.DEVNULL,
                             stdout=lf, stderr=subprocess.STDOUT, preexec_fn=pre, env=e)
        try:
            rc = p.wait(timeout=cpu * 10 + 60)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "wall"
    if rc == -signal.SIGXCPU or rc == -signal.SIGKILL:
        rc = "cpu"
    log = open(lp, "rb").read().decode("latin1")
    return Result(d, rc, log, time.time() - t0)


def gave_up(r):
    """the code itself said that it found no solution (as opposed to crashing)"""
    return r.rc not in ("cpu", "wall") and (r.rc >= 0) and ("constrain was not satisfied" in r.log or "Solve went wrong" in r.log)
