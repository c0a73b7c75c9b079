"""Shared generators. All numbers are decimals with few digits so that cases are readable and shrink well."""
import math
from hypothesis import strategies as st
from . import mdz


def num(lo, hi, nd=2):
    s = 10 ** nd
    return st.integers(round(lo * s), round(hi * s)).map(lambda i: i / s)


def logn(lo, hi, per=4):
    """10**k with k in [lo, hi] in steps of 1/per"""
    return st.integers(round(lo * per), round(hi * per)).map(lambda i: float("%.4g" % 10 ** (i / per)))


flag = st.integers(0, 1)

# characteristic units the code may be asked to use: eta, L, V, T
CODE_UNITS = [(1.0, 1.0, 1.0, 1.0), (1e22, 1e4, 1e-9, 100.0), (1e21, 3e3, 1e-8, 500.0), (5.0, 2.0, 0.25, 10.0)]
# physical magnitude of the problem: length, viscosity, strain rate
PHYS = [(1.0, 1.0, 1.0), (1e4, 1e21, 1e-15), (50e3, 1e22, 1e-14), (2.0, 10.0, 0.1)]


@st.composite
def units(draw, geo=None):
    """(physical magnitudes, code units): matched families, so that numbers in the code stay of order one."""
    k = draw(st.integers(0, 3)) if geo is None else geo
    if k in (0, 3):
        return PHYS[k], draw(st.sampled_from([CODE_UNITS[0], CODE_UNITS[3]]))
    return PHYS[k], draw(st.sampled_from([CODE_UNITS[1], CODE_UNITS[2]]))


@st.composite
def box(draw, lo=13, hi=33):
    """grid and domain in units of the physical length; the aspect ratio of cells stays within 1:3"""
    nx, nz = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
    w = draw(num(0.6, 1.6, 1)); h = draw(num(0.6, 1.6, 1))
    x0 = draw(st.sampled_from([-0.5, -0.5, 0.0, -0.3, 0.7])) * w
    z0 = draw(st.sampled_from([-0.5, -0.5, 0.0, -1.0, -0.7])) * h
    return dict(Nx=nx, Nz=nz, xmin=round(x0, 6), xmax=round(x0 + w, 6), zmin=round(z0, 6), zmax=round(z0 + h, 6))


@st.composite
def shapes(draw, b, nph, lo=1, hi=4, tag="phase"):
    """phase geometry (length unit 1): lines of the scenario, phase 0 in the background"""
    W, H = b["xmax"] - b["xmin"], b["zmax"] - b["zmin"]
    out = [("const", [0])]
    for _ in range(draw(st.integers(lo, hi)) if nph > 1 else 0):
        ph = draw(st.integers(1, nph - 1))
        fx, fz = draw(num(0.1, 0.9)), draw(num(0.1, 0.9))
        xc, zc = b["xmin"] + fx * W, b["zmin"] + fz * H
        rx, rz = draw(num(0.08, 0.35)) * W, draw(num(0.08, 0.35)) * H
        kind = draw(st.sampled_from(["ell", "box", "hlayer", "vlayer"]))
        if kind == "ell":
            out.append(("ell", [ph, xc, zc, rx, rz, draw(num(0, 3, 1))]))
        elif kind == "box":
            out.append(("box", [ph, xc - rx, xc + rx, zc - rz, zc + rz]))
        elif kind == "hlayer":
            out.append(("box", [ph, b["xmin"] - W, b["xmax"] + W, zc - rz, zc + rz]))
        else:
            out.append(("box", [ph, xc - rx, xc + rx, b["zmin"] - H, b["zmax"] + H]))
    return out


def shape_lines(shp, L, tag="phase"):
    R = []
    for k, a in shp:
        a = list(a)
        n = {"const": 0, "ell": 4, "box": 4}[k]
        a[1:1 + n] = [v * L for v in a[1:1 + n]]
        R.append("f %s %s %s" % (tag, k, " ".join("%.10g" % v for v in a)))
    return R


def scaled_box(b, L):
    return dict(Nx=b["Nx"], Nz=b["Nz"], **{k: b[k] * L for k in ("xmin", "xmax", "zmin", "zmax")})


def code_units(cu):
    return dict(eta=cu[0], L=cu[1], V=cu[2], T=cu[3])


@st.composite
def stokes_scene(draw, bcs=("pure", "simple", "freeslip", "lin"), lo=13, hi=33, eta_dec=2, solvers=(2, 0, -1), gravity=True, nph_max=4,
                 power=False):
    """A linear (or power-law) viscous multi-phase body under some boundary conditions. Returns (case, meta)"""
    ph, cu = draw(units())
    L, E, e = ph
    S = E * e                                    # stress unit
    b = draw(box(lo, hi))
    nph = draw(st.sampled_from([1] + [2, 3, 4] * 3)) if nph_max >= 4 else draw(st.integers(1, nph_max))
    shp = draw(shapes(b, nph))
    bc = draw(st.sampled_from(list(bcs)))
    g = draw(st.sampled_from([0.0, 0.0, -1.0, -10.0])) if gravity else 0.0
    gx = draw(st.sampled_from([0.0, 0.0, 0.0, 3.0])) if gravity and bc != "simple" else 0.0
    if bc == "freeslip" and g == 0.0:
        g = -1.0
    rho0 = S / L / 10.0                          # rho g L = S for g = -10
    phases = []
    for i in range(nph):
        q = dict(eta0=E * draw(logn(-eta_dec, eta_dec)), rho=rho0 * draw(num(0.5, 5, 1)))
        if power and draw(flag):
            q.update(cstv=0, pwlv=1, npwl=draw(num(1, 5, 1)), eta0=E * draw(logn(-1, 1)))
        phases.append(q)
    p = dict(scaled_box(b, L), **code_units(cu), gz=g, gx=gx, bkg_strain_rate=e * draw(st.sampled_from([1.0, -1.0, 2.5, 0.3])),
             min_eta=E * 1e-6, max_eta=E * 1e6, dt=0.01 / e, lin_solver=draw(st.sampled_from(list(solvers))),
             diag_scaling=draw(flag), Nx_part=draw(st.integers(3, 5)), Nz_part=draw(st.integers(3, 5)), eta_average=draw(st.integers(0, 2)))
    if bc == "simple":
        p.update(shear_style=1, periodic_x=1)
    sc = ["bc " + bc] + shape_lines(shp, L)
    if bc == "lin":
        a, c2, d2 = draw(num(-1, 1, 1)), draw(num(-2, 2, 1)), draw(num(-2, 2, 1))
        xm, zm = 0.5 * (p["xmin"] + p["xmax"]), 0.5 * (p["zmin"] + p["zmax"])
        tx, tz = draw(num(-0.5, 0.5, 1)) * e * L, draw(num(-0.5, 0.5, 1)) * e * L
        sc += ["f bcvx lin %.10g %.10g %.10g" % (tx - a * e * xm - c2 * e * zm, a * e, c2 * e),
               "f bcvz lin %.10g %.10g %.10g" % (tz - d2 * e * xm + a * e * zm, d2 * e, -a * e)]
    return mdz.case(p, phases, sc)
