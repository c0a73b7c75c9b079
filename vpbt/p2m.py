"""Distance-weighted averages of marker values on grids (one cell, or a cell and its eight neighbours)"""
import numpy as np


def average(p, x, z, on, val, kind="n", stencil=None):
    """val: array over markers; returns the grid of averages (nan without markers); kind n: cells, s: vertices"""
    dx, dz = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1), (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
    nx, nz = (p["Nx"] - 1, p["Nz"] - 1) if kind == "n" else (p["Nx"], p["Nz"])
    x0, z0 = (p["xmin"] + dx / 2, p["zmin"] + dz / 2) if kind == "n" else (p["xmin"], p["zmin"])
    st = stencil or p.get("interp_stencil", 1)
    x, z, val = x[on], z[on], val[on]
    i = np.clip(np.ceil((x - x0) / dx + 0.5).astype(int) - 1, 0, nx - 1); j = np.clip(np.ceil((z - z0) / dz + 0.5).astype(int) - 1, 0, nz - 1)
    W, B = np.zeros(nx * nz), np.zeros(nx * nz)
    h = 0.5 if st == 1 else 1.5
    per = p.get("periodic_x", 0)
    for a in ((0,) if st == 1 else (-1, 0, 1)):
        for b in ((0,) if st == 1 else (-1, 0, 1)):
            I, J = i + a, j + b
            ok = (J >= 0) & (J < nz)
            if not per:
                ok &= (I >= 0) & (I < nx)
            w = (1 - abs(x0 + I * dx - x) / (h * dx)) * (1 - abs(z0 + J * dz - z) / (h * dz))
            k = (J * nx + I % nx)[ok]
            W += np.bincount(k, w[ok], nx * nz); B += np.bincount(k, (w * val)[ok], nx * nz)
    with np.errstate(all="ignore"):
        return np.where(W > 0, B / W, np.nan).reshape(nz, nx)
