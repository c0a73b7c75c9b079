"""Independent re-derivation of discrete quantities from the output fields (staggered grid)."""
import numpy as np

EPS = 6e-8  # float32 rounding of the output


def strain(o):
    nx, nz = o.dims(); P = o.params(); dx, dz = P[5], P[6]
    vx, vz = o.vx(), o.vz()
    exx = np.diff(vx, axis=1)[1:-1] / dx
    ezz = np.diff(vz, axis=0)[:, 1:-1] / dz
    exz = 0.5 * (np.diff(vx, axis=0) / dz + np.diff(vz, axis=1) / dx)
    wxz = 0.5 * (np.diff(vz, axis=1) / dx - np.diff(vx, axis=0) / dz)
    return exx, ezz, exz, wxz


def strain_err(o):
    """bound on the rounding error of a strain rate obtained from float32 velocities"""
    P = o.params(); dx, dz = P[5], P[6]
    v = max(np.abs(o.vx()).max(), np.abs(o.vz()).max())
    return 2 * EPS * v * (1 / dx + 1 / dz)


def v2c(a):
    return 0.25 * (a[1:, 1:] + a[1:, :-1] + a[:-1, 1:] + a[:-1, :-1])


def momentum(o, gx, gz, sxx, szz, sxz):
    P = o.params(); dx, dz = P[5], P[6]
    p = o.n("P"); rho = o.n("rho_n"); rs = o.s("rho_s")
    rx = (np.diff(sxx, axis=1) - np.diff(p, axis=1)) / dx + np.diff(sxz[:, 1:-1], axis=0) / dz + gx * 0.5 * (rs[1:, 1:-1] + rs[:-1, 1:-1])
    rz = (np.diff(szz, axis=0) - np.diff(p, axis=0)) / dz + np.diff(sxz[1:-1], axis=1) / dx + gz * 0.5 * (rho[1:] + rho[:-1])
    # error scale at each node: rounding of every term entering it
    def mx(a, ax):
        a = np.abs(a); return np.maximum(a.take(range(1, a.shape[ax]), ax), a.take(range(0, a.shape[ax] - 1), ax))
    sx = (mx(sxx, 1) + mx(p, 1)) / dx + mx(sxz[:, 1:-1], 0) / dz + abs(gx) * mx(rs[:, 1:-1], 0)
    sz = (mx(szz, 0) + mx(p, 0)) / dz + mx(sxz[1:-1], 1) / dx + abs(gz) * mx(rho, 0)
    return rx, rz, sx, sz
