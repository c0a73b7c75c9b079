"""Free surface: tags of cells and nodes under a given topography, motion of the marker chain, heights from the chain"""
import numpy as np


class Amb(Exception):
    """an intermediate decision is within rounding"""


def lines(p, h):
    nx = len(h); dx = (p["xmax"] - p["xmin"]) / (nx - 1)
    a = np.diff(h) / dx
    xg = p["xmin"] + dx * np.arange(nx)
    return a, h[:-1] - xg[:-1] * a, dx


def line_at(p, h, x):
    a, b, dx = lines(p, h)
    i = np.clip(np.floor((x - p["xmin"]) / dx).astype(int), 0, len(a) - 1)
    return b[i] + a[i] * x


def tags(p, h, eps=1e-5):
    """(cells: -1 rock, 31 first air cell, 30 air), Vx nodes air, Vz nodes air, vertices air"""
    nx, nz = p["Nx"], p["Nz"]; a, b, dx = lines(p, h); dz = (p["zmax"] - p["zmin"]) / (nz - 1)
    xe = p["xmin"] + dx * (np.arange(nx + 1) - 0.5); ze = p["zmin"] + dz * (np.arange(nz + 1) - 0.5)
    ic = np.clip(np.arange(nx + 1) - 1, 0, nx - 2)
    H = b[ic] + a[ic] * xe
    if (abs(ze[:, None] - H[None, :]) < eps * dz).any():
        raise Amb
    air = ze[:, None] > H[None, :]               # (nz+1, nx+1)
    t0 = np.where(air, 30, -1)
    t1 = t0.copy()
    t1[1:-1][t0[1:-1] != t0[:-2]] = 60
    t = t1.copy()
    c, w, e = t1[:, 1:-1], t1[:, :-2], t1[:, 2:]
    m = (c == -1) & (w == 60) & (e == 60)
    m |= (c == 30) & (e == -1) & ((w == 30) | (w == 60))
    m |= (c == 30) & (w == -1) & ((e == 30) | (e == 60))
    m |= (c == 30) & (w == -1) & (e == -1)
    t[:, 1:-1][m] = 60
    t[:, -1] = t[:, -2]
    cell = np.where(t == 60, 31, t)[1:-1, 1:-1]
    r = t == -1
    u = np.ones((nz + 1, nx), bool); u[r[:, :-1]] = False; u[r[:, 1:]] = False
    u[:, 0] = u[:, 1]; u[:, -1] = u[:, -2]
    v = np.ones((nz, nx + 1), bool); v[r[:-1, :]] = False; v[r[1:, :]] = False
    v[:, 0] = v[:, 1]; v[:, -1] = v[:, -2]
    zg = p["zmin"] + dz * np.arange(nz)
    if (abs(zg[:, None] - h[None, :]) < eps * dz).any():
        raise Amb
    g0 = zg[:, None] > h[None, :]
    g = g0.copy(); g[:-1] |= g0[1:]              # one row down
    g = np.maximum.accumulate(g, axis=1)         # eastwards
    g2 = g.copy(); g2[:, :-1] |= g[:, 1:]        # one column west
    rk = cell == -1                              # vertices with rock on all sides are rock
    full = np.zeros_like(g2)
    full[1:-1, 1:-1] = rk[:-1, :-1] & rk[:-1, 1:] & rk[1:, :-1] & rk[1:, 1:]
    full[1:-1, 0] = rk[:-1, 0] & rk[1:, 0]; full[1:-1, -1] = rk[:-1, -1] & rk[1:, -1]
    g2 &= ~full
    return cell, u, v, g2


def velocity(V, air, x0, z0, dx, dz, x, z, corr):
    nz, nx = V.shape
    j = np.clip(np.ceil((x - x0) / dx).astype(int) - 1, 0, nx - 2); i = np.clip(np.ceil((z - z0) / dz).astype(int) - 1, 0, nz - 2)
    a, b = (x - x0) / dx - j, (z - z0) / dz - i
    SW, SE, NW, NE = V[i, j], V[i, j + 1], V[i + 1, j], V[i + 1, j + 1]
    tSW, tSE, tNW, tNE = air[i, j], air[i, j + 1], air[i + 1, j], air[i + 1, j + 1]
    o = (SW, SE, NW, NE)
    SW, SE, NW, NE = np.where(tSW, o[2], SW), np.where(tSE, o[3], SE), np.where(tNW, o[0], NW), np.where(tNE, o[1], NE)
    q = tNE & tSE
    NE = np.where(q, SW, NE); SE = np.where(q, SW, SE)
    q = tNW & tSW
    NW = np.where(q, SE, NW); SW = np.where(q, SE, SW)
    tie = lambda t: (abs(t) < 1e-5, abs(1 - t) < 1e-5)     # on a node: the value jumps where the node is in the air
    aw, ae = tie(a); bs, bn = tie(b)
    if ((aw & tSW & tNW) | (ae & tSE & tNE) | (bs & (tSW | tSE)) | (bn & (tNW | tNE))).any():
        raise Amb
    if corr:                                     # the correction jumps across a node next to air
        t = a if corr == "x" else b
        k0, k1 = np.maximum(i - 1, 0), np.minimum(i + 2, nz - 1); l0, l1 = np.maximum(j - 1, 0), np.minimum(j + 2, nx - 1)
        some = air[k0, j] | air[k1, j] | air[i, l0] | air[i, l1] | air[i + 1, l0] | air[i + 1, l1] | air[k0, j + 1] | air[k1, j + 1] | tSW | tSE | tNW | tNE
        if (some & (np.minimum(abs(t), abs(1 - t)) < 1e-5)).any():
            raise Amb
    s, n = SW * (1 - a) + SE * a, NW * (1 - a) + NE * a
    w, e = SW * (1 - b) + NW * b, SE * (1 - b) + NE * b
    if corr == "x":
        up = (a >= 0.5) & (j < nx - 2); jj = np.minimum(j + 2, nx - 1)
        SEE, NEE = np.where(air[i, jj], o[0], V[i, jj]), np.where(air[i + 1, jj], o[2], V[i + 1, jj])
        dn = (a < 0.5) & (j > 0); kk = np.maximum(j - 1, 0)
        SWW, NWW = np.where(air[i, kk], o[1], V[i, kk]), np.where(air[i + 1, kk], o[3], V[i + 1, kk])
        f = 0.5 * (a - 0.5) ** 2
        s = s + np.where(up, f * (SW - 2 * SE + SEE), 0) + np.where(dn, f * (SWW - 2 * SW + SE), 0)
        n = n + np.where(up, f * (NW - 2 * NE + NEE), 0) + np.where(dn, f * (NWW - 2 * NW + NE), 0)
    if corr == "z":
        up = (b >= 0.5) & (i < nz - 2); jj = np.minimum(i + 2, nz - 1)
        NNW, NNE = np.where(air[jj, j], o[0], V[jj, j]), np.where(air[jj, j + 1], o[1], V[jj, j + 1])
        dn = (b < 0.5) & (i > 0); kk = np.maximum(i - 1, 0)
        SSW, SSE = np.where(air[kk, j], o[2], V[kk, j]), np.where(air[kk, j + 1], o[3], V[kk, j + 1])
        f = 0.5 * (b - 0.5) ** 2
        w = w + np.where(up, f * (SW - 2 * NW + NNW), 0) + np.where(dn, f * (SSW - 2 * SW + NW), 0)
        e = e + np.where(up, f * (SE - 2 * NE + NNE), 0) + np.where(dn, f * (SSE - 2 * SE + NE), 0)
        return (1 - a) * w + a * e
    return (1 - b) * s + b * n


def rk4(p, Vx, Vz, ua, va, x, z, on, dt):
    """new positions, mean velocities and activity of markers (on: active)"""
    nx, nz = p["Nx"], p["Nz"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1); dz = (p["zmax"] - p["zmin"]) / (nz - 1)
    ci, per = p.get("conserv_interp", 0), p.get("periodic_x", 0)
    x1, x2, z1, z2 = p["xmin"], p["xmax"], p["zmin"], p["zmax"]
    on = on.copy(); X, Z = x.copy(), z.copy(); near = np.zeros(len(x), bool)
    t = 1e-6 * (x2 - x1)

    def vel():
        return (velocity(Vx, ua, x1, z1 - dz / 2, dx, dz, X, Z, "x" if ci else None), velocity(Vz, va, x1 - dx / 2, z1, dx, dz, X, Z, "z" if ci else None))

    def move(f, u, w):
        nonlocal X, Z, on, near
        X = np.where(on, x + f * dt * u, X); Z = np.where(on, z + f * dt * w, Z)
        near |= on & ((abs(X - x1) < t) | (abs(X - x2) < t) | (abs(Z - z1) < t) | (abs(Z - z2) < t))
        if per:
            X = np.where(X < x1, X + (x2 - x1), np.where(X > x2, X - (x2 - x1), X))
        on &= ~((X < x1) | (X > x2) | (Z < z1) | (Z > z2))
    a = vel(); move(0.5, *a)
    b = vel(); move(0.5, *b)
    c = vel(); move(1.0, *c)
    d = vel()
    u, w = ((a[q] + 2 * b[q] + 2 * c[q] + d[q]) / 6 for q in (0, 1))
    move(1.0, u, w)
    return X, Z, u, w, on, near


def heights(p, x, z, z0, on, h0):
    nx = p["Nx"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1)
    i = np.clip(np.floor((x[on] - p["xmin"]) / dx).astype(int), 0, nx - 2)
    xc = p["xmin"] + dx * (np.arange(nx - 1) + 0.5)
    w = 1 - 2 * abs(x[on] - xc[i]) / dx
    inc = p.get("topo_update", 1)
    m = z[on] - (z0[on] if inc else 0)
    W = np.bincount(i, w, nx - 1); B = np.bincount(i, w * m, nx - 1)
    d = np.where(W > 1e-30, B / np.maximum(W, 1e-30), 0)
    h = np.empty(nx)
    h[1:-1] = 0.5 * (d[1:] + d[:-1]) + (h0[1:-1] if inc else 0)
    h[0], h[-1] = h[1], h[-2]
    return h


def refill(p, x, z, z0, on, h, h0):
    """two new chain markers in half columns with less than four; returns the chain and the slots that were set"""
    nx = p["Nx"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1); n = 2 * (nx - 1)
    on = (x >= p["xmin"]) & (x <= p["xmax"])
    s = (x[on] - p["xmin"]) / (dx / 2)
    i = np.clip(np.floor(s).astype(int), 0, n - 1)
    cnt = np.bincount(i, minlength=n)
    edge = abs(s - np.rint(s)) < 1e-4
    for q in np.rint(s[edge]).astype(int):       # a marker on the limit of two half columns: its number matters only next to the threshold
        for k in (q - 1, q):
            if 0 <= k < n and cnt[k] in (3, 4):
                raise Amb
    free = list(np.nonzero(~on)[0]); new = []
    x, z, z0, on = list(x), list(z), list(z0), list(on)
    for k in range(n):
        if cnt[k] < 4:
            for f in (0.25, 0.75):
                X = p["xmin"] + (k + f) * dx / 2
                A = np.array([X])
                v = (X, float(line_at(p, h, A)[0]), float(line_at(p, h0, A)[0]))
                if free:
                    q = free.pop(0); x[q], z[q], z0[q], on[q] = v + (True,)
                else:
                    q = len(x); x.append(v[0]); z.append(v[1]); z0.append(v[2]); on.append(True)
                new.append(q)
    return np.array(x), np.array(z), np.array(z0), np.array(on), new


def diffuse(p, h, dt):
    """explicit diffusion, sedimentation and incision of the heights (ends held)"""
    sp = p.get("surface_processes", 0)
    if not sp:
        return h
    h = h.copy(); nx = p["Nx"]; dx = (p["xmax"] - p["xmin"]) / (nx - 1)
    base, rate = p.get("surf_baselev", 0.0), p.get("surf_sedirate", 0.0)
    if sp in (1, 5):
        D = p["surf_diff"]; d0 = 0.4 * dx * dx / D; n = int(dt / d0 + 1); d = dt / n
        xg = p["xmin"] + dx * np.arange(nx)
        if sp == 5 and (abs(abs(xg) - 0.5 * p.get("surf_Winc", 0.0)) < 1e-6 * dx).any():
            raise Amb
        valley = (abs(xg) < 0.5 * p.get("surf_Winc", 0.0)); valley[0] = valley[-1] = False
        e = p.get("surf_Winc", 0.0) * p.get("surf_Vinc", 0.0) / (valley.sum() * dx) if valley.any() else 0.0
        for _ in range(n):
            if (abs(h - base) < 1e-5 * dx).any() and rate:
                raise Amb
            q = h.copy()
            q[1:-1] += d * D / dx ** 2 * (h[2:] + h[:-2] - 2 * h[1:-1]) + np.where(h[1:-1] < base, rate * d, 0)
            if sp == 5:
                q[valley] -= e * d
            h = q
    if sp == 2:
        if (abs(h - base) < 1e-6 * dx).any():
            raise Amb
        h = np.where(h < base, h + rate * dt, h)
    return h
