"""The scenario's field primitives evaluated in python (the same formulas as harness/driver.c)."""
import numpy as np


def parse(sc, name):
    return [l.split()[2:] for l in sc if l.startswith("f %s " % name)]


def ev(sc, name, x, z):
    x, z = np.broadcast_arrays(np.asarray(x, float), np.asarray(z, float))
    v = np.zeros(x.shape)
    for t in parse(sc, name):
        k, a = t[0], [float(q) for q in t[1:]]
        if k == "const":
            v = v + a[0]
        elif k == "lin":
            v = v + a[0] + a[1] * x + a[2] * z
        elif k == "gauss":
            v = v + a[0] * np.exp(-((x - a[1]) ** 2 + (z - a[2]) ** 2) / a[3] ** 2)
        elif k == "cosx":
            v = v + a[0] * np.cos(a[1] * x + a[2])
        elif k == "cosz":
            v = v + a[0] * np.cos(a[1] * z + a[2])
        elif k == "box":
            v = np.where((x >= a[1]) & (x < a[2]) & (z >= a[3]) & (z < a[4]), a[0], v)
        elif k == "ell":
            c, s = np.cos(a[5]), np.sin(a[5]); X, Z = x - a[1], z - a[2]
            v = np.where(((X * c + Z * s) / a[3]) ** 2 + ((-X * s + Z * c) / a[4]) ** 2 < 1, a[0], v)
    return v


def pure(sc, x, z, rx, rz, name="phase", m=25):
    """integer field at the grid (x, z) where it is uniform over the window +-rx, +-rz; -1 elsewhere"""
    X, Z = np.asarray(x)[0], np.asarray(z)[:, 0]
    o = np.linspace(-1, 1, m)
    xs = (X[:, None] + o * rx).ravel(); zs = (Z[:, None] + o * rz).ravel()
    v = ev(sc, name, xs[None, :], zs[:, None]).reshape(len(Z), m, len(X), m)
    lo, hi = v.min(axis=(1, 3)), v.max(axis=(1, 3))
    return np.where(lo == hi, lo, -1).astype(int)


def centres(p):
    dx, dz = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1), (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
    x = p["xmin"] + dx * (np.arange(p["Nx"] - 1) + 0.5); z = p["zmin"] + dz * (np.arange(p["Nz"] - 1) + 0.5)
    return list(np.meshgrid(x, z)) + [dx, dz]


def vertices(p):
    dx, dz = (p["xmax"] - p["xmin"]) / (p["Nx"] - 1), (p["zmax"] - p["zmin"]) / (p["Nz"] - 1)
    x = p["xmin"] + dx * np.arange(p["Nx"]); z = p["zmin"] + dz * np.arange(p["Nz"])
    return list(np.meshgrid(x, z)) + [dx, dz]
