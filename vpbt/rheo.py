"""Reference model of the local rheology: mechanism strain rates in parallel (series model), solved by bisection."""
import json, os
import numpy as np

DB = json.load(open(os.path.join(os.path.dirname(__file__), "flowlaws.json")))
R = 8.314510
ZC = 273.15


def _F(t, n):
    t = int(t)
    return 1.0 if t == 0 else (1.0 / 6 * 2 ** (1 / n) * 3 ** ((n - 1) / 2 / n) if t == 1 else 0.25 * 2 ** (1 / n))


def mechanisms(q, T, P, d, phi=0.0, melt_weak=None):
    """list of (name, lnC, n): rate = C * tau**n (all arrays in SI)"""
    T = np.maximum(T, ZC)
    out = []
    if q["cstv"]:
        out.append(("cst", -np.log(2 * q["eta0"]) + 0 * T, 1.0 + 0 * T))
    if q["pwlv"]:
        k = int(q["pwlv"])
        if abs(k) == 1:
            L = dict(t=0, n=q["npwl"], m=0, r=0, Q=q["Qpwl"], V=0, A=None, f=0, a=0)
            lA = -q["npwl"] * np.log(q["eta0"])
        else:
            L = DB["pwl"][str(abs(k))]; lA = np.log(L["A"])
        a = melt_weak if melt_weak is not None else L["a"]
        F = 1.0 if k < 0 else _F(L["t"], L["n"])
        n = L["n"]
        lnB = np.log(q.get("pref_pwl", 1.0) * F) - lA / n + (L["Q"] + P * L["V"]) / R / n / T + L["m"] / n * np.log(d) - (L["r"] / n * np.log(L["f"]) if L["r"] else 0.0) - a * phi / n
        out.append(("pwl", -n * (np.log(2) + lnB), n + 0 * T))
    for key, nm in (("linv", "lin"), ("gbsv", "gbs")):
        if q.get(key):
            k = int(q[key]); L = DB[nm][str(abs(k))]; n = L["n"]
            F = 1.0 if k < 0 else _F(L["t"], n)
            lnB = np.log(F) - np.log(L["A"]) / n + (L["Q"] + P * L["V"]) / R / n / T + L["m"] / n * np.log(d) - (L["r"] / n * np.log(L["f"]) if L["r"] else 0.0) - L["a"] * phi / n
            out.append((nm, -n * (np.log(2) + lnB), n + 0 * T))
    if q.get("expv"):
        L = DB["exp"][str(abs(int(q["expv"])))]
        g = L["G"]; ST = L["Q"] / R / T * 2 * g * (1 - g); n = ST + L["n"]
        lF = ((1 - n) * np.log(2) - (n + 1) * 0.5 * np.log(3)) / n
        lB = lF + ST / n * np.log(g * L["S"]) - (np.log(L["E"]) - L["Q"] / R / T * (1 - g) ** 2) / n
        lC = np.where(T < 1200 + ZC, -n * (np.log(2) + lB), -np.inf)
        out.append(("exp", lC, n))
    return out


def solve(mech, E, Gdt=None):
    """stress invariant tau with E = sum(C tau^n) (+ tau / (2 G dt)); returns tau and the rate of each mechanism"""
    lE = np.log(E)
    m = list(mech)
    if Gdt is not None:
        m.append(("el", -np.log(2 * Gdt) + 0 * E, 1.0 + 0 * E))
    hi = np.full_like(E, np.inf)
    for _, lC, n in m:
        with np.errstate(invalid="ignore", divide="ignore"):
            hi = np.minimum(hi, np.where(np.isfinite(lC), (lE - lC) / n, np.inf))
    lo = hi - np.log(len(m)) - 1e-6      # every mechanism exponent is >= 1
    hi = hi + 1e-6
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        s = sum(np.exp(np.minimum(lC + n * mid - lE, 50.0)) for _, lC, n in m)
        big = s > 1
        hi = np.where(big, mid, hi); lo = np.where(big, lo, mid)
    lt = 0.5 * (lo + hi)
    return np.exp(lt), {nm: np.exp(lC + n * lt) for nm, lC, n in m}
