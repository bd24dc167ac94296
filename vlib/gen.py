"""Concretisation of abstract scenario features (see spec/Scenario.tla)."""
from math import pi
import numpy as np
from .problem import Problem, ScalarMode, FuncMode, Phys, rng_for, gauss01


def phase_row(rng, kind, n, gmax):
    k = np.arange(n)
    if kind == "iso":
        r = np.zeros(n)
    elif kind == "hg":
        r = rng.uniform(0.2, gmax) ** k
    elif kind == "sharp":
        r = rng.uniform(0.85, 0.95) ** k
    elif kind == "back":
        r = (-rng.uniform(0.1, 0.6)) ** k
    elif kind == "mix":
        a = rng.uniform(0.3, 0.9)
        r = a * rng.uniform(0.3, gmax) ** k + (1 - a) * (-rng.uniform(0.1, 0.5)) ** k
    elif kind == "short":   # only the first few coefficients are non-zero
        r = rng.uniform(0.2, 0.6) ** k
        r[3:] = 0
    elif kind == "gap":     # a single coefficient of higher degree
        r = np.zeros(n)
        if n > 2:
            l = int(rng.integers(2, min(n, 10)))
            r[l] = rng.choice([-0.4, 0.8]) * rng.uniform(0.5, 1) / (2 * l + 1)
    else:
        raise ValueError(kind)
    r[0] = 1
    return r


def make(feat, seed, idx, **over):
    rng = rng_for(seed, "problem", idx, sorted(feat.items()))
    nq, L = int(feat["nq"]), int(feat["L"])
    N = nq // 2
    x, _ = gauss01(N)
    # --- layers
    base = {"std": rng.uniform(0.15, 0.9, L), "thin": 10 ** rng.uniform(-3, -1, L),
            "mixed": 10 ** rng.uniform(-2, 0.3, L), "thick": rng.uniform(1, 6, L)}[feat.get("thick", "std")]
    tmax = over.pop("tmax", None)
    if tmax and base.sum() > tmax:
        base = base * tmax / base.sum()
    tau = np.cumsum(base)
    om = {"std": rng.uniform(0.2, 0.95, L), "near1": 1 - 10 ** rng.uniform(-3.5, -2, L),
          "zerolayer": rng.uniform(0.2, 0.95, L), "allzero": np.zeros(L),
          "tiny": rng.uniform(0.2, 0.95, L)}[feat.get("om", "std")]
    alike = rng.random(4) < 0.2      # layers often share a value, or almost
    almost = lambda v: v * (1 + rng.choice([0, 0, 1e-8, 1e-5, 1e-3, 0.03]) * rng.uniform(-1, 1, v.shape))
    apart = rng_for(seed, "apart", idx)
    one = apart.random() < 0.12      # layers which differ in one respect only
    if one:
        respect = int(apart.integers(5))
        alike = np.arange(4) != respect
        almost = lambda v: v
    if alike[0]:
        om[:] = np.minimum(almost(np.full(L, om[0])), max(om[0], 0.9995))
    if alike[1]:
        tau = np.cumsum(almost(np.full(L, base.mean())))
    if feat.get("om") == "zerolayer":
        om[rng.integers(L)] = 0
    if feat.get("om") == "tiny":
        om[rng.integers(L)] = 10 ** rng.uniform(-11, -9.5)
    nleg = {"full": nq, "less": max(1, nq - 1 - int(rng.integers(0, N))), "one": 1, "few": min(nq, 2)}[feat.get("nleg", "full")]
    nf = {"full": nleg, "one": 1, "less": max(1, int(rng.integers(1, nleg + 1)))}[feat.get("nf", "full")]
    extra = {"none": 0, "some": int(rng.integers(1, 4)), "many": nq + 4}[feat.get("extra", "none")]
    gmax = over.pop("gmax", 0.8 if nq >= 4 else 0.5)
    gap0 = over.pop("gap", 0.012)
    pk = feat.get("phase", "hg")
    kinds = [pk] * L if pk != "vary" else list(rng.choice(["hg", "mix", "back", "iso", "short", "sharp", "gap"], L))
    leg = np.vstack([phase_row(rng, k, nleg + extra, gmax) for k in kinds])
    if alike[2]:
        leg[:] = leg[0]
    f = np.zeros(L)
    dl = feat.get("delta", "none")
    if dl != "none":
        f = rng.uniform(0.05, 0.4, L)
        if dl == "uniform":
            f[:] = f[0]
        elif dl == "mixed" and L > 1:
            f[rng.integers(L)] = 0
        elif dl == "strong":  # most of the scattering inside the peak
            f = rng.uniform(0.5, 0.85, L)
        if one and respect != 4 and dl != "mixed":
            f[:] = f[0]
        if dl == "strong":
            leg[:, 1:] = f[:, None] + (1 - f)[:, None] * leg[:, 1:]
        elif dl == "peak":   # the recommended choice: the first dropped coefficient
            f = np.abs(leg[:, nleg]) * (leg[:, nleg] > 0) if extra else f
    if pk in ("sharp", "vary"):
        resolve(dict(tau=tau, omega=om, nq=nq, leg=leg, f=f, nleg=nleg, nf=nf), leg, f)
    # --- beam
    I0 = {"unit": rng.uniform(0.5, 2), "big": rng.uniform(50, 1500), "small": 10 ** rng.uniform(-5, -3)}[feat.get("mag", "unit")]
    beam = feat.get("beam", "std")
    phi0 = float(rng.choice([0.0, rng.uniform(0, 2 * pi), pi, rng.uniform(3.5, 6.2)]))
    if beam == "none":
        I0, mu0 = 0.0, 0.37
    # --- isotropic source
    ns = int(feat.get("iso", 0))
    unit = {"unit": 1.0, "big": 300.0, "small": 1e-4}[feat.get("mag", "unit")]
    s = None
    if ns:
        s = rng.uniform(0.2, 1, (L, ns)) * unit / np.maximum(tau[-1], 3 if ns > 5 else 0.3) ** np.arange(ns)
        if ns > 8:
            # high degrees whose terms all matter: a_k k! is of the order of (the smallest eigenvalue)^k
            kap = 0.7 * np.sqrt((1 - om) * np.clip(1 - om * leg[:, 1] if leg.shape[1] > 1 else 1, 0.05, 1)) * (1 - om * f)
            k = np.arange(ns)
            s = rng.uniform(0.3, 1, (L, ns)) * unit * kap[:, None] ** k / np.cumprod(np.maximum(k, 1.0))
        if ns > 1:
            s[:, 1:] *= rng.choice([-0.5, 1], (L, ns - 1))
        pat = feat.get("isopat", "all")
        if alike[3]:
            s[:] = almost(np.tile(s[int(np.argmin(np.abs(s[:, -1])))], (L, 1)))
        if pat == "interior" and L > 2:
            s[0] = 0
            s[-1] = 0
        elif pat == "onelayer" and L > 1:
            keep = rng.integers(L)
            s[np.arange(L) != keep] = 0
        elif pat == "cancel" and ns > 1:        # coefficients which add up to nothing
            s[:, 2:] = 0
            s[:, 1] = -s[:, 0]
        elif pat == "lone":                     # a single power
            hard = tau[-1] < 0.3 or np.max(om) > 0.99      # a field that is mostly cancellation
            s[:, np.arange(ns) != rng.integers(min(ns, 2 if hard else 4))] = 0
    # --- boundary conditions
    def bc(kind):
        if kind == "zero":
            return 0
        if kind == "scalar":
            return float(rng.uniform(0.1, 1) * unit)
        if kind == "vector":
            return rng.uniform(0.1, 1, N) * unit
        b = rng.uniform(-0.3, 0.3, (N, nf)) * unit
        b[:, 0] = rng.uniform(0.4, 1, N) * unit
        return b
    b_pos, b_neg = bc(feat.get("bpos", "zero")), bc(feat.get("bneg", "zero"))
    # --- reflectance
    kind = feat.get("bdrf", "none")
    nb = {"none": 0, "scalar": 1, "scalar2": 2, "func": 1, "multi": 3, "mixed": 3, "many": nf + 2}[kind]
    bdrf = []
    for m in range(nb):
        a = rng.uniform(0.15, 0.5) if m == 0 else rng.uniform(0.05, 0.25)
        bright = m == 0 and rng.random() < 0.3
        if kind in ("scalar", "scalar2") or (kind == "mixed" and m % 2 == (1 if rng.random() < 0.5 else 0)):
            bdrf.append(ScalarMode(a + 0.47 if bright else a))
        else:
            bdrf.append(FuncMode(m, min(a + 0.3, 0.65) if bright else a, rng.uniform(0.1, 0.4), rng.uniform(0.05, 0.3)))
    cached = {"no": None, "plain": "plain", "mu0": "mu0"}[feat.get("cache", "no")]
    thr = 3 if feat.get("solver", "dense") == "banded" else (100 if feat.get("solver") == "dense" else 10)
    kw = dict(tau=tau, omega=om, nq=nq, leg=leg, I0=I0, phi0=phi0, nleg=nleg, nf=nf, b_pos=b_pos, b_neg=b_neg,
              f=f, bdrf=bdrf, cached=cached, s=s, thr=thr, nt=feat.get("nt") in ("yes", True))
    kw.update(over)
    # sometimes a beam direction where a naive formula divides by zero: on a quadrature node, or (with NT corrections)
    # where the peak-adjusted direction of the IMS term is on one
    mu0s = []
    if beam == "std" and rng.random() < 0.2:
        if not kw["nt"]:
            mu0s = list(rng.permutation(x))
        elif np.any(kw["f"] * om > 0):
            of = np.sum(om * kw["f"] * np.diff(tau, prepend=0)) / tau[-1]
            mu0s = [v * (1 - of) * (1 + rng.choice([0, 1e-13, -1e-10, 1e-7, 1e-4])) for v in rng.permutation(x)]
    for mu0 in mu0s:
        if mu0 > 0.05 and (not kw["nt"] or np.min(np.abs(x - mu0)) >= gap0) and resonance_gap(Problem(mu0=mu0, **kw)) > 3e-3:
            return Problem(mu0=float(mu0), **kw)
    # otherwise a beam direction away from quadrature nodes and from resonance with the layer eigenvalues
    for attempt in range(200):
        if beam == "none":
            break
        mu0 = {"std": rng.uniform(0.25, 0.95), "steep": 1.0, "graze": rng.uniform(0.03, 0.2)}[beam]
        if beam == "steep" and attempt:
            mu0 = rng.uniform(0.96, 0.999)
        if np.min(np.abs(x - mu0)) < gap0:
            continue
        if resonance_gap(Problem(mu0=mu0, **kw)) > 3e-3:
            break
    return Problem(mu0=mu0, **kw)


def resolve(kw, leg, f):
    """Blunt sharp phase functions until the streams resolve them (no mode is supercritical)."""
    for l in range(len(leg)):
        for attempt in range(60):
            worst = dict(kw, leg=leg, omega=np.maximum(kw["omega"], 0.999))
            variants = [dict(kw, leg=leg), worst, dict(worst, f=0 * f)] if not np.any(f > 0.45) else [dict(kw, leg=leg), worst]
            if all(resolved(Problem(**v), l) for v in variants):
                break
            leg[l] = f[l] + (leg[l] - f[l]) * 0.96 ** np.arange(leg.shape[1])
            leg[l, 0] = 1


def resolved(P, l):
    ph = Phys(P)
    for m in range(P.nf):
        A = (np.eye(P.nq) - ph.D(l, m) * ph.W[None, :]) / ph.mu[:, None]
        k = np.linalg.eigvals(A)
        low = 0.3 if m else 0.4 * np.sqrt(3 * (1 - P.somega[l]))
        if np.max(np.abs(k.imag)) > 1e-7 or np.min(np.abs(k.real)) < min(low, 0.3):
            return False
    return True


def resonance_gap(P):
    ph = Phys(P)
    gap = 9.0
    for l in range(P.L):
        if P.somega[l] == 0:
            continue
        for m in range(P.nf):
            D = ph.D(l, m)
            if not np.any(D):
                continue
            A = (np.eye(P.nq) - D * ph.W[None, :]) / ph.mu[:, None]
            k = np.linalg.eigvals(A)
            gap = min(gap, np.min(np.abs(k.real + 1 / P.mu0) * P.mu0))
            gap = min(gap, np.min(np.abs(k.real - 1 / P.mu0) * P.mu0))
    return gap
