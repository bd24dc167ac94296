"""C17: thermal helpers and isothermal cavities."""
import copy
import warnings
from math import pi
import numpy as np
import scipy.constants as sc
from vlib import gen, record
from vlib.problem import rng_for, gauss01, ScalarMode, FuncMode
from . import common

GCFG = "CONSTANTS MaxT = 7\nMaxCuts = 4\nSPECIFICATION GSpec\nINVARIANT Ascending\nCHECK_DEADLOCK FALSE\n"
ECFG = "CONSTANTS MaxT = 1\nMaxCuts = 1\nSPECIFICATION ESpec\nINVARIANT Equilibrium\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANTS MaxT = 1\nMaxCuts = 1\nSPECIFICATION JSpec\n"


def bose(T, nu):
    """Planck intensity per wavenumber in inverse centimetres, from its definition."""
    T = np.asarray(T, float)
    with np.errstate(all="ignore"):
        x = sc.h * sc.c * 100 * nu / (sc.k * T)
        return np.where(T > 0, 2 * sc.h * sc.c ** 2 * (100 * nu) ** 3 * 100 / np.expm1(x), 0.0)


def integral(T, lo, hi):
    """Composite Gauss quadrature on panels that resolve the spectrum."""
    if T <= 0:
        return 0.0
    x, w = gauss01(16)
    width = max(T * sc.k / (sc.h * sc.c * 100) / 2, 1e-9)
    hi = min(hi, lo + 400 * width)
    n = int(np.ceil((hi - lo) / width)) or 1
    e = np.linspace(lo, hi, n + 1)
    nu = e[:-1, None] + np.diff(e)[:, None] * x[None, :]
    return float(np.sum(bose(T, nu) * w[None, :] * np.diff(e)[:, None]))


def helper_events(q, rng):
    from PythonicDISORT import subroutines as su
    evs = []
    T, E = q["temps"], q["edges"]
    L = len(T) - 1
    give = (lambda v: [float(x) for x in v]) if q["form"] == "list" else (lambda v: np.array(v, float))
    # --- Planck function
    nu = float(rng.uniform(max(E[0], 0.5), E[-1]))
    e = dict(k="planck", raised=False)
    try:
        up = sorted(set(t for t in T if t >= nu / 60) | {float(np.ceil(nu / 40)), 300.0 + nu / 20})
        v = np.array([float(su.Planck(t, nu)) for t in up])
        vec = np.atleast_1d(su.Planck(give(T), nu))
        e["zero"] = record.fx(float(np.atleast_1d(su.Planck(0, nu))[0]) + float(np.atleast_1d(su.Planck(np.array([0.0, 250.0]), nu))[0]))
        e["ratio"] = [0] + [int(np.floor(a / b * 1e8)) if np.isfinite(a / b) and a < b else record.BAD for a, b in zip(v, v[1:])]
        e["positive"] = bool(np.all(v > 0))
        one = np.array([float(np.atleast_1d(su.Planck(t, nu))[0]) for t in T])
        e["shape"] = bool(np.ndim(su.Planck(300.0, nu)) == 0 and len(vec) == len(T) and np.allclose(vec, one, rtol=1e-12, atol=0))
        e["stefan"], e["wien"] = [], []
        for t in (rng.uniform(100, 400), rng.uniform(1000, 6000)):
            top = 30 * sc.k * t / (sc.h * sc.c * 100)
            tot = sum(float(su.blackbody_contrib_to_BCs(t, a, b)) for a, b in zip(np.linspace(0, top, 4)[:-1], np.linspace(0, top, 4)[1:]))
            e["stefan"].append(record.fx(tot / (sc.sigma * t ** 4 / pi)))
            grid = np.linspace(0.5, 1.5, 801) * 2.82143937 * sc.k * t / (sc.h * sc.c * 100)
            b = np.array([float(su.Planck(t, g)) for g in grid])
            e["wien"].append(record.fx(grid[int(np.argmax(b))] / (2.82143937 * sc.k * t / (sc.h * sc.c * 100))))
    except Exception as x:
        e.update(raised=True, what=repr(x)[:300])
    evs.append(e)
    # --- bands
    e = dict(k="band", raised=False)
    try:
        kw = {} if rng.random() < 0.6 else dict(epsrel=1e-10)
        whole = np.atleast_1d(su.blackbody_contrib_to_BCs(give(T), E[0], E[-1], **kw))
        parts = [np.atleast_1d(su.blackbody_contrib_to_BCs(give(T), a, b, **kw)) for a, b in zip(E, E[1:])]
        ref = np.array([integral(t, E[0], E[-1]) for t in T])
        m = max(ref.max(), 1e-300)
        e["whole"], e["integral"], e["parts"] = record.fx(whole, m), record.fx(ref, m), [record.fx(p, m) for p in parts]
        alone = [su.blackbody_contrib_to_BCs(t, E[0], E[-1]) for t in T]
        # the error control of the quadrature is shared by the temperatures of one call
        e["shape"] = bool(len(whole) == len(T) and np.allclose(np.array(alone, float).ravel(), ref, rtol=1e-6, atol=1e-9 * m))
    except Exception as x:
        e.update(raised=True, what=repr(x)[:300])
    evs.append(e)
    # --- source polynomials
    e = dict(k="source", raised=False)
    try:
        tau = np.cumsum(10 ** rng.uniform(rng.choice([-2.5, -2.5, -5.5]), 0.7, L))
        s = su.generate_s_poly_coeffs(float(tau[0]) if L == 1 and rng.random() < 0.5 else give(tau), give(T), E[0], E[-1])
        b = np.concatenate([[0.0], tau])
        e["rows"], e["cols"] = np.shape(s) if np.ndim(s) == 2 else (0, 0)
        e["at"] = [record.fx([s[l, 0] + s[l, 1] * b[l], s[l, 0] + s[l, 1] * b[l + 1]], m) for l in range(L)]
        e["want"] = record.fx(ref, m)
    except Exception as x:
        e.update(raised=True, what=repr(x)[:300])
    evs.append(e)
    # --- emissivity
    e = dict(k="emiss", raised=False)
    try:
        N = int(rng.integers(1, 7))
        md = FuncMode(0, rng.uniform(0.05, 0.6), rng.uniform(-0.4, 0.4), rng.uniform(-0.3, 0.3))
        x, w = gauss01(N)
        r0 = float(rng.uniform(0, 1))
        e.update(rho=record.fx(md.matrix(x, x)), mu=record.fx(x), w=record.fx(w), rho0=record.fx(r0),
                 eps=record.fx(np.atleast_1d(su.generate_emissivity_from_BDRF(N, md.arg()))), flat=record.fx(float(su.generate_emissivity_from_BDRF(N, r0))))
    except Exception as x:
        e.update(raised=True, what=repr(x)[:300])
    evs.append(e)
    return evs


def job(item):
    i, q, seed, feat = item
    from PythonicDISORT import subroutines as su
    rng = rng_for(seed, "c17", i)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        evs = helper_events(q, rng)
        # --- the cavity
        P = gen.make(dict(feat, beam="none"), seed, i)
        T = float(max(q["temps"])) or 250.0
        lo, hi = q["edges"][0], q["edges"][-1]
        if integral(T, lo, hi) < 1e-12:
            T = 300.0
        e = dict(k="cavity", raised=False)
        try:
            E = float(su.blackbody_contrib_to_BCs(T, lo, hi))
            s = su.generate_s_poly_coeffs(P.tau, np.full(P.L + 1, T), lo, hi)
            eps = su.generate_emissivity_from_BDRF(P.N, P.bdrf[0].arg()) if P.bdrf else 1.0
            P = P.but(I0=0, s=s, b_neg=E, b_pos=E * eps if np.ndim(eps) else float(E * eps), nt=False, only_flux=bool(rng.random() < 0.2))
            sol = P.solve()
            t = np.concatenate([[0.0, P.tau[-1]], rng.uniform(0, P.tau[-1], 2), rng.choice(P.tau, 1)])
            E = integral(T, lo, hi)
            u = sol.u0(t) if sol.uf is None else sol.u(t, rng.uniform(0, 6.28, 2))
            u = np.concatenate([np.ravel(u), np.ravel(sol.u0(t))])
            fm, fd = sol.fm(t)
            e["u"] = record.fx([u[np.argmax(np.abs(u - E))], u[0], u[-1], np.min(u), np.max(u)], E)
            e["flux"] = record.fx(np.concatenate([sol.fp(t), fm]), pi * E)
            e["net"] = record.fx(np.concatenate([sol.fp(t) - fm, fd]), pi * E)
        except Exception as x:
            e.update(raised=True, what=repr(x)[:300])
        evs.append(e)
    return dict(id="t%d" % i, ev=evs, _about=dict(common.about(P, feat), setting=q))


def run(ctx):
    ctx.tlc("Thermal", ECFG, workers=1)
    n = ctx.n(900, 12000)
    qs = ctx.tlc("Thermal", GCFG, simulate=n, depth=16).prints("THERM")[:n]
    feats = ctx.scenarios("full", n - n // 4) + ctx.scenarios("nt", n // 4, 1)
    rng = rng_for(ctx.seed, "c17f")
    feats = [dict(f, om="near1") if rng.random() < 0.15 else f for f in feats]
    recs = ctx.replay(job, [(i, q, ctx.seed, f) for i, (q, f) in enumerate(zip(qs, feats))], chunk=2)
    ctx.note("settings", len(recs))
    ctx.samples.append(qs[0])
    bump = dict(planck=lambda e: e["stefan"].__setitem__(0, e["stefan"][0] + 10000), band=lambda e: e["parts"][0].__setitem__(e["whole"].index(max(e["whole"])), e["parts"][0][0] + 5000000),
                source=lambda e: e["at"][-1].__setitem__(1, e["at"][-1][1] + 1000), emiss=lambda e: e["eps"].__setitem__(0, e["eps"][0] + 5000),
                cavity=lambda e: e["flux"].__setitem__(0, e["flux"][0] + 1000))
    cans = []
    for k, f in bump.items():
        r = next(r for r in recs if not [e for e in r["ev"] if e["k"] == k][0]["raised"])
        c = dict(id="canary-" + k, ev=[copy.deepcopy([e for e in r["ev"] if e["k"] == k][0])])
        f(c["ev"][0])
        cans.append(c)
    ctx.judge(ctx.validate("Thermal", recs, cans, cfg=JCFG))
