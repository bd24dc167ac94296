"""C08: the NT corrections add exactly the TMS and IMS terms, to the intensity only, and only when meaningful."""
import numpy as np
from vlib import gen, measure, record
from vlib.problem import rng_for, gauss01
from . import common


def head(P, sid, feat):
    fx = record.fx
    return dict(id=sid, nq=P.nq, N=P.N, L=P.L, nleg=P.nleg, nall=P.leg.shape[1], mu0=fx(P.mu0), mu=fx(gauss01(P.N)[0]),
                w=fx(gauss01(P.N)[1]), h=fx(P.thick), om=fx(P.omega), f=fx(P.f), g=fx(P.leg), nt=P.nt, onlyflux=P.only_flux,
                hasbeam=bool(P.I0 > 0), ev=[], _about=common.about(P, feat))


def job(item):
    i, feat, seed, small = item
    kw = dict(tmax=4.0, gmax=0.55, gap=0.07) if small else {}
    P = gen.make(feat, seed, i, **kw)
    P.nt = True
    rng = rng_for(seed, "c08", i)
    active = P.nt_active()
    if P.I0 > 0 and np.min(np.abs(gauss01(P.N)[0] - P.mu0)) < 1e-3:
        return None
    if small and active:
        of = np.sum(P.omega * P.f * P.thick) / P.tau[-1]
        r = P.leg.copy()
        r[:, :P.nleg] = P.f[:, None]
        r = np.sum(r * (P.omega * P.thick)[:, None], axis=0) / np.sum(P.f * P.omega * P.thick)
        if (np.sum((2 * np.arange(len(r)) + 1) * np.abs(2 * r - r**2)) > 50 or P.tau[-1] / P.mu0 > 18 or np.max(np.abs(r)) > 1.5 or not 1e-3 < of < 1 - P.mu0 / 10
                or P.leg.shape[1] > 20 or np.max(np.sum((2 * np.arange(P.leg.shape[1]) + 1) * np.abs(P.leg), axis=1) / (1 - P.f)) > 64 or np.sum((2 * np.arange(P.leg.shape[1]) + 1) * np.abs(P.leg), axis=1).max() > 12
                or np.sum((2 * np.arange(P.nleg) + 1) * np.abs(P.sleg), axis=1).max() > 15):
            return None
    a, b = P.solve(), P.but(nt=False).solve()
    ls = rng.integers(0, P.L, 3)
    t = np.array([record.lower(P, l, P.tau0[l] + P.thick[l] * rng.choice([0.0, 1.0, rng.random()])) for l in ls])
    phi = rng.uniform(0, 6.28, 3)
    phi[0] = P.phi0 if rng.random() < 0.4 else phi[0]
    ua, ub = a.u(t, phi), b.u(t, phi)
    d = ua - ub
    H = head(P, "n%d" % i, feat)
    sc = max(record.fmax(ua, ub), P.I0 / 8) or 1.0
    fx = record.fx
    w = 2 * np.arange(P.leg.shape[1]) + 1
    oms = P.omega * (1 - P.f) / (1 - P.omega * P.f)
    bracket = np.sum(w * np.abs(P.leg), axis=1) / (1 - P.f) + np.sum(w[:P.nleg] * np.abs(P.sleg), axis=1)
    if active and small and np.max(4 * oms * P.I0 / sc / (4 * np.pi) * bracket / 4) < 18:     # within the range of the numbers of TLC
        for j in range(len(t)):
            H["ev"].append(dict(k="cor", l=int(ls[j]) + 1, a=fx(t[j] - P.tau0[ls[j]]), I0=fx(P.I0, sc), cphi=fx(np.cos(P.phi0 - phi[j])),
                                d=fx(d[:, j, j], sc)))
    elif active:
        ref = measure.nt_reference(P, t, phi)
        dd = np.abs(d - ref)
        H["ev"].append(dict(k="res", v=record.unit9(np.max(dd) / max(record.fmax(ref), 1e-3 * sc) if np.all(np.isfinite(dd)) else np.inf)))
    else:
        H["ev"].append(dict(k="inert", what="intensity", u=fx(ua.ravel(), sc), v=fx(ub.ravel(), sc)))
    x = np.concatenate([a.fp(t), *a.fm(t), a.u0(t).ravel()])
    y = np.concatenate([b.fp(t), *b.fm(t), b.u0(t).ravel()])
    sc = record.fmax(x, y) or 1.0
    H["ev"].append(dict(k="inert", what="flux", u=fx(x, sc), v=fx(y, sc)))
    return H


def run(ctx):
    ctx.explore_scenarios()
    small = [dict(f, nq=["2", "4", "6"][k % 3], L=["1", "2", "3"][k // 3 % 3]) for k, f in enumerate(ctx.scenarios("nt", ctx.n(700, 9000)))]
    for f in small:
        if f["L"] == "1":
            f["om"] = "std" if f["om"] == "zerolayer" else f["om"]
            f["delta"] = "uniform" if f["delta"] in ("mixed", "varied") else f["delta"]
    big = ctx.scenarios("nt", ctx.n(700, 12000), 1)
    anyf = ctx.scenarios("full", ctx.n(500, 6000), 2)
    recs = ctx.replay(job, [(i, f, ctx.seed, True) for i, f in enumerate(small)])
    recs += ctx.replay(job, [(10000 + i, f, ctx.seed, False) for i, f in enumerate(big + anyf)], chunk=4)
    recs = [r for r in recs if r]
    ncor = sum(e["k"] == "cor" for r in recs for e in r["ev"])
    ctx.note("corrections_evaluated_by_TLC", ncor)
    ctx.note("corrections_against_float_reference", sum(e["k"] == "res" for r in recs for e in r["ev"]))
    ctx.samples.append(recs[0]["_about"]["feat"])
    cans = common.make_canaries(recs, {"cor": ["d", -1], "inert": ["u", -1]})
    ctx.judge(ctx.validate("Nt", recs, cans))
