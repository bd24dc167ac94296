"""C05: fluxes, zeroth mode, intensity, direct beam and actinic flux agree."""
from math import pi
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common


def float_job(item):
    i, feat, seed, tag = item
    P = gen.make(feat, seed, i)
    rng = rng_for(seed, "c05", tag, i)
    if rng.random() < 0.15:
        P = P.but(only_flux=True, b_pos=first(P.b_pos), b_neg=first(P.b_neg))
    sol = P.solve()
    from PythonicDISORT import subroutines as su
    apf, amf = sol.act()
    ls = rng.integers(0, P.L, 6)
    t = np.array([record.lower(P, l, P.tau0[l] + P.thick[l] * rng.choice([0.0, 1.0, rng.random()])) for l in ls])
    x, w = gauss01(P.N)
    st = np.array([P.stau(a, l) for a, l in zip(t, ls)])
    E, Es = np.exp(-t / P.mu0), np.exp(-st / P.mu0)
    u0 = sol.u0(t)
    fm, fd = sol.fm(t)
    dev = [sol.fp(t) - 2 * pi * (x * w) @ u0[:P.N],
           fm - 2 * pi * (x * w) @ u0[P.N:] - P.I0 * P.mu0 * (Es - E),
           fd - P.I0 * P.mu0 * E,
           np.reshape(apf(t), -1) - 2 * pi * w @ u0[:P.N],
           np.reshape(amf(t), -1) - 2 * pi * w @ u0[P.N:] - P.I0 * (Es - E)]
    sc = max(record.fmax(u0), P.I0 * 0.05, 1e-300)
    if not P.only_flux:
        S2 = P.but(nt=False).solve() if P.nt else sol
        th = pi * (2 * np.arange(P.nf) + 1) / (2 * P.nf)
        dev.append(np.mean(S2.u(t, P.phi0 - th), axis=2) - u0)
    evs = []
    for d in dev:
        # relative to the size of the field, and the direct flux relative to itself
        evs.append(common.res("C05.flux", np.max(np.abs(d)) / sc if np.all(np.isfinite(d)) else np.inf))
    if P.I0 > 0:
        ex = P.I0 * P.mu0 * E
        with np.errstate(all="ignore"):
            r = np.where(ex > 1e-250, np.abs(fd - ex) / np.maximum(ex, 1e-290), 0)
        evs.append(common.res("C05.flux", np.max(r) if np.all(np.isfinite(fd)) else np.inf))
    return common.res_record(P, "%s%d" % (tag, i), feat, evs)


def first(b):
    return np.asarray(b)[:, 0].copy() if np.ndim(b) == 2 else b


def run(ctx):
    ctx.explore_scenarios()
    recs = common.run_arith(ctx, ctx.n(500, 8000), (), ("flux", "mean"))
    cans = []
    for f in ("fp", "fm", "fd", "ap", "am"):
        cans += common.make_canaries(recs, {"flux": [f]})
    cans += common.make_canaries(recs, {"mean": ["u0", 0]})
    feats = ctx.scenarios("full", ctx.n(2500, 40000), 1)
    deep = ctx.scenarios("deep", ctx.n(50, 1000), 2)
    nt = ctx.scenarios("nt", ctx.n(200, 3000), 3)
    ctx.note("feature_pairs", common.pair_coverage(feats))
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "f") for i, f in enumerate(feats + nt)])
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "d") for i, f in enumerate(deep)], chunk=1)
    ctx.judge(ctx.validate("Column", recs, cans))
