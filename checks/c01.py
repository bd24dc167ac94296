"""C01: every mode of the returned intensity satisfies the transfer equation in every layer."""
import numpy as np
from vlib import gen, measure
from vlib.problem import rng_for
from . import common

ASSUMPTIONS = ["scattering terms below 1e-7 per coefficient may be neglected (documented shortcut for non-scattering layers)",
               "beams within 0.3% of resonance with an eigenvalue, and f = 1, are outside the explored domain"]


def float_job(item):
    i, feat, seed, tag = item
    P = gen.make(feat, seed, i)
    P.nt = False
    sol = P.solve()
    rng = rng_for(seed, "c01", tag, i)
    evs = []
    ivs = measure.intervals(P, rng)
    if len(ivs) > 12:
        ivs = [ivs[j] for j in sorted(rng.choice(len(ivs), 12, replace=False))]
    for iv in ivs:
        r, _ = measure.rte_residual(P, sol, iv)
        evs.append(common.res("C01.rte", r if np.all(np.isfinite(r)) else np.inf))
    return common.res_record(P, "%s%d" % (tag, i), feat, evs)


def run(ctx):
    ctx.explore_scenarios()
    recs = common.run_arith(ctx, ctx.n(260, 4000), ("interval",))
    cans = common.make_canaries(recs, {"interval": ["u", 0, 1, 0]})
    feats = ctx.scenarios("full", ctx.n(2500, 40000), 1)
    deep = ctx.scenarios("deep", ctx.n(60, 1500), 2)
    ctx.note("feature_pairs", common.pair_coverage(feats))
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "f") for i, f in enumerate(feats)])
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "d") for i, f in enumerate(deep)], chunk=1)
    ctx.judge(ctx.validate("Column", recs, cans))
