"""C02: boundary conditions at top and bottom, every mode."""
import numpy as np
from vlib import gen, measure
from . import common

ASSUMPTIONS = ["beams within 0.3% of resonance with an eigenvalue, and f = 1, are outside the explored domain"]


def float_job(item):
    i, feat, seed, tag = item
    P = gen.make(feat, seed, i)
    P.nt = False
    sol = P.solve()
    top, bot = measure.bc_residual(P, sol)
    fin = lambda r: r if np.all(np.isfinite(r)) else np.inf
    return common.res_record(P, "%s%d" % (tag, i), feat, [common.res("C02.top", fin(top)), common.res("C02.bottom", fin(bot))])


def run(ctx):
    ctx.explore_scenarios()
    recs = common.run_arith(ctx, ctx.n(500, 8000), ("ends",))
    cans = common.make_canaries(recs, {"top": ["u", 0, -1], "bottom": ["u", 0, 0]})
    feats = ctx.scenarios("full", ctx.n(4000, 60000), 1)
    deep = ctx.scenarios("deep", ctx.n(80, 2000), 2)
    ctx.note("feature_pairs", common.pair_coverage(feats))
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "f") for i, f in enumerate(feats)])
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "d") for i, f in enumerate(deep)], chunk=1)
    ctx.judge(ctx.validate("Column", recs, cans))
