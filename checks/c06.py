"""C06: change of net flux = absorbed minus emitted energy over every depth interval."""
from math import pi
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common

GX, GW = gauss01(8)


def float_job(item):
    """An interval that may span several layers, integrated panel by panel."""
    i, feat, seed, tag = item
    P = gen.make(feat, seed, i)
    rng = rng_for(seed, "c06", tag, i)
    if tag == "c":      # almost conservative: what is absorbed must be as little as the albedo says
        thick = P.thick * rng.choice([1.0, 1.0, 30.0 / max(P.tau[-1], 1)])
        s = None if P.s is None else P.s[:, :1]
        P = P.but(omega=1 - 10 ** rng.uniform(-8, -4, P.L) * rng.choice([1, 1e-1]), tau=np.cumsum(thick), s=s)
    sol = P.solve()
    from PythonicDISORT import subroutines as su
    apf, amf = sol.act()
    kmax = 1 / gauss01(P.N)[0].min()
    if P.I0 > 0:
        kmax = max(kmax, 1 / P.mu0)
    hmax = 2.5 / kmax
    t1 = rng.uniform(0, P.tau[-1]) * (rng.random() < 0.7)
    t2 = min(P.tau[-1], t1 + rng.uniform(0.2, 60) * hmax)
    edges = [t1] + [x for x in P.tau if t1 < x < t2] + [t2]
    nodes, wts, lay = [], [], []
    for a, b in zip(edges[:-1], edges[1:]):
        l = P.layer(0.5 * (a + b))
        n = int(np.ceil((b - a) / hmax)) or 1
        for j in range(n):
            lo, h = a + (b - a) * j / n, (b - a) / n
            nodes.append(lo + h * GX)
            wts.append(h * GW)
            lay += [l] * 8
    t, wt, lay = np.concatenate(nodes), np.concatenate(wts), np.array(lay)
    src = np.array([P.source(a, l) for a, l in zip(t, lay)])
    act = np.reshape(apf(t), -1) + np.reshape(amf(t), -1) + P.I0 * np.exp(-t / P.mu0)
    gain = np.sum(wt * (1 - P.omega[lay]) * (act - 4 * pi * src))
    te = np.array([t1, t2])
    fm, fd = sol.fm(te)
    net = sol.fp(te) - fm - fd
    mag = max(record.fmax(sol.fp(te), fm, fd), P.I0 * P.mu0 * 0.05, record.fmax(src) * np.sum(wt), record.fmax(act) * 0.05, 1e-300)
    d = net[1] - net[0] - gain
    v = abs(d) / (mag * min(1, max(t2 - t1, 0.02))) if np.isfinite(d) else np.inf
    return common.res_record(P, "%s%d" % (tag, i), feat, [common.res("C06.conserve" if tag == "c" else "C06.energy", v)])


def run(ctx):
    ctx.explore_scenarios()
    recs = common.run_arith(ctx, ctx.n(500, 8000), (), ("energy",))
    cans = common.make_canaries(recs, {"energy": ["net1"]})
    feats = ctx.scenarios("full", ctx.n(2500, 40000), 1)
    deep = ctx.scenarios("deep", ctx.n(60, 1000), 2)
    ctx.note("feature_pairs", common.pair_coverage(feats))
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "f") for i, f in enumerate(feats)])
    cons = [dict(f, om="near1", thick="std") for f in ctx.scenarios("full", ctx.n(250, 4000), 3)]
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "c") for i, f in enumerate(cons)])
    recs += ctx.replay(float_job, [(i, f, ctx.seed, "d") for i, f in enumerate(deep)], chunk=1)
    ctx.judge(ctx.validate("Column", recs, cans))
