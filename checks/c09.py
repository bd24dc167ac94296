"""C09: antiderivative outputs integrate the corresponding functions."""
import numpy as np
from vlib import gen
from vlib.problem import rng_for
from . import common, calculus


def outputs_of(P, sol, rng):
    from PythonicDISORT import subroutines as su
    ap, am = sol.act()
    i0 = su.interpolate(sol.u0f)
    mu = np.sort(rng.uniform(-1, 1, 3))
    rs = lambda v, n: np.reshape(v, (-1, n))
    out = dict(up=lambda t, q=False: sol.fp(t, q), down=lambda t, q=False: sol.fm(t, q)[0], direct=lambda t, q=False: sol.fm(t, q)[1],
               zeroth=lambda t, q=False: sol.u0(t, q), act_up=lambda t, q=False: rs(ap(t, q), len(t)), act_down=lambda t, q=False: rs(am(t, q), len(t)),
               interp0=lambda t, q=False: rs(sol.ask(lambda x, *a, **k: i0(mu, x, *a, **k), "u0", t, anti=q)[0], len(t)))
    if sol.uf is not None:
        phi = rng.uniform(0, 6.28, 2)
        iu = su.interpolate(sol.uf)
        # (mu, tau, phi) -> (mu phi, tau)
        mv = lambda v: np.moveaxis(v, 1, 2).reshape(-1, v.shape[1])
        out["intensity"] = lambda t, q=False: mv(sol.u(t, phi, q))
        out["interp"] = lambda t, q=False: mv(np.reshape(sol.ask(lambda x, *a, **k: iu(mu, x, *a, **k), "u", t, phi, anti=q)[0], (3, len(t), 2)))
    return {k: (f, (lambda f: lambda t: f(t, True))(f)) for k, f in out.items()}


def job(item):
    i, feat, seed, small = item
    P = gen.make(feat, seed, i, **(dict(tmax=6.0) if small else {}))
    if feat.get("onlyflux"):
        P = calculus.flux_only(P)
    rng = rng_for(seed, "c09", i)
    return calculus.recording(P, "C09", "c%d" % i, feat, calculus.intervals(P, rng, small), outputs_of(P, P.solve(), rng), small)


def run(ctx):
    ctx.explore_scenarios()
    fs = ctx.scenarios("full", ctx.n(500, 6000)) + ctx.scenarios("nt", ctx.n(300, 4000), 1)
    small = [dict(f, onlyflux=(k % 9 == 0)) for k, f in enumerate(fs)]
    big = ctx.scenarios("full", ctx.n(300, 6000), 2) + ctx.scenarios("nt", ctx.n(200, 4000), 3)
    recs = ctx.replay(job, [(i, f, ctx.seed, True) for i, f in enumerate(small)], chunk=4)
    recs += ctx.replay(job, [(10000 + i, f, ctx.seed, False) for i, f in enumerate(big)], chunk=4)
    ctx.note("intervals_integrated_by_TLC", sum(e["k"] == "int" for r in recs for e in r["ev"]))
    ctx.note("intervals_integrated_in_floating_point", sum(e["k"] == "res" for r in recs for e in r["ev"]))
    ctx.note("outputs", sorted({e["o"] for r in recs for e in r["ev"]}))
    ctx.samples.append(recs[0]["_about"]["feat"])
    cans = common.make_canaries(recs, {"int": ["d", -1], "res": ["v"]})
    ctx.judge(ctx.validate("Calculus", recs, cans))
