"""C19: automatic differentiation in autograd-compatible mode gives the depth derivatives of the outputs."""
import numpy as np
from vlib import gen
from vlib.problem import rng_for, gauss01
from . import common, calculus


def deriv(f, t, scalarwise):
    """(components, depths) derivative of f: depth array -> array whose last axis is depth."""
    import autograd
    t = np.asarray(t, float)
    if scalarwise:     # one scalar depth at a time
        J = [np.asarray(autograd.jacobian(lambda x: f(x))(float(x))) for x in t]
        return np.stack([j.reshape(-1) for j in J], axis=-1)
    J = autograd.jacobian(f)(t)
    J = J.reshape((-1, len(t), len(t)))
    return np.einsum("ctt->ct", J)


def outputs_of(P, sol, rng):
    import autograd.numpy as anp
    phi = rng.uniform(0, 6.28, 2)
    raw = dict(up=lambda t: anp.reshape(sol.Fp(t), (1, -1)), down=lambda t: anp.reshape(sol.Fm(t)[0], (1, -1)),
               direct=lambda t: anp.reshape(sol.Fm(t)[1], (1, -1)), zeroth=lambda t: anp.reshape(sol.u0f(t), (P.nq, -1)))
    if sol.uf is not None:
        raw["intensity"] = lambda t: anp.reshape(anp.swapaxes(anp.reshape(sol.uf(t, phi), (P.nq, -1, 2)), 1, 2), (2 * P.nq, -1))
        ph = float(phi[0])
        raw["intensity1"] = lambda t: anp.reshape(sol.uf(t, ph), (P.nq, -1))
    sw = bool(rng.random() < 0.25)

    def D(o, f):
        if sw:
            return lambda t: np.concatenate([deriv(f, t[i:i + 1], rng.random() < 0.5) for i in range(len(t))], axis=-1)
        return lambda t: deriv(f, t, False)
    return {o: (D(o, f), lambda t, f=f: np.asarray(f(t))) for o, f in raw.items()}


def job(item):
    i, feat, seed = item
    P = gen.make(feat, seed, i, tmax=6.0).but(autograd=True)
    if feat.get("onlyflux"):
        P = calculus.flux_only(P)
    rng = rng_for(seed, "c19", i)
    return calculus.recording(P, "C19", "c%d" % i, feat, calculus.intervals(P, rng, True), outputs_of(P, P.solve(), rng), True)


def run(ctx):
    ctx.explore_scenarios()
    fs = ctx.scenarios("full", ctx.n(260, 4000)) + ctx.scenarios("nt", ctx.n(180, 3000), 1)
    fs = [dict(f, onlyflux=(k % 9 == 0), L=f["L"] if int(f["L"]) < 7 else "5") for k, f in enumerate(fs)]
    recs = ctx.replay(job, [(i, f, ctx.seed) for i, f in enumerate(fs)], chunk=2)
    ctx.note("derivatives_integrated_by_TLC", sum(e["k"] == "int" for r in recs for e in r["ev"]))
    ctx.samples.append(recs[0]["_about"]["feat"])
    cans = common.make_canaries(recs, {"int": ["d", -1]})
    ctx.judge(ctx.validate("Calculus", recs, cans))
