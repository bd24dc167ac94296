"""C07: delta-M scaling is the same as solving the problem scaled by hand."""
from math import pi
import numpy as np
from numpy.polynomial import polynomial as npoly
from vlib import gen, record
from vlib.problem import rng_for
from . import common


def shifted_source(P):
    """Source as polynomial of scaled depth: s*(t*) = s(t(t*)) in every layer."""
    if P.s is None:
        return None
    out = []
    for l in range(P.L):
        # t = tau0 + (t* - stau0) / scale
        inner = np.array([P.tau0[l] - P.stau0[l] / P.scale[l], 1 / P.scale[l]])
        acc = np.zeros(1)
        for c in P.s[l][::-1]:
            acc = npoly.polyadd(npoly.polymul(acc, inner), [c])
        row = np.zeros(P.s.shape[1])
        row[:len(acc)] = acc[:P.s.shape[1]]
        out.append(row)
    return np.array(out)


def job(item):
    i, feat, seed = item
    P = gen.make(feat, seed, i, tmax=8.0)
    P.nt = False
    if np.any(P.sleg[:, 1:] <= -1) or np.any(P.f >= 1):
        return None
    g = P.sleg.copy()
    g[:, 0] = 1
    Q = P.but(tau=P.stau0[1:], omega=P.somega, leg=g, f=None, s=shifted_source(P))
    a, b = P.solve(), Q.solve()
    rng = rng_for(seed, "c07", i)
    ls = rng.integers(0, P.L, 4)
    t = np.array([record.lower(P, l, P.tau0[l] + P.thick[l] * rng.choice([0.0, 1.0, rng.random()])) for l in ls])
    ts = np.minimum([P.stau(x, l) for x, l in zip(t, ls)], Q.tau[-1])
    phi = rng.uniform(0, 6.28, 2)
    u, v = a.u(t, phi), b.u(ts, phi)
    fp, gp = a.fp(t), b.fp(ts)
    (fm, fd), (gm, gd) = a.fm(t), b.fm(ts)
    scu = max(record.fmax(u, v), P.I0 * 1e-3) or 1.0
    scf = max(record.fmax(fp, fm, fd, gp, gm, gd), P.I0 / 8) or 1.0
    beamok = bool(P.I0 == 0 or P.tau[-1] / P.mu0 < 18)
    fx = record.fx
    evs = []
    for j in range(len(t)):
        l = int(ls[j])
        evs.append(dict(k="point", l=l + 1, a=fx(t[j] - P.tau0[l]), t=fx(ts[j]), u=fx(u[:, j].ravel(), scu), v=fx(v[:, j].ravel(), scu),
                        fp=fx(fp[j], scf), gp=fx(gp[j], scf), fm=fx(fm[j], scf), gm=fx(gm[j], scf), fd=fx(fd[j], scf), gd=fx(gd[j], scf),
                        I0=fx(P.I0, scf), beamok=beamok))
    if i % 4 == 0 and np.max(P.f) <= 0.45:  # zero fractions against no fractions (strong: not resolved without scaling)
        Z = P.but(f=np.zeros(P.L))
        z0 = Z.solve()
        import PythonicDISORT
        from vlib.problem import Sol
        kw = Z.kwargs()
        del kw["f_arr"]
        z1 = Sol(Z, PythonicDISORT.pydisort(*Z.args(), **kw))
        x = np.concatenate([z0.u(t, phi).ravel(), z0.fp(t), z0.fm(t)[0]])
        y = np.concatenate([z1.u(t, phi).ravel(), z1.fp(t), z1.fm(t)[0]])
        sc = record.fmax(x, y) or 1.0
        evs.append(dict(k="none", u=fx(x, sc), v=fx(y, sc)))
    return dict(id="s%d" % i, L=P.L, nleg=P.nleg, mu0=fx(P.mu0), h=fx(P.thick), om=fx(P.omega), f=fx(P.f), g=fx(P.leg[:, :P.nleg]),
                sh=fx(Q.thick), som=fx(Q.omega), sg=fx(Q.leg), ev=evs, _about=common.about(P, feat))


def run(ctx):
    ctx.explore_scenarios()
    feats = [f for f in ctx.scenarios("quiet", ctx.n(2600, 30000)) if f["delta"] != "none" or f["nq"] == "4"]
    nt = ctx.scenarios("nt", ctx.n(500, 6000), 1)
    deep = [f for f in ctx.scenarios("deep", ctx.n(60, 600), 2)]
    recs = [r for r in ctx.replay(job, [(i, f, ctx.seed) for i, f in enumerate(feats + nt + deep)], chunk=4) if r]
    ctx.note("feature_pairs", common.pair_coverage(feats))
    ctx.samples.append(recs[0]["_about"]["feat"])
    from vlib.runner import corrupt
    cans = [corrupt(recs[0], ["ev", 0, f] if f != "u" else ["ev", 0, "u", 0], 5000, "canary-" + f) for f in ("u", "fp", "fm")]
    ctx.judge(ctx.validate("DeltaM", recs, cans))
