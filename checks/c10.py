"""C10: linear in beam, internal source, top and bottom conditions."""
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common, calculus

GCFG = 'CONSTANTS Mode = "%s"\nSteps = %d\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n'
JCFG = 'CONSTANTS Mode = "judge"\nSteps = 0\nSPECIFICATION JSpec\n'


def job(item):
    i, log, feat, seed = item
    P = gen.make(dict(feat, mag="unit"), seed, i)
    if feat.get("onlyflux"):
        P = calculus.flux_only(P)
    if P.s is not None and feat["inner"] and P.nmodes() >= 1:
        P = P.but(s=inner_source(P))
    off = [not P.I0 > 0, P.s is None, not np.any(np.asarray(P.b_neg)), not np.any(np.asarray(P.b_pos))]
    rng = rng_for(seed, "c10", i)
    t = np.concatenate([[0.0, P.tau[-1]], rng.uniform(0, P.tau[-1], 2), rng.choice(P.tau, 1)])
    phi = rng.uniform(0, 6.28, 2)
    from PythonicDISORT import subroutines as su
    vs = []
    for x in log:
        amp = [0.0 if o else y["a"] * 10.0 ** y["e"] for y, o in zip(x, off)]
        Q = P.but(I0=P.I0 * amp[0], s=None if P.s is None else P.s * amp[1], b_neg=np.asarray(P.b_neg) * amp[2], b_pos=np.asarray(P.b_pos) * amp[3])
        sol = Q.solve()
        ap, am = sol.act()
        v = []
        for q in (False, True):
            fm, fd = sol.fm(t, q)
            v.append([sol.fp(t, q), fm, fd, np.reshape(ap(t, q), -1), np.reshape(am(t, q), -1)])
            v.append(sol.u0(t, q))
            if sol.uf is not None:
                v.append(sol.u(t, phi, q))
        on = [y["e"] for y, a in zip(x, amp) if a]
        e = max(on) if on else 0
        vs.append((e, [np.asarray(w, float) / 10.0 ** e for w in v]))
    nq = len(vs[0][1])
    sc = []
    for k in range(nq):
        sc.append(max([record.fmax(v[k]) for _, v in vs] + [1e-12 * max(P.I0, record.fmax(P.b_neg, P.b_pos))]) or 1.0)
    ev = []
    pick = None
    for x, (e, v) in zip(log, vs):
        w = np.concatenate([np.ravel(v[k]) / sc[k] for k in range(nq)])
        if pick is None:
            pick = rng.choice(len(w), min(60, len(w)), replace=False)
        bad = not np.all(np.isfinite(w))
        w = w[pick]
        if bad:
            w[0] = np.nan
        ev.append(dict(x=x, e=e, v=record.fx(w)))
    return dict(id="s%d" % i, off=[bool(o) for o in off], ev=ev, _about=common.about(P, feat))


def inner_source(P):
    """A source which vanishes at the top and at the bottom of the atmosphere."""
    s = np.array(P.s)
    if P.L > 2:
        s[[0, -1]] = 0
        return s
    s = np.zeros((P.L, 3))
    s[0, 1] = 1.3
    if P.L == 1:
        s[0, 2] = -1.3 / P.tau[-1]
    else:
        s[1, :2] = [-0.7 * P.tau[-1], 0.7]
    return s


def run(ctx):
    pats = ctx.tlc("Superpose", GCFG % ("patterns", 19), workers=1).prints("SESSION")
    n = ctx.n(400, 4000)
    sess = ctx.tlc("Superpose", GCFG % ("random", 5), simulate=n, depth=12).prints("SESSION")[:n]
    npat = ctx.n(80, 800)
    feats = ctx.scenarios("full", len(sess)) + ctx.scenarios("quiet", npat, 1)
    logs = sess + pats * npat
    feats = [dict(f, onlyflux=(k % 8 == 0), inner=(k % 4 == 1)) for k, f in enumerate(feats)]
    # make sure that most problems have several sources
    for k, f in enumerate(feats):
        if k % 2 and sum([f["beam"] != "none", f["iso"] != "0", f["bneg"] != "zero", f["bpos"] != "zero"]) < 3:
            f["iso"] = "2" if f["iso"] == "0" else f["iso"]
            f["bneg"] = "scalar" if f["bneg"] == "zero" else f["bneg"]
            f["bpos"] = "vector" if f["bpos"] == "zero" else f["bpos"]
    recs = ctx.replay(job, [(i, l, f, ctx.seed) for i, (l, f) in enumerate(zip(logs, feats))], chunk=2)
    ctx.note("solves", sum(len(r["ev"]) for r in recs))
    ctx.samples.append(logs[0])
    cans = []
    for r in recs:
        j = [j for j in range(4, len(r["ev"])) if any(y["a"] and not o for y, o in zip(r["ev"][j]["x"], r["off"]))]
        if j:
            cans = [common.corrupt(r, ["ev", j[0], "v", 0], newid="canary")]
            break
    ctx.judge(ctx.validate("Superpose", recs, cans, cfg=JCFG))
