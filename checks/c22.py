"""C22: non-negative fields, ordered like their causes, bounded by what enters."""
from math import pi
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01, ScalarMode, FuncMode, Phys
from . import common

ECFG = "CONSTANT Steps = 1\nSPECIFICATION ESpec\nINVARIANTS Levels Stuck\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n"
GCFG = "CONSTANT Steps = %d\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANT Steps = 1\nSPECIFICATION JSpec\n"


def nonnegative(P):
    ph = Phys(P)
    ok = True
    for l in range(P.L):
        ok &= P.f[l] < 1 and np.min(ph.D(l, 0)) >= 0 and (P.I0 == 0 or np.min(ph.X(l, 0)) >= 0)
    return ok


def job(item):
    i, climb, feat, seed = item
    rng = rng_for(seed, "c22", i)
    P = gen.make(dict(feat, beam="std" if feat["beam"] == "none" else feat["beam"], nt="no", bpos="zero", bneg="zero", bdrf="none", iso="0", cache="no"),
                 seed, i, tmax=8.0)
    for attempt in range(40):
        if nonnegative(P):
            break
        leg = P.f[:, None] + (P.leg - P.f[:, None]) * 0.85 ** np.arange(P.leg.shape[1])
        leg[:, 0] = 1
        P = P.but(leg=leg)
    else:
        return None
    if gen.resonance_gap(P) < 1e-3:
        return None
    x, w = gauss01(P.N)
    unit = P.I0
    top = np.cumsum([np.zeros(P.N), rng.uniform(0, 1, P.N), rng.uniform(0, 1, P.N)], axis=0) * unit
    bot = np.cumsum([np.zeros(P.N), rng.uniform(0, 1, P.N), rng.uniform(0, 1, P.N)], axis=0) * unit
    ns = int(rng.integers(1, 4)) if np.max(P.omega) < 0.99 else 1
    s1 = rng.uniform(0, 1, (2, P.L, ns)) * unit / max(P.tau[-1], 0.3) ** np.arange(ns)
    if P.L > 1 and rng.random() < 0.4:   # in some layers only
        s1[:, rng.random(P.L) < 0.5] = 0
    src = np.cumsum(np.concatenate([np.zeros((1, P.L, ns)), s1]), axis=0)
    om = P.omega
    oms = [om * 0.5, om * 0.85, om]
    aa = rng.uniform(0.1, 0.4)
    pars = rng.uniform(0.1, 0.4), rng.uniform(0.05, 0.3)
    scal = rng.random() < 0.5
    R = lambda k: [] if k == 0 else [ScalarMode(aa * k) if scal else FuncMode(0, aa * k, *pars)]
    phi = rng.uniform(0, 6.28, 2)
    ls = rng.integers(0, P.L, 3)
    t = np.unique(np.concatenate([[0.0], [P.tau0[l] + P.thick[l] * rng.random() for l in ls], [P.tau[-1], rng.choice(P.tau)]]))
    lev = dict(beam=0, top=0, bottom=0, source=0, surface=0, albedo=0)
    vals, bounds = [], []
    beam = P.I0 * np.array([0, 1, 1 + rng.uniform(0.2, 2)])
    for c in climb:
        lev[c] += 1
        sf = R(lev["surface"])
        s = src[lev["source"]] if lev["source"] else None
        Q = P.but(I0=beam[lev["beam"]], b_neg=top[lev["top"]], b_pos=bot[lev["bottom"]], s=s, bdrf=sf, omega=oms[lev["albedo"]])
        sol = Q.solve()
        ap, am = sol.act()
        fm, fd = sol.fm(t)
        u0 = sol.u0(t).ravel()
        vals.append(np.concatenate([u0, sol.fp(t), fm + fd, ap(t), am(t) + Q.I0 * np.exp(-t / Q.mu0), sol.fm(t)[0] + fd]))
        rho = max([0.0] + [np.max(2 * m.matrix(x, x) @ (x * w)) for m in sf])
        m = max(np.max(Q.b_neg), np.max(Q.b_pos) / (1 - rho) if rho < 1 else np.inf, 0 if s is None else max(np.max(np.polyval(s[l][::-1], P.tau[l])) for l in range(P.L)))
        bounds.append(m)
    sc = max(max(record.fmax(*vals), max(beam)), 1e-300)
    ev = [dict(k="raise", c=c, v=record.fx(v, sc), bound=int(min(b / sc, 19) * 1e8)) for c, v, b in zip(climb, vals, bounds)]
    return dict(id="o%d" % i, tol=20, ui=list(range(1, len(u0) + 1)), ev=ev, _about=common.about(P, feat))


def run(ctx):
    ctx.tlc("Order", ECFG, workers=4)
    n = ctx.n(700, 8000)
    climbs = ctx.tlc("Order", GCFG % 8, simulate=n, depth=12).prints("CLIMB")[:n]
    feats = ctx.scenarios("full", n - n // 40) + ctx.scenarios("deep", n // 40, 1)
    recs = [r for r in ctx.replay(job, [(i, c, f, ctx.seed) for i, (c, f) in enumerate(zip(climbs, feats))], chunk=2) if r]
    ctx.note("climbs", len(recs))
    ctx.note("bounded_states", sum(1 for r in recs for k in range(8) if "beam" not in [e["c"] for e in r["ev"][:k + 1]]))
    ctx.samples.append(climbs[0])
    import copy
    cans = []
    for name in ("negative", "order", "bound"):
        r = next(x for x in recs if x["ev"][0]["c"] != "beam" and max(x["ev"][0]["v"]) > 1000000)
        c = copy.deepcopy({k: v for k, v in r.items() if k[0] != "_"})
        c["id"] = "canary-" + name
        e = c["ev"][0]
        j = max(r["ui"], key=lambda q: e["v"][q - 1]) - 1
        if name == "negative":
            e["v"][j] = -100
        elif name == "order":
            e["v"][j] = c["ev"][1]["v"][j] + 100
            e["bound"] = 1900000000
        else:
            e["bound"] = e["v"][j] - 100
        cans.append(c)
    ctx.judge(ctx.validate("Order", recs, cans, cfg=JCFG))
