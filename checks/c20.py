"""C20: extreme optical thickness and many layers."""
from math import pi
import numpy as np
from vlib import gen, measure, record
from vlib.problem import rng_for, gauss01, Phys
from . import common

CFG = "CONSTANTS MaxLayers = %d\nLong = %s\nSPECIFICATION GSpec\nINVARIANTS TypeOK NotBoth\n%sCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANTS MaxLayers = 1\nLong = FALSE\nSPECIFICATION JSpec\n"
G20, W20 = gauss01(20)


def remu(P, rng):
    """A beam direction away from nodes and resonances of this problem."""
    if P.I0 == 0:
        return P
    x = gauss01(P.N)[0]
    for _ in range(60):
        mu0 = rng.choice([rng.uniform(0.25, 0.95), rng.uniform(0.08, 0.25), 1.0], p=[0.7, 0.2, 0.1])
        if np.min(np.abs(x - mu0)) < 0.012:
            continue
        Q = P.but(mu0=mu0)
        if gen.resonance_gap(Q) > 3e-3:
            return Q
    return P.but(mu0=float(mu0), nt=False) if np.min(np.abs(x - mu0)) > 0.01 else None


def build(col, feat, seed, i):
    L = len(col)
    rng = rng_for(seed, "c20", i)
    P = gen.make(dict(feat, L=str(L), om="std", thick="std"), seed, i)
    T = np.array([10.0 ** e * (rng.uniform(0.5, 1) if e else rng.uniform(0.3, 1)) for e, _ in col])
    om = np.array([dict(zero=0.0, std=rng.uniform(0.2, 0.95), near1=1 - 10 ** rng.uniform(-3.5, -2))[a] for _, a in col])
    s = P.s
    tau = np.cumsum(T)
    if s is not None and s.shape[1] > 8:     # high degrees are made for the albedo of the layer they come with
        s = s[:, :8]
    if s is not None and s.shape[1] > 2 and (np.max(om) > 0.99 or tau[-1] > 100):
        s = s[:, :2]
    if s is not None:
        s = s * np.maximum(P.tau[-1], 0.3) ** np.arange(s.shape[1]) / np.maximum(tau[-1], 0.3) ** np.arange(s.shape[1])
    P = P.but(tau=tau, omega=om, s=s)
    return remu(P, rng), rng


def panels(P, l):
    """Graded panels of layer l: fine at its edges."""
    T = P.thick[l]
    kmax = 1 / gauss01(P.N)[0].min()
    if P.I0 > 0:
        kmax = max(kmax, 1 / P.mu0)
    h = min(1 / kmax, T / 2)
    e = [0.0]
    while e[-1] + h < T / 2:
        e.append(e[-1] + h)
        h = max(h, e[-1])
    e.append(T / 2)
    e = np.array(e)
    return np.concatenate([e, T - e[-2::-1]])


def energy(P, sol):
    from PythonicDISORT import subroutines as su
    ap, am = sol.act()
    gain = 0.0
    big = 0.0
    for l in range(P.L):
        e = panels(P, l)
        t = np.clip(P.tau0[l] + (e[:-1, None] + np.diff(e)[:, None] * G20).ravel(), np.nextafter(P.tau0[l], 1e9) if l else 0.0, P.tau[l])
        w = (np.diff(e)[:, None] * W20).ravel()
        act = np.reshape(ap(t), -1) + np.reshape(am(t), -1) + P.I0 * np.exp(-t / P.mu0)
        src = np.array([P.source(x, l) for x in t]) if P.s is not None else np.zeros(len(t))
        g = w * (1 - P.omega[l]) * (act - 4 * pi * src)
        gain += np.sum(g)
        big = max(big, np.sum(w * (1 - P.omega[l]) * np.abs(src)) * 4 * pi)
    te = np.array([0.0, P.tau[-1]])
    fm, fd = sol.fm(te)
    net = sol.fp(te) - fm - fd
    mag = max(record.fmax(sol.fp(te), fm, fd), P.I0 * P.mu0 * 0.05, big, 1e-300)
    d = abs(net[1] - net[0] - gain) / mag
    return d if np.isfinite(d) else np.inf


def job(item):
    i, c, feat, seed = item
    P, rng = build(c["col"], feat, seed, i)
    if P is None:
        return None
    sol = P.solve()
    ev = []
    t = np.unique(np.concatenate([[0.0], P.tau, np.nextafter(P.tau[:-1], 1e9), P.tau0[:-1] + P.thick * rng.random(P.L)]))
    phi = rng.uniform(0, 6.28, 2)
    ok = []
    for q in (False, True):
        for v in (sol.fp(t, q), *sol.fm(t, q), sol.u0(t, q), sol.u(t, phi, q)):
            ok.append(bool(np.all(np.isfinite(v))))
    ev.append(dict(k="finite", ok=ok))
    if all(ok):
        R = lambda c, v: ev.append(dict(k="res", c=c, v=record.unit9(v)))
        base = P.but(nt=False)
        bsol = sol if not P.nt else base.solve()
        top, bot = measure.bc_residual(base, bsol)
        R("top", np.max(top))
        R("bottom", np.max(bot))
        if P.L > 1:
            # the points below the interfaces are a rounding step of the depth away: a source emits in between
            fl = max(P.I0 * 1e-3, 0 if P.s is None else 1e-4 * record.fmax(P.s[:, 0]), 1e-300)
            a, b = P.tau[:-1], np.nextafter(P.tau[:-1], 1e9)
            ua, ub = sol.u(a, phi), sol.u(b, phi)
            mag = max(record.fmax(sol.u(np.array([0.0, P.tau[-1]]), phi), ua), fl)
            cr = record.fmax(ua - ub) / mag
            fa = np.concatenate([sol.fp(a), sol.fm(a)[0]])
            fb = np.concatenate([sol.fp(b), sol.fm(b)[0]])
            R("cross", max(cr, record.fmax(fa - fb) / max(record.fmax(fa, sol.fp([0.0]), sol.fm([0.0])[0]), fl)))
        R("energy", energy(P, bsol))
        if c["opaque"]:
            k = 1 + int(rng.integers(2))
            Q = base.but(tau=np.concatenate([P.tau, P.tau[-1] + np.cumsum(10.0 ** rng.uniform(-3, 2, k))]),
                         omega=np.concatenate([P.omega, rng.uniform(0, 0.95, k)]), leg=np.concatenate([P.leg, P.leg[:k] if P.L >= k else np.repeat(P.leg[:1], k, 0)]),
                         f=np.concatenate([P.f, np.full(k, P.f[0])]),
                         s=None if P.s is None else np.concatenate([P.s, np.repeat(P.s[-1:], k, 0) * rng.uniform(0.5, 2)]),
                         bdrf=[] if rng.random() < 0.5 else P.bdrf, b_pos=0 if rng.random() < 0.5 else 3.0 * np.max(np.abs(np.asarray(P.b_pos))))
            if P.I0 == 0 or gen.resonance_gap(Q) > 3e-3:
                qs = Q.solve()
                fl = max(P.I0 * 1e-3, 1e-6 * record.fmax(P.b_pos, P.b_neg, Q.b_pos, 0 if P.s is None else P.s), 1e-300)
                a, b = bsol.u([0.0], phi), qs.u([0.0], phi)
                d = record.fmax(a - b) / max(record.fmax(a), fl) if np.all(np.isfinite(b)) else np.inf
                fa, fb = bsol.fp([0.0])[0], qs.fp([0.0])[0]
                R("below", max(d, abs(fa - fb) / max(abs(fa), bsol.fm([0.0])[0][0], fl)))
        if c["vanishing"]:
            te = np.array([0.0, P.tau[-1]])
            u = bsol.u(te, phi)
            mag = max(record.fmax(u), P.I0, 0 if P.s is None else record.fmax(P.s), 1e-300)
            ev.append(dict(k="res", c="vanish", v=int(min(1e6, np.ceil(record.fmax(u[:, 0] - u[:, 1]) / (mag * P.tau[-1] / gauss01(P.N)[0].min()))))))
    return dict(id="x%d" % i, col=c["col"], ev=ev, _about=common.about(P, feat))


def run(ctx):
    cols = ctx.tlc("Extreme", CFG % (2, "FALSE", "PROPERTIES OpaqueStays\n"), workers=1).prints("COL")
    ctx.note("columns_up_to_two_layers", len(cols))
    for depth, n, off in ((3, ctx.n(150, 3000), 1), (5, ctx.n(100, 2000), 2), (12, ctx.n(60, 1500), 3), (40, ctx.n(16, 400), 4), (60, ctx.n(8, 200), 5), (140, ctx.n(6, 60), 6), (270, ctx.n(4, 30), 7)):
        cols += ctx.tlc("Extreme", CFG % (depth, "TRUE", ""), simulate=n, depth=depth + 3, seedoff=off).prints("COL")[:n]
    feats = ctx.scenarios("full", len(cols))
    for c, f in zip(cols, feats):
        if len(c["col"]) > 12 and int(f["nq"]) > 12:
            f["nq"] = "8"
        if len(c["col"]) > 60:
            f["nq"] = "4" if int(f["nq"]) > 2 else "2"
    ctx.note("columns", len(cols))
    recs = [r for r in ctx.replay(job, [(i, c, f, ctx.seed) for i, (c, f) in enumerate(zip(cols, feats))], chunk=2) if r]
    ctx.note("deepest", max(len(c["col"]) for c in cols))
    ctx.note("opaque_below_comparisons", sum(e.get("c") == "below" for r in recs for e in r["ev"]))
    ctx.samples.append(recs[-1]["col"])
    cans = []
    for kind in ("top", "energy", "below", "vanish"):
        for r in recs:
            h = [j for j, e in enumerate(r["ev"]) if e.get("c") == kind]
            if h:
                cans.append(common.corrupt(r, ["ev", h[0], "v"], newid="canary-" + kind))
                break
    ctx.judge(ctx.validate("Extreme", recs, cans, cfg=JCFG))
