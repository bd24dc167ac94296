"""C18: azimuthal symmetries, cosine series and the Fourier error."""
import copy
from math import pi
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common

GCFG = "CONSTANT Steps = %d\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
ECFG = "CONSTANT Steps = 1\nSPECIFICATION ESpec\nPROPERTY ClassKept\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANT Steps = 1\nSPECIFICATION JSpec\n"


def job(item):
    i, walk, feat, seed, uniform = item
    P = gen.make(feat, seed, i, tmax=6.0)
    rng = rng_for(seed, "c18", i)
    if uniform:
        z = lambda b: b if np.ndim(b) < 2 else b[:, 0]
        P = P.but(I0=0, b_pos=z(P.b_pos), b_neg=z(P.b_neg) if np.any(P.b_neg) else 0.7)
    off = float(rng.uniform(0, 2 * pi / 24)) * 0.999
    t = np.concatenate([rng.uniform(0, P.tau[-1], 1), [rng.choice([0.0, P.tau[-1]])]])
    anti = bool(rng.random() < 0.25)
    sols, vals = {}, []
    # the lattice may be turned as a whole: beam azimuth off + 15 degrees * b
    for p in walk:
        if p["b"] not in sols:
            sols[p["b"]] = P.but(phi0=off + p["b"] * pi / 12).solve()
        vals.append(sols[p["b"]].u(t, [off + p["v"] * pi / 12], anti).ravel())
    sc = record.fmax(*vals[:13]) or 1.0
    rows = np.unique(rng.choice(vals[0].size, min(8, vals[0].size), replace=False))
    ev = [dict(k="at", b=p["b"], v=p["v"], u=record.fx(x[rows], sc)) for p, x in zip(walk, vals)]
    modal = not P.nt_active()
    sol = sols[walk[0]["b"]]
    phi0 = off + walk[0]["b"] * pi / 12
    Q = P.but(phi0=phi0)
    if modal:
        sol.P = Q
        um = sol.modes(t, anti)
        ph = rng.uniform(-9, 15, 3 * P.nf)
        rec = np.einsum("mit,mp->itp", um, np.cos(np.arange(P.nf)[:, None] * (phi0 - ph)[None, :]))
        ev.append(dict(k="series", v=record.unit9(np.max(np.abs(rec - sol.u(t, ph, anti))) / (record.fmax(um) or 1.0))))
        # Fourier error of queries of several shapes
        for _ in range(3):
            nt, nphi = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            tt = rng.uniform(0, P.tau[-1], nt)
            if rng.random() < 0.4:
                tt[0] = rng.choice(P.tau)
            ph = rng.uniform(-4, 10, nphi)
            kw = dict(return_tau_arr=True) if rng.random() < 0.3 else {}
            err = float(sol.uf(tt, ph, return_Fourier_error=True, **kw)[1])
            um = sol.modes(tt)
            u = sol.u(tt, ph)
            last = um[-1][:, :, None] * np.cos((P.nf - 1) * (phi0 - ph))[None, None, :]
            big = record.fmax(u) or 1.0
            K = max(1.0, err) if np.isfinite(err) else 1.0
            pts = [dict(last=int(round(min(abs(a) / (big * K), 9.0) * 1e8)), u=int(round(min(abs(c) / big, 9.0) * 1e8)), sure=bool(abs(c) > 1e-5 * big and abs(c) > 1e-7 * scale_of(P)))
                   for a, c in zip(last.ravel(), u.ravel()) if np.isfinite(a) and np.isfinite(c)]
            if len(pts) < last.size:
                err = np.nan
            # keep the ratios that matter: the largest ones and a few others
            pts.sort(key=lambda p: -(p["last"] / max(p["u"], 1)))
            ev.append(dict(k="err", err=record.fx(err / K), points=pts[:60]))
    # values that vanish by rounding are compared at the level of the whole field
    return dict(id="z%d" % i, nf=P.nf, cols=len(rows), modal=modal, uniform=bool(uniform), ev=ev, _about=common.about(P, feat))


def scale_of(P):
    s = max(P.I0, np.max(np.abs(P.b_pos)), np.max(np.abs(P.b_neg)))
    return max(s, np.max(np.abs(P.s)) if P.s is not None else 0)


def run(ctx):
    ctx.tlc("Azimuth", ECFG, workers=4)
    n = ctx.n(500, 6000)
    walks = ctx.tlc("Azimuth", GCFG % 26, simulate=n, depth=30).prints("AZ")[:n]
    feats = ctx.scenarios("full", n - n // 4) + ctx.scenarios("nt", n // 4, 1)
    recs = ctx.replay(job, [(i, w, f, ctx.seed, i % 6 == 5) for i, (w, f) in enumerate(zip(walks, feats))], chunk=2)
    ctx.note("walks", len(recs))
    ctx.note("errors_judged", sum(e["k"] == "err" for r in recs for e in r["ev"]))
    ctx.samples.append(walks[0][:20])
    cans = []

    def canary(name, ok, f):
        for r in recs:
            if ok(r):
                c = copy.deepcopy({k: x for k, x in r.items() if k[0] != "_"})
                c["id"] = name
                f(c)
                cans.append(c)
                return
    canary("canary-symmetry", lambda r: not r["uniform"], lambda c: c["ev"][20]["u"].__setitem__(0, c["ev"][20]["u"][0] + 5000))
    canary("canary-uniform", lambda r: r["uniform"], lambda c: c["ev"][3]["u"].__setitem__(0, c["ev"][3]["u"][0] + 5000))
    canary("canary-error", lambda r: any(e["k"] == "err" and e["err"] > 1000000 for e in r["ev"]),
           lambda c: next(e for e in c["ev"] if e["k"] == "err" and e["err"] > 1000000).__setitem__("err", 500000))

    def series(c):
        for e in c["ev"]:
            if e["k"] == "at":
                k = (e["v"] - e["b"]) % 24
                e["u"][0] += int(1e5 * np.cos(9 * k * pi / 12))
    canary("canary-series", lambda r: r["modal"] and r["nf"] < 9 and not r["uniform"], series)
    ctx.judge(ctx.validate("Azimuth", recs, cans, cfg=JCFG))
