"""C15: interpolation in polar angle."""
import copy
import warnings
from fractions import Fraction
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common

GCFG = "CONSTANT MaxLen = 7\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
LCFG = "CONSTANT MaxLen = 1\nSPECIFICATION LSpec\nINVARIANT Lemma\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANT MaxLen = 1\nSPECIFICATION JSpec\n"


def lagrange(x, y, m):
    """(value, size of the largest term) of the Lagrange polynomial, in extended precision."""
    x = np.asarray(x, np.longdouble)
    m = np.longdouble(m)
    B = np.array([np.prod([(m - x[j]) / (x[i] - x[j]) for j in range(len(x)) if j != i]) for i in range(len(x))], np.longdouble)
    return np.tensordot(B, np.asarray(y, np.longdouble), 1), np.max(np.abs(B)[(slice(None),) + (None,) * (np.ndim(y) - 1)] * np.abs(y), axis=0)


def job(item):
    i, feat, seed, asks = item
    from PythonicDISORT import subroutines as su
    P = gen.make(feat, seed, i, tmax=5.0)
    sol = P.solve()
    rng = rng_for(seed, "c15", i)
    N = P.N
    x = np.asarray(sol.mu)[:N]
    evs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        I = dict(u=su.interpolate(sol.uf), u0=su.interpolate(sol.u0f))
        for a in asks:
            k = lambda c: [int(rng.integers(N)) for _ in range(c)]
            mu, node = [], []
            for d in a["dirs"]:
                j = int(rng.integers(N))
                v, nd = dict(upnode=(sol.mu[j], j + 1), downnode=(sol.mu[N + j], -j - 1), zero=(0.0, 0), negzero=(-0.0, 0), one=(1.0, 0), minusone=(-1.0, 0),
                             up=(rng.uniform(0, 1), 0), down=(-rng.uniform(0, 1), 0), tinyup=(1e-12, 0), tinydown=(-1e-12, 0),
                             nearnode=(rng.choice([1, -1]) * x[j] * (1 + 1e-7), 0), below=(-1 - rng.choice([1e-9, 0.5]), 0), above=(1 + rng.choice([1e-9, 0.5]), 0))[d]
                mu.append(float(v))
                node.append(nd)
            t = float(rng.uniform(0, P.tau[-1])) if a["tau"] == 0 else np.concatenate([rng.uniform(0, P.tau[-1], a["tau"] - 1), rng.choice(P.tau, 1)])
            ph = float(rng.uniform(0, 6.3)) if a["phi"] == 0 else rng.uniform(0, 6.3, a["phi"])
            arg = mu[0] if a["form"] == "scalar" else list(mu) if a["form"] == "list" else np.array(mu)
            outside = any(d in ("below", "above") for d in a["dirs"])
            nt, np_ = max(1, a["tau"]), max(1, a["phi"])
            e = dict(outside=outside, what="", shape=True, extras=True, mu=[], node=[], got=[], up=[], down=[], dev=[], ask=a)
            try:
                if a["fn"] == "u":
                    y = np.reshape(sol.uf(t, ph, a["anti"]), (P.nq, nt * np_))
                    out = I["u"](arg, t, ph, a["anti"], a["err"], a["tauarr"])
                    sh = [len(mu), nt, np_]
                else:
                    y = np.reshape(sol.u0f(t, a["anti"]), (P.nq, nt))
                    out = I["u0"](arg, t, a["anti"], a["tauarr"])
                    sh = [len(mu), nt]
                ex = ()
                if a["err"] or a["tauarr"]:
                    out, ex = out[0], out[1:]
            except Exception as x_:
                e["what"] = type(x_).__name__
                evs.append(e)
                continue
            if outside:
                evs.append(e)
                continue
            e["shape"] = list(np.shape(out)) == [m for m in sh if m != 1]
            want = ()
            if a["err"]:
                want += (sol.uf(t, ph, a["anti"], True)[1],)
            if a["tauarr"]:
                want += (P.tau,)
            e["extras"] = bool(len(ex) == len(want) and all(np.allclose(p, q, rtol=1e-6, atol=1e-12, equal_nan=True) for p, q in zip(ex, want)))
            if e["shape"]:
                got = np.reshape(out, (len(mu), -1))
                cols = rng.choice(y.shape[1], min(3, y.shape[1]), replace=False)
                sc = [record.fmax(y[:, c]) or 1.0 for c in cols]
                e["up"] = [record.fx(y[:N, c], s) for c, s in zip(cols, sc)]
                e["down"] = [record.fx(y[N:, c], s) for c, s in zip(cols, sc)]
                e["mu"] = [int(v) if v else (1 if m > 0 else -1 if m < 0 else 0) for v, m in zip(record.fx(mu), mu)]
                e["node"] = node
                e["got"] = [[record.fx(g[c], s) for c, s in zip(cols, sc)] for g in got]
                for m, g in zip(mu, got):
                    yy = y[:N] if m > 0 else y[N:]
                    v, big = lagrange(x if m > 0 else -x, yy[:, cols], m)
                    e["dev"].append([record.unit9(abs(float(d)) / max(float(b), 1e-3 * s)) for d, b, s in zip(g[cols] - v, big, sc)])
            evs.append(e)
    return dict(id="i%d" % i, N=N, x=record.fx(x), small=N <= 4, ev=evs, _about=common.about(P, feat))


def run(ctx):
    ctx.tlc("Interp", LCFG, workers=2)
    n = ctx.n(240, 4000)
    per = 30
    asks = ctx.tlc("Interp", GCFG, simulate=n * per, depth=14).prints("ASK")
    feats = ctx.scenarios("full", n // 2) + ctx.scenarios("nt", n - n // 2, 1)
    rng = rng_for(ctx.seed, "c15n")
    items = []
    for i, f in enumerate(feats):
        if i % 3 == 0:
            f = dict(f, nq=int(rng.choice([2, 4, 6, 8])))
        elif i % 10 == 1:
            f = dict(f, nq=int(rng.choice([24, 32, 40])))
        items.append((i, f, ctx.seed, asks[i * per:(i + 1) * per]))
    recs = ctx.replay(job, items, chunk=2)
    ctx.note("queries", sum(len(r["ev"]) for r in recs))
    ctx.note("directions", sum(len(e["mu"]) for r in recs for e in r["ev"]))
    ctx.samples.append(asks[0])
    cans = []
    for name, f in (("canary-poly", lambda e: e["got"][0].__setitem__(0, e["got"][0][0] + 1000000)),
                    ("canary-dev", lambda e: e["dev"][0].__setitem__(0, 100000)),
                    ("canary-refuse", lambda e: e.__setitem__("outside", True))):
        for r in recs:
            j = [j for j, e in enumerate(r["ev"]) if e["got"] and r["small"]]
            if j:
                c = copy.deepcopy({k: v for k, v in r.items() if k[0] != "_"})
                c["id"] = name
                f(c["ev"][j[0]])
                cans.append(c)
                break
    ctx.judge(ctx.validate("Interp", recs, cans, cfg=JCFG))
