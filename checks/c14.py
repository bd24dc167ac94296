"""C14: shapes, members, axis order and flags of every output function, enumerated."""
import copy
import warnings
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01
from . import common

GCFG = "SPECIFICATION GSpec\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n"
JCFG = "SPECIFICATION JSpec\n"
NAME = dict(anti="is_antiderivative_wrt_tau", err="return_Fourier_error", tauarr="return_tau_arr")
LEN = dict(float=0, npfloat=0, one=1, two=2, three=3, list=3)


def arg(kind, pool):
    v = pool[:max(1, LEN[kind])]
    if kind == "float":
        return float(v[0]), v
    if kind == "npfloat":
        return np.float64(v[0]), v
    if kind == "list":
        return [float(x) for x in v], v
    return np.array(v), v


def flat(x):
    return list(x) if isinstance(x, tuple) else [x]


def job(item):
    i, feat, seed, calls, conf = item
    from PythonicDISORT import subroutines as su
    P = gen.make(feat, seed, i, tmax=5.0)
    P = P.but(only_flux=conf["onlyflux"], autograd=conf["autograd"])
    if P.only_flux:
        P = P.but(b_pos=0.3 if np.any(P.b_pos) else 0, b_neg=0.2 if np.any(P.b_neg) else 0)
    sol = P.solve()
    rng = rng_for(seed, "c14", i)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fns = dict(fp=sol.Fp, fm=sol.Fm, u0=sol.u0f)
        fns["actp"], fns["actm"] = su.generate_diff_act_flux_funcs(sol.u0f)
        fns["iu0"] = su.interpolate(sol.u0f)
        if sol.uf is not None:
            fns["u"], fns["iu"] = sol.uf, su.interpolate(sol.uf)
        pool = dict(tau=np.array(rng.permutation(np.concatenate([rng.uniform(0, P.tau[-1], 1), rng.choice(P.tau, 1), [rng.choice([0.0, P.tau[-1] * 0.77])]]))),
                    phi=rng.uniform(0, 6.28, 3), mu=np.array([rng.uniform(0.05, 1), -rng.uniform(0.05, 1), rng.choice([-1.0, 1.0, 0.0, sol.mu[0]])])[rng.permutation(3)])
        alone, scale = {}, {}

        def single(fn, anti, idx, takes):
            k = (fn, anti) + idx
            if k not in alone:
                a = [float(pool[t][j]) for t, j in zip(takes, idx)]
                alone[k] = [np.atleast_1d(v) for v in flat(fns[fn](*a, anti))]
            return alone[k]
        # size of the whole field: a value that vanishes is known only to rounding errors of the field
        for a in (False, True):
            z = np.concatenate([pool["tau"], [0.0, P.tau[-1]]])
            fl = record.fmax(fns["fp"](z, a), *fns["fm"](z, a), fns["u0"](z, a))
            scale[a] = fl if "u" not in fns else max(fl, record.fmax(fns["u"](z, pool["phi"], a)))
        evs = []
        for x in calls:
            c, takes, flags = x["c"], x["takes"], x["flags"]
            fn = c["fn"]
            if fn not in fns:
                continue
            args, vals = zip(*[arg(k, pool[t]) for k, t in zip(c["arg"], takes)])
            on = dict(zip(flags, c["flag"]))
            e = dict(c=c, raised=False, got=[], at=[], alone=[])
            try:
                if c["style"] == "position":
                    last = max([j + 1 for j, g in enumerate(flags) if on[g]] + [0])
                    out = fns[fn](*args, *[on[g] for g in flags[:last]])
                elif c["style"] == "name":
                    out = fns[fn](*args, **{NAME[g]: True for g in flags[::-1] if on[g]})
                elif c["style"] == "mixed":
                    out = fns[fn](*args, on[flags[0]], **{NAME[g]: on[g] for g in flags[1:]})
                else:
                    out = fns[fn](**dict(zip(takes, args)), **{NAME[g]: on[g] for g in flags})
                out = flat(out)
                nv = 2 if fn == "fm" else 1
                if on.get("err") and len(out) > nv and np.ndim(out[nv]) == 0:
                    # the error belongs to the queried points: ask again without any other flag
                    ref = float(fns["u"](*args[-2:], on["anti"], True)[1])
                for j, v in enumerate(out):
                    g = dict(kind="scalar" if np.ndim(v) == 0 and not isinstance(v, np.ndarray) else "array" if isinstance(v, np.ndarray) else type(v).__name__,
                             shape=list(np.shape(v)), val=0, vals=[])
                    if j == nv and on.get("err") and np.ndim(v) == 0:
                        v = float(v)
                        ok = np.isfinite(v) == np.isfinite(ref) and (not np.isfinite(v) or abs(v - ref) <= 1e-6 * abs(ref) + 1e-12)
                        g["val"] = 0 if ok else record.BAD
                    if j == len(out) - 1 and on["tauarr"] and np.ndim(v) == 1 and len(v) == P.L:
                        g["vals"] = [0 if a == b else record.BAD for a, b in zip(v, P.tau)]
                    e["got"].append(g)
                for j in range(min(nv, len(out))):
                    lens = [len(v) for v in vals]
                    full = lens if fn in ("iu", "iu0") else ([P.nq] + lens if fn in ("u", "u0") else lens)
                    if np.size(out[j]) != int(np.prod(full)):
                        continue
                    A = np.reshape(out[j], full)
                    for _ in range(2):
                        idx = tuple(int(rng.integers(m)) for m in lens)
                        s = single(fn, on["anti"], idx, takes)[j]
                        a = A[(slice(None),) + idx] if fn in ("u", "u0") else np.atleast_1d(A[idx])
                        m = record.fmax(s) or 1.0
                        m = max(m, 1e-4 * scale[on["anti"]])
                        k = np.unique(np.linspace(0, s.size - 1, min(6, s.size)).astype(int))
                        e["at"].append(record.fx(a[k], m) if a.shape == s.shape else [record.BAD])
                        e["alone"].append(record.fx(s[k], m))
            except Exception as ex:
                e["raised"], e["what"] = True, repr(ex)[:300]
            evs.append(e)
    mu = np.asarray(sol.mu)
    return dict(id="q%d" % i, nq=P.nq, L=P.L, onlyflux=P.only_flux, nout=len(sol.out), mu=record.fx(mu), nodes=record.fx(gauss01(P.N)[0]),
                err=0, tau=[0] * P.L, ev=evs, _about=common.about(P, feat))


def run(ctx):
    calls = ctx.tlc("Shapes", GCFG, workers=4).prints("CALL")
    ctx.note("distinct_calls", len(calls))
    rng = rng_for(ctx.seed, "c14")
    n = ctx.n(160, 1600)
    per = ctx.n(500, 1500)
    feats = ctx.scenarios("full", n // 2) + ctx.scenarios("nt", n - n // 2, 1)
    order = np.concatenate([rng.permutation(len(calls)) for _ in range(n * per // len(calls) + 1)])
    items = []
    for i, f in enumerate(feats):
        conf = dict(onlyflux=i % 7 == 3, autograd=i % 5 == 1)
        if i % 4 == 0:
            f = dict(f, nq=2)
        items.append((i, f, ctx.seed, [calls[k] for k in order[i * per:(i + 1) * per]], conf))
    recs = ctx.replay(job, items, chunk=1)
    ctx.note("calls_made", sum(len(r["ev"]) for r in recs))
    ctx.samples.append(recs[0]["ev"][0]["c"])

    def canary(name, fn):
        for r in recs:
            for j, e in enumerate(r["ev"]):
                if not e["raised"] and e["got"] and e["at"]:
                    c = copy.deepcopy({k: v for k, v in r.items() if k[0] != "_"})
                    c["id"], c["ev"] = name, [c["ev"][j]]
                    fn(c)
                    return c
    cans = [canary("canary-shape", lambda c: c["ev"][0]["got"][0]["shape"].append(2)),
            canary("canary-order", lambda c: c["ev"][0]["at"][0].__setitem__(0, 123456789)),
            canary("canary-members", lambda c: c["ev"][0]["got"].append(dict(kind="array", shape=[], val=0, vals=[]))),
            canary("canary-mu", lambda c: c["mu"].reverse()), canary("canary-tuple", lambda c: c.__setitem__("nout", 3))]
    ctx.judge(ctx.validate("Shapes", recs, cans, cfg=JCFG))
