"""C04: splitting and merging identical layers leaves the solution unchanged."""
import copy
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for
from . import common

MC = "CONSTANTS Mats = {1, 2}\nCells = %d\nMaxLayers = %d\nMaxEdits = %d\nSPECIFICATION Spec\nINVARIANTS SameMatter SameScaledDepth SameAverages LookupTotal\nCHECK_DEADLOCK FALSE\n"
SIM = "CONSTANTS Mats = {1, 2, 3}\nCells = 12\nMaxLayers = %d\nMaxEdits = 5\nSPECIFICATION SimSpec\nINVARIANTS SameMatter SameScaledDepth SameAverages LookupTotal\nCHECK_DEADLOCK FALSE\n"


def build(Pm, cells, col):
    """Problem of a column: material m is layer m-1 of Pm, cell sizes as given."""
    bounds = np.concatenate([[0], np.cumsum(cells)])
    tops = np.cumsum([x["u"] for x in col])
    ix = [x["mat"] - 1 for x in col]
    return Pm.but(tau=bounds[tops], omega=Pm.omega[ix], leg=Pm.leg[ix], f=Pm.f[ix],
                  s=None if Pm.s is None else Pm.s[ix])


def observe(P, t, phi):
    sol = P.solve()
    fm, fd = sol.fm(t)
    F = np.stack([sol.fp(t), fm, fd])
    out = dict(flux=F, zeroth=sol.u0(t), intensity=sol.u(t, phi))
    return out


def edit(col, e):
    col = copy.deepcopy(col)
    l = e["l"] - 1
    if e["op"] == "split":
        x = col[l]
        return col[:l] + [dict(mat=x["mat"], u=e["k"]), dict(mat=x["mat"], u=x["u"] - e["k"])] + col[l + 1:]
    return col[:l] + [dict(mat=col[l]["mat"], u=col[l]["u"] + col[l + 1]["u"])] + col[l + 2:]


def job(item):
    i, beh, feat, seed = item
    feat = dict(feat, L="3")
    Pm = gen.make(feat, seed, i)
    rng = rng_for(seed, "c04", i)
    n = sum(x["u"] for x in beh["first"])
    size = {"thin": 0.03, "std": 0.15, "mixed": 0.3, "thick": 1.0}[feat["thick"]]
    cells = rng.uniform(0.3, 1, n) * size
    bounds = np.concatenate([[0], np.cumsum(cells)])
    if Pm.s is not None and Pm.s.shape[1] <= 8:  # keep the polynomial moderate over the new column
        Pm.s = Pm.s * (max(Pm.tau[-1], 0.3) / max(bounds[-1], 0.3)) ** np.arange(Pm.s.shape[1])
    t = np.concatenate([rng.choice(bounds, min(4, n + 1), replace=False), rng.uniform(0, bounds[-1], 3)])
    phi = rng.uniform(0, 6.28, 2)
    col = beh["first"]
    P = build(Pm, cells, col)
    runs = [observe(P, t, phi)]
    evs = []
    for e in beh["edits"]:
        col = edit(col, e)
        evs.append(dict(op=e["op"], l=e["l"], k=e["k"], col=col))
        runs.append(observe(build(Pm, cells, col), t, phi))
    sc = {}
    for q in runs[0]:
        sc[q] = max(record.fmax(*[r[q] for r in runs]), P.I0 * 1e-3) or 1.0
    obs = [{q: record.fx(r[q].ravel(), sc[q]) for q in r} for r in runs]
    for e, o in zip(evs, obs[1:]):
        e["obs"] = o
    return dict(id="e%d" % i, first=beh["first"], obs=obs[0], ev=evs, _about=common.about(P, feat) | dict(behaviour=beh))


def run(ctx):
    r = ctx.tlc("Atmos", MC % ctx.n((6, 4, 3), (8, 5, 4)))
    ctx.note("edit_design_states", r.distinct)
    recs = []
    for k, (ml, prof, n) in enumerate(((5, "quiet", ctx.n(420, 5000)), (12, "quiet", ctx.n(120, 2000)), (6, "nt", ctx.n(260, 4000)))):
        beh = ctx.tlc("Atmos", SIM % ml, simulate=n, depth=8, seedoff=k).prints("BEH")
        beh = [b for b in beh if b["edits"]]
        feats = ctx.scenarios(prof, len(beh), 10 + k)
        recs += ctx.replay(job, [(1000 * k + i, b, f, ctx.seed) for i, (b, f) in enumerate(zip(beh, feats))])
    ctx.note("edits", sum(len(r["ev"]) for r in recs))
    ctx.samples.append(dict(recs[0]["_about"]["behaviour"]))
    from vlib.runner import corrupt
    cans = [corrupt(recs[0], ["ev", 0, "obs", "zeroth", 0], 5000)]
    ctx.judge(ctx.validate("AtmosTrace", recs, cans, cfg="SPECIFICATION Spec\nINVARIANT Unchanged\n"))
