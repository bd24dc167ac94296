"""Jobs shared by the checks that walk down a column."""
import numpy as np

from vlib import gen, measure, record
from vlib.problem import rng_for
from vlib.runner import corrupt


def about(P, feat):
    return dict(feat=feat, problem=P.describe())


def arith_job(item):
    """Solve one small scenario and record the walk (and the point events asked for)."""
    i, feat, seed, kinds, points = item
    P = gen.make(feat, seed, i, tmax=4.0)
    sol = P.solve()
    rng = rng_for(seed, "obs", i)
    H = record.column(P, sol, "a%d" % i, rng, kinds)
    if H is None:
        return None
    if "flux" in points:
        H["ev"] += record.flux_events(P, sol, rng)
    if "mean" in points:
        H["ev"] += record.mean_events(P, sol, rng)
    if "energy" in points:
        H["ev"] += record.energy_events(P, sol, rng)
    if kinds == ():
        H["walk"] = False
        H["ev"] = [e for e in H["ev"] if e["k"] not in ("top", "interval", "cross", "bottom")]
    H["_about"] = about(P, feat)
    return H


def res_record(P, sid, feat, evs):
    return dict(id=sid, L=P.L, walk=False, ev=evs, _about=about(P, feat))


def res(clause, v):
    return dict(k="res", c=clause, v=record.unit9(np.max(v)))


def run_arith(ctx, n, kinds, points=(), clauses=None, profile="arith", canary=None):
    feats = ctx.scenarios(profile, n)
    items = [(i, f, ctx.seed, kinds, points) for i, f in enumerate(feats)]
    recs = [r for r in ctx.replay(arith_job, items) if r]
    ctx.note("arith_scenarios", len(recs))
    ctx.note("arith_events", sum(len(r["ev"]) for r in recs))
    if recs:
        ctx.samples.append(dict(features=recs[0]["_about"]["feat"], events=[e["k"] for e in recs[0]["ev"]]))
    return recs


def make_canaries(recs, want):
    """want: {event kind: path inside the event}; one corrupted recording per kind."""
    out = []
    for kind, path in want.items():
        for r in recs:
            hits = [j for j, e in enumerate(r["ev"]) if e["k"] == kind]
            if hits:
                try:
                    out.append(corrupt(r, ["ev", hits[0]] + list(path), newid="canary-" + kind))
                except (IndexError, KeyError):
                    continue
                break
    return out


def pair_coverage(feats):
    """Number of distinct pairs of feature values exercised together."""
    s = set()
    for f in feats:
        ks = sorted(f.items())
        for a in range(len(ks)):
            for b in range(a):
                s.add((ks[a], ks[b]))
    return len(s)
