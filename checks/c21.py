"""C21: the same radiation posed upside down, as a beam or as a stream; reciprocity."""
from math import pi
import numpy as np
from numpy.polynomial import polynomial as npoly
from vlib import gen, record
from vlib.problem import rng_for, gauss01, ScalarMode, Phys
from . import common

ECFG = "CONSTANT Steps = 1\nSPECIFICATION ESpec\nINVARIANT OnlyWritable\nPROPERTY Reached\nCHECK_DEADLOCK FALSE\n"
GCFG = "CONSTANT Steps = 5\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANT Steps = 1\nSPECIFICATION JSpec\n"


class Symmetric(ScalarMode):
    """A reflectance mode symmetric in its two directions."""
    kind = "symmetric"

    def __init__(self, a, b, m):
        self.a, self.b, self.m = float(a), float(b), m

    def matrix(self, mu, mup):
        mu, mup = np.atleast_1d(mu)[:, None], np.atleast_1d(mup)[None, :]
        v = self.a * (1 + self.b * mu * mup - 0.1 * (mu + mup))
        return v * np.sqrt((1 - mu**2) * (1 - mup**2)) if self.m else v

    def arg(self):
        return self.matrix


def wide(b, N, nf):
    """A boundary condition written as a matrix."""
    out = np.zeros((N, nf))
    b = np.asarray(b, float)
    if b.ndim == 2:
        out[:] = b
    else:
        out[:, 0] = b
    return out


def flipped(P):
    T = P.tau[-1]
    s = None
    if P.s is not None:     # s(T - t), by Horner
        s = np.zeros((P.L, P.s.shape[1]))
        for l in range(P.L):
            acc = np.zeros(1)
            for c in P.s[l][::-1]:
                acc = npoly.polyadd(npoly.polymul(acc, [T, -1.0]), [c])
            n = min(len(acc), P.s.shape[1])
            s[P.L - 1 - l, :n] = acc[:n]
    return P.but(tau=np.append(np.cumsum(P.thick[::-1])[:-1], T), omega=P.omega[::-1], leg=P.leg[::-1], f=P.f[::-1], s=s, b_pos=P.b_neg, b_neg=P.b_pos)


def job(item):
    i, w, feat, seed = item
    kind = w["kind"]
    rng = rng_for(seed, "c21", i)
    feat = dict(feat, beam="none", nt="no")
    if not kind["surface"]:
        feat.update(bdrf="none", cache="no")
    elif feat["bdrf"] == "none":
        feat["bdrf"] = "mixed"
    P = gen.make(feat, seed, i, tmax=5.0)
    x, wt = gauss01(P.N)
    js = 0
    if kind["stream"]:
        for js in rng.permutation(P.N):
            Q = P.but(mu0=float(x[js]), I0=float(rng.uniform(0.5, 2)) * (record.fmax(P.b_pos, P.b_neg, 0 if P.s is None else P.s) or 1.0))
            if gen.resonance_gap(Q) > 3e-3:
                break
        else:
            return None
        P = Q
    # the two ways of writing the stream
    amp = np.array([P.I0 * (1 if m == 0 else 2) / (2 * pi * wt[js]) for m in range(P.nf)])
    b = wide(P.b_neg, P.N, P.nf)
    b[js] += amp
    pose = {(True, "beam"): P, (True, "stream"): P.but(I0=0, b_neg=b) if kind["stream"] else P}
    pose[(False, "stream")] = flipped(pose[(True, "stream")])
    ls = np.sort(rng.integers(0, P.L, 3))
    t = np.concatenate([[0.0], [P.tau0[l] + P.thick[l] * rng.uniform(0.02, 0.98) for l in ls], [P.tau[-1]]])
    att = np.array([np.exp(-P.stau(y, P.layer(y)) / P.mu0) for y in t]) if kind["stream"] else np.zeros(len(t))
    ev, sc, scf = [], None, None
    for p in w["walk"]:
        Q = pose[(p["up"], p["form"])]
        sol = Q.solve()
        y = t if p["up"] else np.clip(P.tau[-1] - t[::-1], 0, Q.tau[-1])
        um = sol.modes(y)
        fm, fd = sol.fm(y)
        if sc is None:
            sc = max(record.fmax(um), record.fmax(amp)) or 1.0
            scf = max(record.fmax(sol.fp(y), fm + fd), 1e-3 * sc) or 1.0
        rows = range(P.nf) if P.nf * P.nq <= 64 else sorted({0, 1, P.nf - 1})
        ev.append(dict(k="pose", up=p["up"], form=p["form"], u=[record.fx(um[m], sc) for m in rows],
                       fp=record.fx(sol.fp(y), scf), fm=record.fx(fm + fd, scf)))
    rows = list(range(P.nf) if P.nf * P.nq <= 64 else sorted({0, 1, P.nf - 1}))
    # reciprocity of the medium, over a symmetric surface for the reflection
    if P.N <= 8 and rng.random() < 0.6:
        m = int(rng.integers(0, P.nf))
        sur = [Symmetric(rng.uniform(0.1, 0.4), rng.uniform(0, 0.5), k) for k in range(P.nf)] if rng.random() < 0.6 else []
        M = P.but(I0=0, s=None, b_pos=0, b_neg=0, bdrf=sur, cached=None)

        def response(Q, side, at):
            R = np.zeros((P.N, P.N))
            for j in range(P.N):
                e = np.zeros((P.N, P.nf))
                e[j, m] = 1
                um = (Q.but(b_neg=e) if side == "top" else Q.but(b_pos=e)).solve().modes(np.array([0.0, P.tau[-1]]))
                R[:, j] = um[m][:P.N, 0] if at == "top" else um[m][P.N:, 1]
            return R
        R = response(M, "top", "top")
        ev.append(dict(k="recip", r=record.fx(R), q=record.fx(R)))
        if not sur:
            ev.append(dict(k="recip", r=record.fx(response(M, "top", "bottom")), q=record.fx(response(M, "bottom", "top"))))
    return dict(id="m%d" % i, N=P.N, str=int(js) + 1, amp=record.fx(amp[rows], sc), att=record.fx(att), w=record.fx(wt), mu=record.fx(x), ev=ev,
                _about=common.about(P, feat))


def run(ctx):
    ctx.tlc("Mirror", ECFG, workers=2)
    n = ctx.n(700, 8000)
    walks = ctx.tlc("Mirror", GCFG, simulate=n, depth=10).prints("POSES")[:n]
    feats = ctx.scenarios("quiet", n - n // 25) + ctx.scenarios("deep", n // 25, 1)
    recs = [r for r in ctx.replay(job, [(i, w, f, ctx.seed) for i, (w, f) in enumerate(zip(walks, feats))], chunk=2) if r]
    ctx.note("walks", len(recs))
    ctx.note("poses", sum(e["k"] == "pose" for r in recs for e in r["ev"]))
    ctx.note("reciprocities", sum(e["k"] == "recip" for r in recs for e in r["ev"]))
    ctx.samples.append(walks[0])
    cans = []
    for name, ok, path in (("reversal", lambda r: any(not e.get("up", True) for e in r["ev"]), lambda r: [j for j, e in enumerate(r["ev"]) if not e.get("up", True)][0]),
                           ("stream", lambda r: r["ev"][0]["form"] == "beam" and len(r["ev"]) > 1 and r["ev"][1]["k"] == "pose", lambda r: 1)):
        r = next(x for x in recs if ok(x))
        cans.append(common.corrupt(r, ["ev", path(r), "u", 0, 0, 1], 5000, "canary-" + name))
    r = next(x for x in recs if x["ev"][-1]["k"] == "recip" and x["N"] > 1)
    cans.append(common.corrupt(r, ["ev", len(r["ev"]) - 1, "r", 0, 1], 50000, "canary-reciprocity"))
    ctx.judge(ctx.validate("Mirror", recs, cans, cfg=JCFG))
