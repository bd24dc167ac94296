"""C03: continuity across interfaces; a value depends on its depth alone, however it is asked."""
import numpy as np
from vlib import gen, measure, record
from vlib.problem import rng_for, Sol
from . import common

DESIGN_CFG = "CONSTANTS MaxL = 3\nMaxLen = %d\nMaxQueries = 1\nSPECIFICATION AskSpec\nINVARIANTS TypeOK RefusalPointwise InterfaceSeparates\nCHECK_DEADLOCK FALSE\n"
SIM_CFG = "CONSTANTS MaxL = 5\nMaxLen = 5\nMaxQueries = 8\nSPECIFICATION SimSpec\nINVARIANTS TypeOK RefusalPointwise\nCHECK_DEADLOCK FALSE\n"


GROUP = dict(Fp="F", Fm="F", Fd="F", act="F", u0="u", u="u")


def depth_of(P, p, rng_vals):
    if p == -1:
        return -rng_vals["out"]
    if p == 999:
        return P.tau[-1] * (1 + 1e-12) + rng_vals["out"]
    if p == 0:
        return 0.0
    l, r = p // 10 - 1, p % 10
    lo, T = P.tau0[l], P.thick[l]
    if r == 0:
        return np.nextafter(lo, 1e9)
    if r == 9:
        return P.tau[l]
    x = {1: rng_vals["f1"], 2: rng_vals["f2"], 3: 0.5, 4: 1e-9, 5: 1 - 1e-9}[r]
    return lo + T * x


def call(P, sol, act, e, arg, phi):
    fn, anti = e["fn"], e["anti"]
    nt = np.size(arg)
    if fn == "Fp":
        return np.reshape(sol.Fp(arg, anti), (1, nt)).T
    if fn == "Fm":
        return np.reshape(sol.Fm(arg, anti)[0], (1, nt)).T
    if fn == "Fd":
        return np.reshape(sol.Fm(arg, anti)[1], (1, nt)).T
    if fn == "u0":
        return np.reshape(sol.u0f(arg, anti), (P.nq, nt)).T
    if fn == "act":
        return np.stack([np.reshape(act[0](arg, anti), nt), np.reshape(act[1](arg, anti), nt)], axis=1)
    v = np.reshape(sol.uf(arg, phi, anti), (P.nq, nt, len(phi)))
    return np.moveaxis(v, 1, 0).reshape(nt, -1)


def session_job(item):
    i, beh, feat, seed = item
    feat = dict(feat, L=str(beh["L"]))
    P = gen.make(feat, seed, i)
    sol = P.solve()
    from PythonicDISORT import subroutines as su
    act = sol.act()
    rng = rng_for(seed, "c03", i)
    rv = dict(f1=rng.uniform(0.05, 0.45), f2=rng.uniform(0.55, 0.95), out=float(rng.choice([1e-9, 0.3])))
    phi = rng.uniform(0, 6.28, 2)
    evs, raws = [], []
    for e in beh["log"]:
        t = np.array([depth_of(P, p, rv) for p in e["q"]])
        pat, az, cols = np.arange(len(t)), phi, slice(None)
        arg = float(t[0]) if e["form"] == "scalar" else t
        if e["form"] == "bulk":
            pat = rng.integers(0, len(t), int(10 ** rng.uniform(1.3, 3.5)))
            pat[rng.permutation(len(pat))[:len(t)]] = np.arange(len(t))
            arg = t[pat]
        if e["form"] == "fan" and e["fn"] == "u":
            m = int(rng.choice([20, 65, 129, 400]))
            at = rng.permutation(m)[:len(phi)]
            az = rng.uniform(-7, 7, m)
            az[at] = phi
            cols = (np.arange(P.nq)[:, None] * m + at).ravel()
        try:
            v = call(P, sol, act, e, arg, az)[:, cols]
            refused = False
        except ValueError as x:
            if not any(p in (-1, 999) for p in e["q"]):
                raise
            v, refused = np.zeros((0, 1)), True
        if e["form"] == "bulk" and not refused:
            # the extreme values seen at each point stand for all of them
            ext = [np.array([f(v[pat == j], axis=0) for j in range(len(t))]) for f in (np.min, np.max)]
        else:
            ext = [v]
        for v in ext:
            evs.append(dict(fn=e["fn"], anti=e["anti"], q=e["q"], refused=refused))
            raws.append(v)
    # one scale per function, so that equality is relative to the size of that function
    sc = {}
    for e, v in zip(evs, raws):
        k = (GROUP[e["fn"]], e["anti"])
        sc[k] = max(sc.get(k, P.I0 * 1e-3), record.fmax(v))
    for e, v in zip(evs, raws):
        e["v"] = record.fx(v, sc[(GROUP[e["fn"]], e["anti"])] or 1.0)
    return dict(id="q%d" % i, L=P.L, ev=evs, _about=common.about(P, feat))


def cross_job(item):
    """Jump across every interface, relative to the field, on larger problems."""
    i, feat, seed = item
    P = gen.make(feat, seed, i)
    if P.L == 1:
        return None
    sol = P.solve()
    t = P.tau[:-1]
    tb = np.nextafter(t, 1e9)
    evs = []
    rng = rng_for(seed, "c03x", i)
    phi = rng.uniform(0, 6.28, 3)
    flux = [(sol.fp(t), sol.fp(tb)), (sol.fm(t)[0], sol.fm(tb)[0]), (sol.fm(t)[1], sol.fm(tb)[1])]
    field = [(sol.u(t, phi), sol.u(tb, phi)), (sol.u0(t), sol.u0(tb))]
    mf = max(record.fmax(flux), P.I0 * 1e-3, 1e-300)
    mu = max(record.fmax(*[x for p in field for x in p]), P.I0 * 1e-3, 1e-300)
    for fa, fb, m in [x + (mu,) for x in field] + [x + (mf,) for x in flux]:
        d = np.abs(fa - fb)
        evs.append(common.res("C03.cross", np.max(d) / m if np.all(np.isfinite(d)) else np.inf))
    return common.res_record(P, "x%d" % i, feat, evs)


def run(ctx):
    r = ctx.tlc("Query", DESIGN_CFG % ctx.n(2, 3))
    ctx.note("query_design_states", r.distinct)
    nb = ctx.n(500, 6000)
    beh = ctx.tlc("Query", SIM_CFG, simulate=nb, depth=12).prints("BEH")
    feats = ctx.scenarios("quiet", nb, 1)
    recs = ctx.replay(session_job, [(i, b, f, ctx.seed) for i, (b, f) in enumerate(zip(beh, feats))])
    can = []
    for r in recs:
        seen = {}
        for j, e in enumerate(r["ev"]):
            for a, p in enumerate(e["q"]):
                k = (e["fn"], e["anti"], p)
                if not e["refused"] and k in seen and max(e["v"][a]) > 0:
                    can = can or [common.corrupt(r, ["ev", j, "v", a, 0], 5000)]
                seen[k] = 1
    ctx.note("queries", sum(len(r["ev"]) for r in recs))
    ctx.samples.append(beh[0])
    ctx.judge(ctx.validate("QueryTrace", recs, can))
    feats = ctx.scenarios("full", ctx.n(1500, 20000), 2) + ctx.scenarios("deep", ctx.n(40, 800), 3) + ctx.scenarios("nt", ctx.n(400, 5000), 4)
    crs = [r for r in ctx.replay(cross_job, [(i, f, ctx.seed) for i, f in enumerate(feats)], chunk=4) if r]
    # a few walks of which TLC itself compares both sides of every interface
    arith = common.run_arith(ctx, ctx.n(100, 1500), ("ends",))
    ctx.judge(ctx.validate("Column", crs + arith, common.make_canaries(arith, {"cross": ["u", 0, 0]})))
