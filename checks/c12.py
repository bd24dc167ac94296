"""C12: exactly the invalid calls are refused."""
import warnings
import numpy as np
from vlib.problem import rng_for, gauss01
from . import common

GCFG = "CONSTANTS Depth = %d\nRandom = %s\nSPECIFICATION GSpec\nINVARIANT ContextsValid\nCHECK_DEADLOCK FALSE\n"
HCFG = "CONSTANTS Depth = 0\nRandom = FALSE\nSPECIFICATION HSpec\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANTS Depth = 0\nRandom = FALSE\nSPECIFICATION JSpec\n"


def concretise(c, shapes, rng):
    L = c["L"]
    tau = np.cumsum(rng.uniform(0.2, 1, L))
    j = int(rng.integers(L))
    t = c["tau"]
    if t == "zerofirst":
        tau = tau - tau[0]
    elif t == "negative":
        tau[int(rng.integers(L))] = -rng.choice([1e-9, 0.4])
    elif t == "tiny":
        tau[0] = 1e-9
    elif t == "decreasing" and L > 1:
        q = int(rng.integers(1, L))
        tau[q] = tau[q - 1] - 0.05
    elif t == "repeated" and L > 1:
        q = int(rng.integers(1, L))
        tau[q] = tau[q - 1]
    om = rng.uniform(0.2, 0.9, c["lenom"])
    q = int(rng.integers(c["lenom"]))
    if c["om"] == "zero":
        om[:] = 0
    elif c["om"] != "ok":
        om[q] = dict(negative=-rng.choice([1e-9, 0.3]), one=1.0, above=1 + rng.choice([1e-9, 0.5]), almostone=1 - 1e-7)[c["om"]]
    leg = np.tile(rng.uniform(0.2, 0.6) ** np.arange(c["nall"]), (c["rows"], 1))
    row = int(rng.integers(c["rows"]))
    v = c["leg"]
    if v in ("one", "minusone", "above", "negative") and c["nall"] > 1:
        leg[row, int(rng.integers(1, c["nall"]))] = dict(one=1.0, minusone=-1.0, above=rng.choice([1, -1]) * 1.3, negative=-0.3)[v]
    elif v == "zeroth":
        leg[row, 0] = rng.choice([0.9, 0.0, -1.0])
    elif v == "zerothabove":
        leg[row, 0] = 1.5
    elif v == "allzero":
        leg[:] = 0
    f = np.zeros(c["lenf"])
    if c["f"] != "zero":
        f = rng.uniform(0.01, 0.2, c["lenf"])
        q = int(rng.integers(c["lenf"]))
        if c["f"] != "ok":
            f[q] = dict(negative=-rng.choice([1e-9, 0.2]), above=1 + rng.choice([1e-9, 0.3]))[c["f"]]
    s = dict(none=np.array([[]]), ok=rng.uniform(0.1, 1, (c["lens"], 2)), zeros=np.zeros((c["lens"], 2)), wide=rng.uniform(0.1, 1, (c["lens"], 4)))[c["s"]]
    N = max(c["nq"] // 2, 1)
    node = gauss01(N)[0][int(rng.integers(N))]
    mu0 = dict(ok=0.4173, zero=0.0, negative=-rng.choice([1e-9, 0.5]), above=1 + rng.choice([1e-9, 0.5]), one=1.0, node=node, nearnode=node + 3e-9)[c["mu0"]]
    phi0 = dict(ok=1.1, zero=0.0, negative=-rng.choice([1e-9, 1.0]), twopi=2 * np.pi, above=2 * np.pi + 1, belowtwopi=6.2831853)[c["phi0"]]
    I0 = dict(zero=0.0, pos=rng.choice([1.0, 1e-3, 1300.0]), negative=-rng.choice([1e-9, 1.0]))[c["I0"]]

    def bc(shape, zero):
        if any(x < 0 for x in shape):
            shape = [abs(x) for x in shape]
        return np.zeros(shape) if zero else rng.uniform(0.1, 1, shape)
    kw = dict(b_pos=bc(shapes[0], c["bposzero"]), b_neg=bc(shapes[1], c["bnegzero"]), only_flux=c["onlyflux"], f_arr=f, NT_cor=c["nt"],
              s_poly_coeffs=s, use_banded_solver_NLayers=c["thr"])
    if c["nleg"] != 99:
        kw["NLeg"] = c["nleg"]
    if c["nf"] != 99:
        kw["NFourier"] = c["nf"]
    return (tau, om, c["nq"], leg, mu0, I0, phi0), kw


def call_job(item):
    i, calls, seed = item
    from PythonicDISORT import pydisort
    evs = []
    for q, x in enumerate(calls):
        c = x["c"]
        rng = rng_for(seed, "c12", i, q)
        args, kw = concretise(c, x["shapes"], rng)
        e = dict(k="call", c=c, warned=False, corrected=True)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                out = pydisort(*args, **kw)
                e["got"] = "accepted"
            except Exception as ex:
                e["got"] = "ValueError" if isinstance(ex, ValueError) else type(ex).__name__
                out = None
        if c["leg"] in ("zeroth", "zerothabove", "allzero") and c["om"] != "zero" and out is not None:
            e["warned"] = any("zeroth" in str(m.message).lower() or issubclass(m.category, UserWarning) for m in w)
            leg = args[3].copy()
            leg[:, 0] = 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref = pydisort(*args[:3], leg, *args[4:], **kw)
            t = np.array([0.0, args[0][-1] / 2, args[0][-1]])
            pairs = [(out[1](t), ref[1](t)), (out[2](t)[0], ref[2](t)[0]), (out[3](t), ref[3](t))]
            if len(out) > 4:
                pairs.append((out[4](t, [0.3, 2.0]), ref[4](t, [0.3, 2.0])))
            e["corrected"] = bool(all(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) for a, b in pairs))
        evs.append(e)
    return dict(id="b%d" % i, ev=evs, _about=dict(feat=None, note="batch of calls; the observed event describes the call"))


def helper_job(item):
    i, calls, seed = item
    from PythonicDISORT import pydisort, subroutines as su
    rng = rng_for(seed, "c12h", i)
    evs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol = pydisort(np.array([0.5, 1.2]), np.array([0.5, 0.7]), 4, np.tile(0.5 ** np.arange(4), (2, 1)), 0.6, 1.0, 0.2)
        g = np.tile(0.5 ** np.arange(8), (2, 1))
        nts = pydisort(np.array([0.5, 1.2]), np.array([0.5, 0.7]), 4, g, 0.6, 1.0, 0.2, NLeg=4, f_arr=g[:, 4], NT_cor=True,
                       s_poly_coeffs=np.array([[1.0, 0.3], [1.0, 0.3]]))
    fp, fm = su.generate_diff_act_flux_funcs(nts[3])
    iu, i0 = su.interpolate(sol[4]), su.interpolate(sol[3])
    for x in calls:
        h = x["h"]
        try:
            if h == "clenshaw":
                su.Clenshaw_Curtis_quad(x["n"])
            elif h == "spline":
                xs = np.cumsum(rng.uniform(0.1, 1, x["nx"]))
                if x["order"] == "down" and len(xs) > 1:
                    xs = xs[::-1]
                elif x["order"] == "repeat" and len(xs) > 1:
                    xs[-1] = xs[-2]
                elif x["order"] == "swap" and len(xs) > 2:
                    xs[[0, 1]] = xs[[1, 0]]
                su.linear_spline_coefficients(xs, rng.uniform(0, 1, x["ny"]))
            elif h == "affine":
                a = rng.uniform(0.5, 2, x["n"])
                if 1 <= x["zero"] <= x["n"]:
                    a[x["zero"] - 1] = 0
                su.affine_transform_poly_coeffs(rng.uniform(0, 1, (x["n"], 3)), a, rng.uniform(-1, 1, x["n"]))
            elif h == "temper":
                su.generate_s_poly_coeffs(np.cumsum(rng.uniform(0.1, 1, x["L"])), rng.uniform(200, 300, x["n"]), 1e4, 2e4)
            elif h == "interpolate":
                m = dict(inside=rng.uniform(-1, 1), minusone=-1.0, one=1.0, above=1 + 1e-9, below=-1 - 1e-9, faraway=rng.choice([7.0, -7.0]))[x["mu"]]
                mu = m if x["at"] == 0 else np.insert(rng.uniform(-1, 1, 2), x["at"] - 1, m)
                iu(mu, 0.3, 0.1) if x["f"] == "u" else i0(mu, 0.3)
            elif h == "depth":
                t = dict(inside=rng.uniform(0, 1.2), top=0.0, bottom=1.2, interface=0.5, justabove=-1e-12, justbelow=1.2 * (1 + 1e-12), above=-0.7, below=3.1)[x["t"]]
                t = t if x["at"] == 0 else np.insert(rng.uniform(0, 1.2, 2), x["at"] - 1, t)
                phi = rng.uniform(0, 6, 2)
                q = x["anti"]
                dict(Fp=lambda: sol[1](t, q), Fm=lambda: sol[2](t, q), u0=lambda: sol[3](t, q), u=lambda: sol[4](t, phi, q), NTu=lambda: nts[4](t, phi, q),
                     actp=lambda: fp(t, q), actm=lambda: fm(t, q), iu=lambda: iu(0.3, t, phi, q), iu0=lambda: i0(-0.3, t, q))[x["f"]]()
            elif h == "wrongfunction":
                v = np.ones(4)
                su.interpolate({1: lambda a: v, 2: lambda a, b=0: v, 3: lambda a, b, c=0: v, 6: lambda a, b, c=0, d=0, e=0, f=0: v}[x["n"]])
            got = "accepted"
        except Exception as ex:
            got = "ValueError" if isinstance(ex, ValueError) else type(ex).__name__
        evs.append(dict(k="help", c=x, got=got))
    return dict(id="h%d" % i, ev=evs, _about=dict(feat=None))


def batches(xs, n):
    return [xs[j:j + n] for j in range(0, len(xs), n)]


def run(ctx):
    single = ctx.tlc("Api", GCFG % (1, "FALSE"), workers=4).prints("CALL")
    r = ctx.tlc("Api", GCFG % (2, "FALSE"), workers=8)
    pairs = r.prints("CALL")
    nrand = ctx.n(3000, 60000)
    rand = []
    for d in (3, 4, 6):
        rand += ctx.tlc("Api", GCFG % (d, "TRUE"), simulate=nrand // 3, depth=d + 2, seedoff=d).prints("CALL")
    if ctx.quick:      # all singles, a rotating part of all pairs
        rng = rng_for(ctx.seed, "c12pick")
        pairs = [pairs[j] for j in sorted(rng.choice(len(pairs), min(24000, len(pairs)), replace=False))]
    seen, calls = set(), []
    for x in single + pairs + rand:
        key = repr(sorted(x["c"].items()))
        if key not in seen:
            seen.add(key)
            calls.append(x)
    ctx.note("calls", len(calls))
    ctx.note("calls_to_refuse", sum(bool(x["r"]) for x in calls))
    ctx.note("pairs_of_deviations", len(pairs))
    recs = ctx.replay(call_job, [(i, b, ctx.seed) for i, b in enumerate(batches(calls, 50))], chunk=2)
    helps = ctx.tlc("Api", HCFG, workers=1).prints("HELP")
    ctx.note("helper_calls", len(helps))
    recs += ctx.replay(helper_job, [(i, b, ctx.seed) for i, b in enumerate(batches(helps, 40))])
    ctx.samples.append(calls[0]["c"])
    can = []
    for want in ("ValueError", "accepted"):
        for r in recs:
            j = [j for j, e in enumerate(r["ev"]) if e["got"] == want]
            if j:
                ev = [dict(e) for e in r["ev"]]
                ev[j[0]]["got"] = "accepted" if want == "ValueError" else "ValueError"
                can.append(dict(id="canary-" + want, ev=ev))
                break
    ctx.judge(ctx.validate("Api", recs, can, cfg=JCFG))
