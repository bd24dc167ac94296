"""C11: representation and algorithm choices do not change the answer."""
import warnings
import numpy as np
from vlib import gen, record
from vlib.problem import rng_for, gauss01, Sol, ScalarMode, FuncMode
from . import common

GCFG = "CONSTANT Steps = %d\nSPECIFICATION GSpec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
SCFG = "CONSTANT Steps = 1\nSPECIFICATION SSpec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
JCFG = "CONSTANT Steps = 1\nSPECIFICATION JSpec\nINVARIANT TypeOK\n"

ORDER = ["NLeg", "NFourier", "b_pos", "b_neg", "only_flux", "f_arr", "NT_cor", "BDRF_Fourier_modes", "s_poly_coeffs",
         "use_banded_solver_NLayers", "autograd_compatible"]
DEFAULT = dict(NLeg=None, NFourier=None, b_pos=0, b_neg=0, only_flux=False, f_arr=0, NT_cor=False, BDRF_Fourier_modes=[],
               s_poly_coeffs=np.array([[]]), use_banded_solver_NLayers=10, autograd_compatible=False)


def contain(a, kind, L, bc=False):
    if kind == "scalar" and bc and np.ndim(a) == 2:
        kind = "array"
    a = np.asarray(a, float)
    if kind == "int" and np.all(a == np.round(a)):
        return int(a) if a.ndim == 0 else a.astype(int)
    if a.ndim == 0:
        return float(a) if kind != "numpy" else np.array(float(a)) if bc else np.float64(a)
    if kind == "numpy" and bc and a.size > 1 and np.all(a == a.ravel()[0]) and a.ndim == 1:
        return np.broadcast_to(a.ravel()[:1], a.shape)
    if kind == "list":
        return a.tolist()
    if kind == "tuple":
        return tuple(a.tolist()) if a.ndim == 1 else tuple(tuple(r) for r in a.tolist())
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 7.7)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    if kind == "scalar" and a.size == 1 and a.ndim == 1:
        return float(a[0])
    if kind == "scalar" and a.ndim == 2 and a.shape[0] == 1:
        return a[0].copy()
    return a.copy()


def bc_rep(P, which, rep, nf, fluxonly):
    b = P.b_pos if which == "pos" else P.b_neg
    b = np.asarray(b, float)
    if fluxonly:
        nf = 1
    if b.ndim == 2:
        b = b[:, :nf]
        return b[:, 0].copy() if rep == "vector" and (nf == 1 or not np.any(b[:, 1:])) else b.copy()
    if rep == "native":
        return b if b.ndim else float(b)
    v = np.broadcast_to(b, (P.N,)).copy()
    if rep == "vector":
        return v
    m = np.zeros((P.N, nf))
    m[:, 0] = v
    return m


def surface(P, rep):
    from PythonicDISORT import subroutines as su
    modes = [m.arg() for m in P.bdrf]
    fun = [m.matrix for m in P.bdrf]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rep == "function":
            return fun
        if rep == "cached":
            return su.cache_BDRF_Fourier_modes(P.N, modes)
        if rep == "cached_mu0":
            return su.cache_BDRF_Fourier_modes(P.N, modes, P.mu0)
        if rep == "twice":
            return su.cache_BDRF_Fourier_modes(P.N, fun, P.mu0)
        if rep == "padded" and modes:
            return list(modes) + [0.0] * max(0, 1) if len(modes) < P.nf else modes
        if rep == "numpy":
            return [m if callable(m) else np.float32(m) if k % 2 == 0 else np.float64(m) for k, m in enumerate(modes)]
    return modes


def idle(P, kind, rng):
    """Change an argument which, for this problem, has nothing to act on."""
    nt_acts = P.nt and P.I0 > 0 and np.any(P.omega * P.f > 0)
    dark = P.omega == 0
    leg, f = P.leg.copy(), P.f.copy()
    if kind == "beam" and P.I0 == 0:
        return P.but(mu0=float(rng.uniform(0.02, 1)), phi0=float(rng.uniform(0, 6.28)))
    if kind == "phase" and np.any(dark):
        leg[dark, 1:] = rng.uniform(-0.9, 0.9, leg[dark, 1:].shape)
        return P.but(leg=leg)
    if kind == "fraction" and np.any(dark):
        f[dark] = rng.uniform(0, 1, np.sum(dark))
        return P.but(f=f)
    if kind == "tail" and not nt_acts:
        return P.but(leg=np.hstack([leg, rng.uniform(-0.9, 0.9, (P.L, int(rng.integers(1, 9))))]))
    if kind == "cut" and not P.nt_active():
        return P.but(leg=leg[:, :P.nleg].copy())
    if kind == "nt" and np.min(np.abs(gauss01(P.N)[0] - P.mu0)) > 1e-6:
        Q = P.but(nt=not P.nt)
        return P if Q.nt_active() or P.nt_active() else Q
    if kind == "modes" and len(P.bdrf) >= P.nf:
        return P.but(bdrf=list(P.bdrf) + [FuncMode(len(P.bdrf) + 1, 0.3, 0.2, 0.1), ScalarMode(0.25)])
    return P


def solve(P, o, rng):
    import PythonicDISORT
    P = idle(P, o["idle"], rng)
    fo = o["fluxonly"] == "yes"
    nf = {"full": P.nf, "fewer": max(1, P.nf - 1 - P.nf // 3), "one": 1}[o["azimuth"]]
    L = P.L
    thr = {"native": P.thr, "dense": 1000, "banded": 3, "exact": max(3, L), "above": max(3, L + 1)}[o["solver"]]
    s = P.s
    if s is not None and o["poly"].startswith("pad"):
        s = np.concatenate([s, np.zeros((L, int(o["poly"][3:])))], axis=1)
    if s is None and o["poly"] == "zeros":
        s = np.zeros((L, 2))
    c = o["container"]
    C = lambda a, bc=False: contain(a, c, L, bc)
    kw = dict(NLeg=P.nleg, NFourier=nf, b_pos=C(bc_rep(P, "pos", o["bottom"], nf, fo), True), b_neg=C(bc_rep(P, "neg", o["top"], nf, fo), True), only_flux=fo,
              f_arr=C(P.f), NT_cor=P.nt, BDRF_Fourier_modes=surface(P, o["surface"]),
              s_poly_coeffs=np.array([[]]) if s is None else C(s), use_banded_solver_NLayers=thr, autograd_compatible=o["autograd"] == "yes")
    if o["peak"] == "absent" and not np.any(P.f):
        kw["f_arr"] = 0
    if c == "tuple":
        kw["BDRF_Fourier_modes"] = tuple(kw["BDRF_Fourier_modes"])
    if o["defaults"] == "omitted":
        for k, v in list(kw.items()):
            if k == "NLeg" and P.nleg == P.nq or k == "NFourier" and (nf == P.nq or fo):
                del kw[k]
            elif k in ("b_pos", "b_neg") and np.ndim(v) == 0 and v == 0 or k in ("only_flux", "NT_cor", "autograd_compatible") and v is False:
                del kw[k]
            elif k == "f_arr" and not np.any(P.f) or k == "BDRF_Fourier_modes" and len(v) == 0 or k == "s_poly_coeffs" and np.size(v) == 0:
                del kw[k]
            elif k == "use_banded_solver_NLayers" and o["solver"] == "native":
                del kw[k]
    nq = P.nq
    if c == "numpy":
        nq = np.int64(nq)
        for k, T in dict(NLeg=np.int64, NFourier=np.int32, use_banded_solver_NLayers=np.int64, only_flux=np.bool_, NT_cor=np.bool_,
                         autograd_compatible=np.bool_).items():
            if k in kw:
                kw[k] = T(kw[k])
    args = (C(P.tau), C(P.omega), nq, C(P.leg), C(P.mu0), C(P.I0), C(P.phi0))
    if o["passing"] == "positions":
        kw = {k: kw.get(k, DEFAULT[k]) for k in ORDER}
        args = args + tuple(kw[k] for k in ORDER)
        kw = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = PythonicDISORT.pydisort(*args, **kw)
    return Sol(P.but(nf=nf, only_flux=fo), out), nf


def job(item):
    i, log, feat, seed = item
    P = gen.make(feat, seed, i)
    for m in P.bdrf:
        if isinstance(m, ScalarMode):
            m.a = float(np.float32(m.a))
    modal = not P.nt_active()
    whole = rng_for(seed, "whole", i).random() < 0.4
    if whole:                                        # whole numbers, which may be passed as integers
        up = lambda v: v if v is None else np.ceil(np.asarray(v, float))
        if P.s is not None and P.s.shape[1] > 8:     # integers of high degree would swamp everything
            P = P.but(s=np.where(np.arange(P.s.shape[1]) > 3, 0, P.s))
        far = P.tau[-1]
        P = P.but(tau=np.cumsum(np.ceil(P.thick)))
        if rng_for(seed, "far", i).random() < 0.5:   # as deep as the smallest integers go, the same source spread over it
            P = P.but(tau=P.tau * max(1, int(120 // P.tau[-1])))
            if P.s is not None:
                P = P.but(s=P.s * (far / P.tau[-1]) ** np.arange(P.s.shape[1]))
            up = lambda v: v
        P = P.but(I0=float(np.ceil(P.I0)), b_pos=up(P.b_pos), b_neg=up(P.b_neg), s=up(P.s))
        modal = not P.nt_active()
    rng = rng_for(seed, "c11", i)
    t = np.concatenate([[0.0, P.tau[-1]], rng.uniform(0, P.tau[-1], 1), rng.choice(P.tau, 1)])
    phi = rng.uniform(0, 6.28, 2)
    if whole:
        t, phi = np.concatenate([t[:2], np.floor(t[2:3]), t[3:]]), np.array([2.0, 5.0])
    raw = []
    for o in log:
        if not modal:
            o = dict(o, azimuth="full")
        try:
            sol, nf = solve(P, o, rng)
            sol.asked = o["asked"]
        except Exception as x:
            raw.append((o, None, repr(x)[:300], 0))
            continue
        fm, fd = sol.fm(t)
        Fm, Fd = sol.fm(t, True)
        fl = [np.concatenate([sol.fp(t), fm, fd]), np.concatenate([sol.fp(t, True), Fm, Fd]), sol.u0(t).ravel(), sol.u0(t, True).ravel()]
        md = []
        if sol.uf is not None:
            if modal:
                a, b = sol.modes(t), sol.modes(t, True)
                md = [[a[m].ravel(), b[m].ravel()] for m in range(nf)]
            else:
                md = [[sol.u(t, phi).ravel(), sol.u(t, phi, True).ravel()]]
        raw.append((o, fl, md, nf))
    base = raw[0]
    if base[1] is None:
        raise RuntimeError("base problem refused: " + base[2])
    s1 = [record.fmax(v) or 1.0 for v in base[1]]
    s2 = [max([record.fmax(m[k]) for m in base[2]] + [1e-300]) for k in range(2)]
    pick = [rng.choice(v.size, min(24, v.size), replace=False) for v in base[1]]
    pm = rng.choice(base[2][0][0].size, min(20, base[2][0][0].size), replace=False)
    ev = []
    for o, fl, md, nf in raw:
        e = dict(o=o, raised=fl is None, flux=[], modes=[], intensity=False, nf=nf)
        if fl is None:
            e["what"] = md
        else:
            e["flux"] = [x for v, s, p in zip(fl, s1, pick) for x in record.fx(v[p], s)]
            e["modes"] = [[x for v, s in zip(m, s2) for x in record.fx(v[pm], s)] for m in md]
            e["intensity"] = bool(md)
        ev.append(e)
    return dict(id="o%d" % i, modal=modal, ev=ev, _about=common.about(P, feat))


def run(ctx):
    singles = ctx.tlc("Options", SCFG, workers=1).prints("WALK")
    n = ctx.n(260, 4000)
    walks = ctx.tlc("Options", GCFG % 8, simulate=n, depth=12).prints("WALK")[:n]
    rep = ctx.n(10, 120)
    logs = walks + singles * rep
    feats = ctx.scenarios("full", len(walks) + len(singles) * rep // 2) + ctx.scenarios("nt", len(singles) * rep - len(singles) * rep // 2, 1)
    recs = ctx.replay(job, [(i, l, f, ctx.seed) for i, (l, f) in enumerate(zip(logs, feats))], chunk=2)
    ctx.note("single_choices", len(singles))
    ctx.note("solves", sum(len(r["ev"]) for r in recs))
    ctx.samples.append(walks[0][-1])
    cans = [common.corrupt(recs[0], ["ev", 1, "flux", 0], newid="canary-flux")]
    for r in recs:
        if len(r["ev"]) > 1 and r["ev"][1]["modes"]:
            cans.append(common.corrupt(r, ["ev", 1, "modes", 0, 0], newid="canary-modes"))
            break
    ctx.judge(ctx.validate("Options", recs, cans, cfg=JCFG))
