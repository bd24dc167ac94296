"""C13: sessions in which inputs, results and other solves are disturbed."""
import copy
import gc
import os
import sys
import threading
import warnings
from multiprocessing import get_context

import numpy as np

from vlib import gen, record
from vlib.problem import rng_for, FuncMode, gauss01
from vlib.runner import Guard
from . import common

CST = "CONSTANTS Steps = %d\nMaxHandles = 6\n"
GCFG = CST + "SPECIFICATION GSpec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
WCFG = CST + "SPECIFICATION WSpec\nINVARIANT TypeOK\nPROPERTIES HandlesFixed HeapOwned\nCHECK_DEADLOCK FALSE\n"
JCFG = CST % 1 + "SPECIFICATION JSpec\nINVARIANT TypeOK\n"

ARR = ["tau", "omega", "leg", "f", "s", "bpos", "bneg", "surf"]
QS = ["fp", "fm", "u0", "u", "fpA", "fmA", "u0A", "uA", "actp", "actm", "actpA", "actmA", "iu", "iu0", "iuA", "err", "tau"]


def fill(a, val):
    """Overwrite an array or a (nested) list in place."""
    if isinstance(a, np.ndarray):
        a.setflags(write=True)
        a[...] = val
    else:
        for j, v in enumerate(val):
            if isinstance(a[j], list):
                fill(a[j], v)
            else:
                a[j] = float(v)


class Owned:
    """What the caller owns for one problem: arrays (or lists), scalars, the surface."""

    def __init__(self, P, aslist=False):
        self.P = P
        v0 = dict(tau=P.tau, omega=P.omega, leg=P.leg, f=P.f, s=P.s if P.s is not None else np.zeros((P.L, 1)),
                  bpos=np.atleast_1d(np.asarray(P.b_pos, float)), bneg=np.atleast_1d(np.asarray(P.b_neg, float)),
                  surf=np.array([[m.a, m.b, m.c] for m in P.bdrf] or [[0.1, 0.1, 0.1]]))
        leg1 = P.leg * 0.93
        leg1[:, 0] = 1
        v1 = dict(tau=P.tau * 1.25, omega=P.omega * 0.9, leg=leg1, f=P.f * 0.5, s=v0["s"] * 1.5, bpos=v0["bpos"] * 1.5, bneg=v0["bneg"] * 0.6, surf=v0["surf"] * 0.7)
        self.val = {k: [np.array(v0[k]), np.array(v1[k]), np.full(np.shape(v0[k]), np.nan)] for k in ARR}
        self.obj = {k: np.array(v0[k]) for k in ARR}
        self.lists = {k: np.array(v0[k]).tolist() for k in ARR}
        self.nb = len(P.bdrf)

    def set(self, a, v):
        fill(self.obj[a], self.val[a][v])
        fill(self.lists[a], self.val[a][v].tolist())

    def seen(self):
        out = []
        for k in ARR:
            o, l = self.obj[k], self.lists[k]
            hit = 9
            for v in range(3):
                w = self.val[k][v]
                if o.shape == w.shape and np.array_equal(o, w, equal_nan=True) and np.array_equal(np.array(l), w, equal_nan=True):
                    hit = v
                    break
            out.append(hit)
        # an array whose two contents coincide (all zero) cannot tell its version
        return out

    def modes(self, kind, hook=None):
        surf = self.obj["surf"]
        N, mu0 = self.P.N, self.P.mu0
        stash = {}
        out = []
        for m in range(self.nb):
            def f(mu, mup, m=m):
                if hook is not None:
                    hook(m)
                a, b, c = surf[m]
                v = FuncMode(m, a, b, c).matrix(mu, mup)
                if kind == "shared":
                    key = (m, mup.tobytes())
                    if key in stash:
                        return stash[key][0]
                    stash[key] = (v, v.copy())
                return v
            out.append(f)
        self.stash = stash
        return out

    def call(self, opt, modes=None):
        import PythonicDISORT
        from PythonicDISORT import subroutines as su
        P = self.P
        o = self.lists if opt == "list" else self.obj
        if modes is None:
            modes = self.modes(opt)
        if opt == "cached":
            modes = su.cache_BDRF_Fourier_modes(P.N, modes, P.mu0 if P.I0 > 0 else 0)
        keep = list(modes)
        fo = opt == "fluxonly"
        mat = any(np.ndim(o[k]) == 2 or isinstance(o[k][0], list) for k in ("bpos", "bneg"))
        bp, bn = o["bpos"], o["bneg"]
        if fo:   # a matrix condition of a flux-only solve has one column
            bp = bp if np.ndim(bp) == 1 else bp[:, 0]
            bn = bn if np.ndim(bn) == 1 else bn[:, 0]
        out = PythonicDISORT.pydisort(o["tau"], o["omega"], P.nq, o["leg"], P.mu0, P.I0, P.phi0, NLeg=P.nleg, NFourier=P.nf,
                                      b_pos=bp, b_neg=bn, only_flux=fo, f_arr=o["f"], NT_cor=P.nt, BDRF_Fourier_modes=modes,
                                      s_poly_coeffs=o["s"], use_banded_solver_NLayers=P.thr, autograd_compatible=opt == "autograd")
        same = len(modes) == len(keep) and all(a is b for a, b in zip(modes, keep))
        same = same and all(np.array_equal(v, w) for v, w in self.stash.values())
        if not same:
            raise RuntimeError("the surface of the caller was modified")
        return out

    def version_tau(self, ver):
        return self.val["tau"][ver[0]][-1]


class Handle:
    def __init__(self, out, T, seed, key):
        from PythonicDISORT import subroutines as su
        self.out, self.T = out, T
        rng = rng_for(seed, "hq", key)
        self.t = {"one": float(rng.uniform(0, T)), "many": rng.permutation(np.concatenate([rng.uniform(0, T, 3), [0.0, T]]))}
        self.t["many"] = np.append(self.t["many"], self.t["many"][1])
        self.phi = rng.uniform(0, 6.2, 2)
        self.mu = rng.uniform(-1, 1, 3)
        self.der = None
        self.returned = [out[0]]

    def derived(self):
        from PythonicDISORT import subroutines as su
        if self.der is None:
            a = su.generate_diff_act_flux_funcs(self.out[3])
            self.der = a + (su.interpolate(self.out[3]), su.interpolate(self.out[4]) if len(self.out) > 4 else None)
        return self.der

    def other(self, q, args, rng):
        """The same query at other depths and directions, given in the caller's arrays."""
        tm, phi, mu = args
        tm[...] = rng.uniform(0, self.T, tm.size)
        phi[...] = rng.uniform(0, 6.2, phi.size)
        mu[...] = rng.uniform(-1, 1, mu.size)
        keep = self.t, self.phi, self.mu
        self.t, self.phi, self.mu = dict(one=float(tm[0]), many=tm.copy()), phi.copy(), mu.copy()
        try:
            self.ask(q, keep=False, args=args)
        finally:
            self.t, self.phi, self.mu = keep

    def names(self):
        return QS if len(self.out) > 4 else [q for q in QS if q not in ("u", "uA", "iu", "iuA", "err")]

    def ask(self, q, keep=True, order=False, args=None):
        """Raw values (list of arrays) of one query; the depth arrays are fresh objects unless given."""
        t1, tm, phi, mu = self.t["one"], self.t["many"].copy(), self.phi.copy(), self.mu.copy()
        if args is not None:
            for a, v in zip(args, (tm, phi, mu)):
                a[...] = v
            tm, phi, mu = args
        given = [tm.copy(), phi.copy(), mu.copy()]
        Fp, Fm, u0 = self.out[1:4]
        A = q.endswith("A")
        b = q[:-1] if A else q
        r = []
        for t in ((tm, t1) if order else (t1, tm)):
            if b == "fp":
                x = (Fp(t, A),)
            elif b == "fm":
                x = Fm(t, A)
            elif b == "u0":
                x = (u0(t, A),)
            elif b == "u":
                x = (self.out[4](t, phi, A), self.out[4](t, float(phi[0]), A))
            elif b in ("actp", "actm"):
                x = (self.derived()[b == "actm"](t, A),)
            elif b == "iu":
                x = (self.derived()[3](mu, t, phi, A),)
            elif b == "iu0":
                x = (self.derived()[2](mu, t),)
            elif b == "err":
                x = self.out[4](t, phi, return_Fourier_error=True)[1:]
                x = (np.minimum(np.asarray(x, float), 9.0),)
            elif b == "tau":
                x = tuple(f(t, False, True)[-1] for f in (Fp, u0)) + (self.derived()[0](t, False, True)[-1], self.derived()[2](mu, t, False, True)[-1])
            r.append(x)
        if order:
            r = r[::-1]
        if not (np.array_equal(tm, given[0]) and np.array_equal(phi, given[1]) and np.array_equal(mu, given[2])):
            raise RuntimeError("the arguments of a query were modified")
        vals = [np.array(v, float).ravel() for x in r for v in x]
        if keep:
            self.returned += [v for x in r for v in x if isinstance(v, np.ndarray)] + [tm, phi, mu]
        return vals


def helpers(Ps):
    """What the helper routines return for the sizes of the two problems."""
    from PythonicDISORT import subroutines as su
    out = []
    for P in Ps:
        out += list(su.Gauss_Legendre_quad(P.N)) + list(su.Gauss_Legendre_quad(P.N, -1.0, 3.0)) + list(su.Clenshaw_Curtis_quad(2 * P.N + 1))
        mu = out[-4] / 4
        phi = np.linspace(0, 2, 3)
        out.append(np.atleast_1d(su.calculate_nu(mu, phi, -mu, phi)))
        g, D = su.generate_FD_mat(P.N + 3, 0, P.tau[-1])
        out += [g, D.toarray()]
        D.data[...] = np.nan
        out.append(su.linear_spline_coefficients(np.append(0, P.tau), np.arange(P.L + 1.0) ** 2))
        out.append(su.affine_transform_poly_coeffs(np.ones((P.L, 3)), 1 + P.omega, P.tau))
        out.append(su.generate_s_poly_coeffs(P.tau, np.linspace(200, 300, P.L + 1), 900, 1000))
        out.append(np.atleast_1d(su.blackbody_contrib_to_BCs(np.array([250.0, 300.0]), 900, 1000)))
        out.append(su.to_diag_ordered_form(np.arange(25.0).reshape(5, 5), 1, 2))
        m = [FuncMode(0, 0.3, 0.1, 0.1).matrix]
        out.append(np.atleast_1d(su.generate_emissivity_from_BDRF(P.N, m[0])))
        out.append(np.array(su.cache_BDRF_Fourier_modes(P.N, m, 0.37)[0](mu, np.array([0.37]))))
    return out


def helper_job(item):
    warnings.simplefilter("ignore")
    if item is None:
        return []
    i, feats, seed = item
    return [x for v in helpers(problems(feats, seed, i)) for x in pick(v.ravel(), v.ravel())]


def content_key(h):
    return repr((h["t"], h["ver"], h["opt"]))


def problems(feats, seed, i):
    out = []
    for j, f in enumerate(feats):
        P = gen.make(f, seed, 2 * i + j, tmax=6.0)
        P = P.but(bdrf=[m if m.kind == "func" else FuncMode(k, m.a, 0.1, 0.1) for k, m in enumerate(P.bdrf)])
        out.append(P)
    return out


def ref_job(item):
    """One solve in a process that does nothing else."""
    i, feats, seed, h = item
    warnings.simplefilter("ignore")
    P = problems(feats, seed, i)[h["t"] - 1]
    own = Owned(P)
    for a, v in zip(ARR, h["ver"]):
        own.set(a, v)
    opt = {"nested": "plain", "shared": "plain"}.get(h["opt"], h["opt"])
    H = Handle(own.call(opt), own.version_tau(h["ver"]), seed, (i, content_key(h)))
    return {q: H.ask(q) for q in H.names()}


def surroundings():
    """Process-wide settings that belong to the caller."""
    import scipy.special
    return [repr(sorted(np.geterr().items())), repr(np.geterrcall()), repr(sorted(scipy.special.geterr().items())), repr(sorted(np.get_printoptions().items())),
            repr(sorted(os.environ.items())), os.getcwd(), sys.getrecursionlimit(), np.getbufsize(), repr(warnings.filters)]


def session_job(item):
    i, feats, seed, ses, refs, hlp = item
    warnings.simplefilter("ignore")
    Ps = problems(feats, seed, i)
    own = {1: Owned(Ps[0]), 2: Owned(Ps[1])}
    ver = {1: [0] * 8, 2: [0] * 8}
    hs, keys, evs = [], [], []
    rng = rng_for(seed, "ses", i)
    worlds = [[x] for x in surroundings()]

    def look():
        for seen, x in zip(worlds, surroundings()):
            if x not in seen:
                seen.append(x)
        return [seen.index(x) for seen, x in zip(worlds, surroundings())]

    def add(t, opt, out, v=None):
        v = list(ver[t])
        h = dict(t=t, ver=v, opt=opt)
        hs.append(Handle(out, own[t].version_tau(v), seed, (i, content_key(h))))
        keys.append(content_key(h))

    def fixed(h, q, vals):
        R = refs[keys[h]]
        return [x for v, r in zip(vals, R[q]) for x in pick(v, r)] if len(vals) == len(R[q]) else [record.BAD]

    def ask(h, q, **kw):
        qs = hs[h].names() if q == "all" else [q] if q in hs[h].names() else ["u0"]
        return [dict(h=h + 1, q=x, v=fixed(h, x, hs[h].ask(x, **kw))) for x in qs]

    for o in ses["ops"]:
        e = dict(o=o, raised=False, vals=[])
        try:
            op = o["op"]
            if op == "solve":
                t, opt = o["t"], o["opt"]
                if opt != "nested":
                    add(t, opt, own[t].call(opt))
                else:
                    inner = []

                    def hook(m):
                        if not inner:
                            inner.append(own[3 - t].call("plain"))
                            if hs:
                                e["vals"] += ask(len(hs) - 1, "u0")
                    out = own[t].call("plain", own[t].modes("plain", hook))
                    hook(0)      # a problem without reflecting surface never calls back
                    add(3 - t, "plain", inner[0])
                    add(t, "nested", out)
                    e["vals"] += ask(len(hs) - 2, "u0")
                e["vals"] += ask(len(hs) - 1, "fm")
            elif op == "query":
                e["vals"] += ask(o["h"] - 1, o["q"], order=bool(rng.random() < 0.5))
            elif op == "requery":
                g, h = hs[o["g"] - 1], hs[o["h"] - 1]
                args = (g.t["many"].copy(), g.phi.copy(), g.mu.copy())
                for q in h.names() if o["q"] == "all" else [o["q"]]:
                    if q in g.names():
                        g.other(q, args, rng)
                    if q in h.names() and g is not h:
                        h.other(q, args, rng)
                    e["vals"] += [dict(h=o["h"], q=x, v=fixed(o["h"] - 1, x, h.ask(x, args=args, keep=False, order=True)))
                                  for x in ([q] if q in h.names() else ["u0"])]
            elif op == "helpers":
                hv = helpers(Ps)
                e["hv"] = [x for v in hv for x in pick(v.ravel(), v.ravel())]
                for v in hv:
                    if v.flags.writeable:
                        v[...] = rng.choice([np.nan, 1e9, -3.0])
            elif op in ("mutate", "poison", "restore"):
                t, a = o["t"], o["a"] - 1
                ver[t][a] = {"mutate": 1 - ver[t][a], "poison": 2, "restore": 0}[op]
                own[t].set(ARR[a], ver[t][a])
            elif op == "scribble":
                for H in hs:
                    for r in H.returned:
                        if r.size and r.flags.writeable:
                            r[...] = rng.choice([np.nan, 1e9, -3.0])
            elif op == "refused":
                refused(own[o["t"]], o["why"], hs)
            elif op == "broken":
                def boom(m):
                    raise KeyError("surface")
                try:
                    own[o["t"]].call("plain", own[o["t"]].modes("plain", boom))
                except KeyError:
                    pass
            elif op == "parallel":
                parallel(own, hs, add, ask, e)
            elif op == "preempt":
                preempt(o, own, hs, add, ask, e, rng)
        except Exception as x:
            e["raised"] = True
            e["what"] = repr(x)[:300]
        e["heap"] = [merge(own[t].seen(), ver[t], own[t]) for t in (1, 2)]
        e["world"] = look()
        evs.append(e)
        if e["raised"]:
            break
    rec = dict(id="s%d" % i, ev=evs, helpers=hlp, refs=[dict(t=h["t"], ver=h["ver"], opt=h["opt"], vals={q: [x for v in vs for x in pick(v, v)] for q, vs in refs[content_key(h)].items()})
                                       for h in uniq(ses["handles"])], _about=dict(feat=feats, problems=[P.describe() for P in Ps]))
    return rec


def merge(seen, ver, own):
    """An array whose original and changed contents are equal shows the smaller version."""
    return [v if s == 0 and v == 1 and np.array_equal(own.val[k][0], own.val[k][1]) else s for k, s, v in zip(ARR, seen, ver)]


def pick(v, r):
    """At most 16 entries, in fixed point relative to the largest reference entry."""
    s = record.fmax(r) or 1.0
    k = np.unique(np.linspace(0, r.size - 1, min(16, r.size)).astype(int))
    return record.fx(v[k], s * 0.5) if v.size == r.size else [record.BAD]


def uniq(hs):
    out = {}
    for h in hs:
        out[content_key(h)] = h
    return list(out.values())


def refused(own, why, hs):
    """A call that is refused, made with the caller's own arrays."""
    import PythonicDISORT
    P, o = own.P, own.obj
    a = [o["tau"], o["omega"], P.nq, o["leg"], P.mu0, P.I0, P.phi0]
    kw = dict(b_pos=o["bpos"], b_neg=o["bneg"], f_arr=o["f"], NT_cor=P.nt, s_poly_coeffs=o["s"], BDRF_Fourier_modes=own.modes("plain"), NLeg=P.nleg, NFourier=P.nf)
    if why == "depth":
        if hs:
            for f in (hs[0].out[1], hs[0].out[3]):
                try:
                    f(np.array([0.0, hs[0].T * 1.1]))
                except ValueError:
                    pass
        return
    if why == "omega":
        a[1] = o["omega"] + 1
    elif why == "tau":
        a[0] = -o["tau"]
    elif why == "phase":
        a[3] = o["leg"] * 3
    elif why == "streams":
        a[2] = 3
    elif why == "shape":
        kw["b_pos"] = np.ones(P.N + 5)
    elif why == "angle":
        kw["use_banded_solver_NLayers"] = -1
    try:
        PythonicDISORT.pydisort(*a, **kw)
    except ValueError:
        pass


def parallel(own, hs, add, ask, e):
    """Existing handles queried by several threads while two other threads solve."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    news, errs, got = {}, [], []
    nh = len(hs)
    go = threading.Barrier(6)

    def solver(t):
        try:
            go.wait(20)
            for _ in range(3):
                news[t] = own[t].call("plain")
        except Exception as x:
            errs.append(x)

    def asker(k):
        try:
            go.wait(20)
            for rep in range(6):
                h = (nh - 1) if k < 3 else (k + rep) % nh
                for q in (("iu", "iuA", "iu0") if k < 2 else ("all",) if rep < 2 else ("u0", "err", "fm")):
                    got.append(ask(h, q, keep=False))
        except Exception as x:
            errs.append(x)
    th = [threading.Thread(target=solver, args=(t,)) for t in (1, 2)] + [threading.Thread(target=asker, args=(k,)) for k in range(4)]
    [x.start() for x in th]
    [x.join() for x in th]
    sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    # keep one observation of every kind, and everything that differs from the first of its kind
    first = {}
    for g in got:
        for v in g:
            key = (v["h"], v["q"])
            if key not in first:
                first[key] = v
                e["vals"].append(v)
            elif v["v"] != first[key]["v"]:
                e["vals"].append(v)
    add(1, "plain", news[1])
    add(2, "plain", news[2])
    e["vals"] += ask(nh, "u0") + ask(nh + 1, "u0")


class Suspended:
    """Run `outer` on this thread; before its `at`-th step inside the package let another thread run `inner` to the end."""

    def __init__(self, outer, inner=None, at=0):
        self.n, self.at, self.inner, self.th, self.err, self.got = 0, at, inner, None, [], None
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            self.result = outer()
        finally:
            sys.settrace(old)
        if self.th is not None:
            self.th.join()
        if self.err:
            raise self.err[0]

    def body(self):
        try:
            self.got = self.inner()
        except Exception as x:
            self.err.append(x)

    def trace(self, frame, event, arg):
        if "PythonicDISORT" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.n += 1
            if self.n == self.at and self.inner is not None:
                self.th = threading.Thread(target=self.body)
                self.th.start()
                self.th.join(15)    # longer only if it waits for a lock which the suspended call holds
        return self.trace


def preempt(o, own, hs, add, ask, e, rng):
    """One call suspended at several points while another one runs."""
    t = o.get("t")
    t2 = 3 - t if o["outer"] == "solve" else t
    h, g = o.get("h", 0) - 1, o.get("g", 0) - 1
    if o["inner"] == "solve":
        inner = lambda: own[t2].call("plain")
    else:
        G = hs[g]
        args = (G.t["many"].copy(), G.phi.copy(), G.mu.copy())
        qs = [x for x in (G.names() if o["q"] == "all" else [o["q"]]) if x in G.names()]
        inner = lambda: [other_view(G).other(x, tuple(a.copy() for a in args), rng) for x in qs]
    if o["outer"] == "solve":
        outer = lambda: own[t].call("plain")
    else:
        outer = lambda: ask(h, o["q"], keep=False)
    outer()      # helpers derived from a handle are made once
    total = Suspended(outer).n
    first, nh, made = {}, len(hs), False
    points = 12 if o["outer"] == "solve" else min(total, 30)
    for at in sorted(set(int(x) for x in rng.integers(1, total + 1, points))):
        S = Suspended(outer, inner, at)
        if S.th is None:
            continue
        if not made:
            if o["inner"] == "solve":
                add(t2, "plain", S.got)
            if o["outer"] == "solve":
                add(t, "plain", S.result)
            made = True
        new = []
        if o["outer"] == "query":
            new += S.result
        k = nh
        for out in ([S.got] if o["inner"] == "solve" else []) + ([S.result] if o["outer"] == "solve" else []):
            keep, hs[k].out, hs[k].der = (hs[k].out, hs[k].der), out, None
            new += ask(k, "u0", keep=False)
            hs[k].out, hs[k].der = keep
            k += 1
        for v in new:
            key = (v["h"], v["q"])
            if key not in first:
                first[key] = v
                e["vals"].append(v)
            elif v["v"] != first[key]["v"]:
                e["vals"].append(v)


def other_view(G):
    """The same output functions under a handle of its own (the depths asked for belong to the handle)."""
    return copy.copy(G)


def run(ctx):
    one = ctx.tlc("Session", WCFG % 1, workers=2).prints("SESSION")
    two = ctx.tlc("Session", WCFG % 2, workers=8)
    ctx.note("exhaustive_sessions_one_disturbance", len(one))
    two = two.prints("SESSION")
    ctx.note("exhaustive_sessions_two_disturbances", len(two))
    rng = rng_for(ctx.seed, "c13pick")
    n2 = ctx.n(400, len(two))
    two = [two[j] for j in sorted(rng.choice(len(two), min(n2, len(two)), replace=False))]
    nr = ctx.n(300, 3000)
    walks = ctx.tlc("Session", GCFG % 14, simulate=nr, depth=20).prints("SESSION")[:nr]
    sess = one + two + walks
    for s in sess:      # everything is asked of every handle at the end
        s["ops"] += [dict(op="query", h=k + 1, q="all") for k in range(len(s["handles"]))]
    F = ctx.scenarios("full", len(sess)) + ctx.scenarios("nt", len(sess), 1)
    for x in F:  # the versions of a session scale the delta-M fractions: keep them resolved without scaling
        if x["delta"] == "strong":
            x["delta"] = "varied"
    small = [f for f in F if int(f["nq"]) <= 8]
    feats = [(F[k], F[len(sess) + k]) if rng.random() < 0.5 else (F[len(sess) + k], F[k]) for k in range(len(sess))]
    # two problems of the same size meet in every shared buffer or cache
    feats = [(a, dict(b, nq=a["nq"], L=a["L"])) if rng.random() < 0.5 else (a, b) for a, b in feats]
    items, where = [], []
    for i, s in enumerate(sess):
        for h in uniq(s["handles"]):
            items.append((i, feats[i], ctx.seed, h))
            where.append((i, content_key(h)))
    with get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(Guard(ref_job), items, chunksize=1)
        hlp = pool.map(Guard(helper_job), [(i, feats[i], ctx.seed) if any(o["op"] == "helpers" for o in s["ops"]) else None for i, s in enumerate(sess)], chunksize=1)
    refs = [dict() for _ in sess]
    for (i, k), it, (ok, r) in zip(where, items, res):
        if ok:
            refs[i][k] = r
        else:
            ctx.violation("C13.raised", dict(item=repr(it)[:2000], traceback=r))
    if ctx.viol:
        return
    ctx.note("reference_solves", len(items))
    recs = ctx.replay(session_job, [(i, feats[i], ctx.seed, s, refs[i], hlp[i][1] if hlp[i][0] else []) for i, s in enumerate(sess)], chunk=2)
    ctx.note("steps", sum(len(r["ev"]) for r in recs))
    ctx.note("answers_compared", sum(len(e["vals"]) for r in recs for e in r["ev"]))
    ctx.samples.append([x["op"] for x in walks[0]["ops"]])
    whole = next((r for r in recs if r["ev"][-1]["vals"]), None)
    if whole is None:
        whole = recs[0]
        print("no session could be completed:", recs[0]["ev"][-1].get("what"))
        ctx.judge(ctx.validate("Session", recs, [], cfg=JCFG))
        return
    c1 = copy.deepcopy(whole)
    c1["id"] = "canary-inputs"
    c1["ev"][0]["heap"][0][0] = 9
    c2 = copy.deepcopy(whole)
    c2["id"] = "canary-answers"
    c2["ev"][-1]["vals"][-1]["v"][0] += 50
    c3 = copy.deepcopy(whole)
    c3["id"] = "canary-world"
    c3["ev"][-1]["world"][0] += 1
    for c in (c1, c2, c3):
        c.pop("_about")
    ctx.judge(ctx.validate("Session", recs, [c1, c2, c3], cfg=JCFG))
