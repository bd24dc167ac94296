"""Recording solutions as event sequences for spec/Column.tla."""
from math import pi
import numpy as np
from .problem import Phys, gauss01
from .measure import FLOOR

BAD = 2000000000
G6, W6 = gauss01(6)


def fx(x, sc=1.0):
    """Fixed point; anything that is not a finite number of moderate size is logged as Bad."""
    with np.errstate(all="ignore"):
        v = np.asarray(x, float) / sc * 1e8
        ok = np.isfinite(v) & (np.abs(v) < 9e8)
        v = np.where(ok, v, 0)
    return np.where(ok, np.round(v), BAD).astype(np.int64).tolist()


def unit9(r):
    """A relative residual in units of 1e-9, saturating; not-a-number counts as the worst."""
    r = float(r)
    return BAD if not np.isfinite(r) or r > 1.9 else int(round(r * 1e9))


def fmax(*xs):
    m = 0.0
    for x in xs:
        v = np.abs(np.asarray(x, float)).ravel()
        v = v[np.isfinite(v)]
        if v.size:
            m = max(m, float(v.max()))
    return m


def header(P, sid):
    return dict(id=sid, nq=P.nq, N=P.N, L=P.L, nf=P.nf, nleg=P.nleg, h=fx(P.thick), om=fx(P.omega), f=fx(P.f),
                g=fx(P.leg[:, :P.nleg]), mu0=fx(P.mu0), mu=fx(gauss01(P.N)[0]), w=fx(gauss01(P.N)[1]),
                walk=True, modes=[], ev=[])


def lower(P, l, t):
    """Depths of layer l: strictly below the interface above it."""
    return np.maximum(t, np.nextafter(P.tau0[l], 1e9)) if l else np.maximum(t, 0.0)


def observe_walk(P, sol, rng, kh=2.5):
    """All fields of the walk: list of (event skeleton, modes (nf, nq, nt))."""
    kmax = 1 / gauss01(P.N)[0].min()
    if P.I0 > 0:
        kmax = max(kmax, 1 / P.mu0)
    obs = [(dict(k="top"), sol.modes([0.0]))]
    for l in range(P.L):
        T = P.thick[l]
        h = min(T, kh / kmax) * rng.uniform(0.6, 1)
        r = rng.random()
        off = (T - h) * (0 if r < 0.25 else 1 if r > 0.75 else rng.random())
        a, b = P.tau0[l] + off, min(P.tau0[l] + off + h, P.tau[l])
        t = np.minimum(lower(P, l, np.concatenate([[a, b], a + (b - a) * G6])), P.tau[l])
        obs.append((dict(k="interval", l=l + 1, a=fx(a - P.tau0[l]), b=fx(b - P.tau0[l])), sol.modes(t)))
        if l < P.L - 1:
            t = [P.tau[l], np.nextafter(P.tau[l], 1e9)]
            obs.append((dict(k="cross", l=l + 1), sol.modes(t)))
    obs.append((dict(k="bottom"), sol.modes([P.tau[-1]])))
    return obs


def column(P, sol, sid, rng, kinds=("top", "interval", "cross", "bottom")):
    """Arithmetic record, or None when some magnitude does not fit the fixed-point range."""
    H = header(P, sid)
    ph = Phys(P)
    obs = observe_walk(P, sol, rng)
    field = fmax(*[o for _, o in obs])
    scs = []
    for m in range(P.nf):
        b1, b2 = P.bc("neg", m), P.bc("pos", m)
        smax = 0.0
        if m == 0 and P.s is not None:
            grid = [abs(P.source(t, l)) for l in range(P.L) for t in np.linspace(P.tau0[l], P.tau[l], 7)]
            smax = max(grid + list(np.abs(P.s).ravel() / 6))
        sc = max(fmax(*[o[m] for _, o in obs]), P.I0 / 8, smax, fmax(b1, b2), FLOOR * field)
        if sc == 0:
            sc = 1.0
        scs.append(sc)
        md = dict(I0=fx(P.I0, sc), s=fx(P.s, sc) if m == 0 and P.s is not None else [], bneg=fx(b1, sc), bpos=fx(b2, sc),
                  refl=m < len(P.bdrf), rho=[], rho0=[])
        if md["refl"]:
            md["rho"] = fx(P.bdrf[m].matrix(ph.mup, ph.mup))
            md["rho0"] = fx(P.bdrf[m].matrix(ph.mup, np.array([P.mu0]))[:, 0]) if P.I0 > 0 else [0] * P.N
        H["modes"].append(md)
        if max(np.max(np.abs(ph.D(l, m)), initial=0) for l in range(P.L)) > 9 or \
           max(np.max(np.abs(ph.X(l, m)), initial=0) for l in range(P.L)) / sc > 9:
            return None
    if P.tau[-1] > 9 or (P.I0 > 0 and P.tau[-1] / P.mu0 > 18):
        return None
    for sk, o in obs:
        if sk["k"] not in kinds and sk["k"] not in ("top", "cross", "bottom"):
            continue
        e = dict(sk)
        if sk["k"] == "interval":
            e["u"] = [fx(o[m].T, scs[m]) for m in range(P.nf)]
        elif sk["k"] == "cross":
            e["u"] = [fx(o[m][:, 0], scs[m]) for m in range(P.nf)]
            e["v"] = [fx(o[m][:, 1], scs[m]) for m in range(P.nf)]
        else:
            e["u"] = [fx(o[m][:, 0], scs[m]) for m in range(P.nf)]
        H["ev"].append(e)
    return H


def flux_events(P, sol, rng, npts=3, actinic=True):
    """Pointwise flux / zeroth-mode / actinic observations (units of 2 pi)."""
    from PythonicDISORT import subroutines as su
    ap, am = sol.act()
    ls = rng.integers(0, P.L, npts)
    ts = np.array([lower(P, l, P.tau0[l] + P.thick[l] * rng.choice([0.0, 1.0, rng.random()])) for l in ls])
    fp = sol.fp(ts)
    fm, fd = sol.fm(ts)
    u0 = sol.u0(ts)
    a1, a2 = np.reshape(ap(ts), -1), np.reshape(am(ts), -1)
    sc = max(fmax(u0), P.I0 / (2 * pi) / 8, fmax(fp, fm, fd, a1, a2) / (2 * pi))
    sc = sc or 1.0
    ev = []
    for j, t in enumerate(ts):
        l = int(ls[j])
        ev.append(dict(k="flux", l=l + 1, a=fx(t - P.tau0[l]), I0=fx(P.I0 / (2 * pi), sc), u0=fx(u0[:, j], sc),
                       fp=fx(fp[j] / 2 / pi, sc), fm=fx(fm[j] / 2 / pi, sc), fd=fx(fd[j] / 2 / pi, sc),
                       ap=fx(a1[j] / 2 / pi, sc), am=fx(a2[j] / 2 / pi, sc)))
    return ev


def mean_events(P, sol, rng, npts=2):
    if sol.uf is None:
        return []
    ts = rng.uniform(0, P.tau[-1], npts)
    M = P.nf
    th = pi * (2 * np.arange(M) + 1) / (2 * M)
    u = sol.u(ts, P.phi0 - th)
    u0 = sol.u0(ts)
    sc = fmax(u, u0) or 1.0
    return [dict(k="mean", u0=fx(u0[:, j], sc), u=fx(u[:, j, :].T, sc)) for j in range(npts)]


def energy_events(P, sol, rng, npts=2):
    from PythonicDISORT import subroutines as su
    ap, am = sol.act()
    kmax = 1 / gauss01(P.N)[0].min()
    if P.I0 > 0:
        kmax = max(kmax, 1 / P.mu0)
    ev = []
    for l in rng.integers(0, P.L, npts):
        l = int(l)
        h = min(P.thick[l], 2.5 / kmax) * rng.uniform(0.6, 1)
        a = P.tau0[l] + (P.thick[l] - h) * rng.random()
        t = np.minimum(lower(P, l, np.concatenate([[a, a + h], a + h * G6])), P.tau[l])
        fp = sol.fp(t)
        fm, fd = sol.fm(t)
        act = np.reshape(ap(t), -1) + np.reshape(am(t), -1)
        s = np.zeros(1) if P.s is None else P.s[l]
        sc = max(fmax(act, fp, fm, fd, P.I0) / 2 / pi, fmax(s) / 6, fmax([P.source(x, l) for x in t])) or 1.0
        net = (fp - fm - fd) / 2 / pi
        ev.append(dict(k="energy", l=l + 1, a=fx(a - P.tau0[l]), b=fx(a + h - P.tau0[l]), I0=fx(P.I0 / 2 / pi, sc),
                       s=fx(s, sc), net1=fx(net[0], sc), net2=fx(net[1], sc), act=fx(act[2:] / 2 / pi, sc)))
    return ev
