"""Recordings for spec/Calculus.tla (antiderivatives and derivatives of the outputs)."""
import numpy as np
from vlib import record
from vlib.problem import gauss01
from . import common

G6, W6 = gauss01(6)
G20, W20 = gauss01(20)


def kmax(P):
    k = 1 / gauss01(P.N)[0].min()
    return max(k, 1 / P.mu0) if P.I0 > 0 else k


def intervals(P, rng, small):
    """One interval per layer, with the depth nodes of a quadrature: (a, b, t, w)."""
    out = []
    for l in range(P.L):
        T = P.thick[l]
        if small:
            h = min(T, 2.5 / kmax(P)) * rng.uniform(0.5, 1)
            r = rng.random()
            off = (T - h) * (0 if r < 0.3 else 1 if r > 0.7 else rng.random())
            pan, g, w = 1, G6, W6
        else:
            r = rng.random()
            h = T * (1 if r < 0.4 else rng.uniform(0.1, 1))
            h = min(h, 150 / kmax(P))
            off = (T - h) * (rng.random() if r > 0.5 else 0)
            pan, g, w = int(np.ceil(h * kmax(P) / 6)), G20, W20
        a = P.tau0[l] + off
        b = min(a + h, P.tau[l])
        e = np.linspace(a, b, pan + 1)
        t = (e[:-1, None] + np.diff(e)[:, None] * g[None, :]).ravel()
        ww = (np.diff(e)[:, None] * w[None, :]).ravel()
        lo, hi = (np.nextafter(P.tau0[l], 1e9) if l else 0.0), P.tau[l]
        out.append((np.clip(a, lo, hi), np.clip(b, lo, hi), np.clip(t, lo, hi), ww))
    return out


def flux_only(P):
    """The same problem solved for the fluxes only (the conditions reduce to the zeroth mode)."""
    return P.but(only_flux=True, nt=False, b_pos=P.bc("pos", 0), b_neg=P.bc("neg", 0))


def recording(P, prop, sid, feat, ivs, outputs, small):
    """outputs: {name: (f, F)} with f, F mapping a depth array to (components, depths)."""
    H = dict(id=sid, prop=prop, L=P.L, nout=len(outputs), ev=[], _about=common.about(P, feat))
    fs, Fs = {}, {}
    t = np.concatenate([i[2] for i in ivs])
    ends = np.concatenate([[i[0], i[1]] for i in ivs])
    for o, (f, F) in outputs.items():
        fs[o] = np.atleast_2d(f(t))
        Fs[o] = np.atleast_2d(F(ends))
    p = 0
    floor = 1e-5 * max(record.fmax(*fs.values()), P.I0, record.fmax(P.b_pos, P.b_neg))
    for l, (a, b, tt, w) in enumerate(ivs):
        sl = slice(p, p + len(tt))
        p += len(tt)
        for o in outputs:
            f = fs[o][:, sl]
            d = Fs[o][:, 2 * l + 1] - Fs[o][:, 2 * l]
            sc = max(floor, record.fmax(fs[o]) * 1e-2, record.fmax(f), record.fmax(d) / max(b - a, 0.2)) or 1.0
            e = dict(l=l + 1, o=o)
            if small:
                e.update(k="int", h=record.fx(b - a), f=record.fx(f, sc), d=record.fx(d, sc))
            else:
                with np.errstate(all="ignore"):
                    e.update(k="res", v=record.unit9(np.max(np.abs(f @ w - d)) / (sc * max(b - a, 0.2))
                                                     if np.all(np.isfinite(d)) and np.all(np.isfinite(f)) else np.inf))
            H["ev"].append(e)
    return H
