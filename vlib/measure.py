"""Residuals of the transport equations on observed outputs (floating point)."""
from math import pi
import numpy as np
from .problem import Phys, gauss01

GX, GW = gauss01(8)
# a mode smaller than this fraction of the whole field is measured against the field
FLOOR = 1e-6


def intervals(P, rng, per_layer=1, kh=2.5):
    """Sub-intervals (l, a, b) of layers such that 8-point Gauss quadrature resolves every eigenmode."""
    kmax = 1 / gauss01(P.N)[0].min()
    if P.I0 > 0:
        kmax = max(kmax, 1 / P.mu0)
    out = []
    t0 = P.tau0
    for l in range(P.L):
        T = P.thick[l]
        for q in range(per_layer):
            h = min(T, kh / kmax) * rng.uniform(0.5, 1)
            r = rng.random()
            a = t0[l] + (T - h) * (0 if r < 0.2 else 1 if r > 0.8 else rng.random())
            a = max(a, np.nextafter(t0[l], 1e9) if l else 0.0)
            out.append((l, a, min(a + h, P.tau[l])))
    return out


def rte_residual(P, sol, iv, modes=None):
    """Relative residual per mode of the integral form of the RTE on one interval."""
    l, a, b = iv
    h = b - a
    t = np.concatenate([[a, b], a + h * GX])
    if l:  # a numerically equal to the interface belongs to the layer above
        t = np.maximum(t, np.nextafter(P.tau[l - 1], 1e9))
    um = sol.modes(t) if modes is None else modes(t)
    ph = Phys(P)
    st = P.scale[l]
    E = ph.direct(P.stau(t[2:], l))
    src = np.array([P.source(x, l) for x in t[2:]])
    res = []
    floor = FLOOR * np.max(np.abs(um))
    for m in range(um.shape[0]):
        v = um[m]
        rhs = st * (v[:, 2:] - (ph.D(l, m) * ph.W[None, :]) @ v[:, 2:] - ph.X(l, m)[:, None] * E[None, :])
        if m == 0:
            rhs = rhs - (1 - P.omega[l]) * src[None, :]
        lhs = ph.mu * (v[:, 1] - v[:, 0])
        r = lhs - h * rhs @ GW
        # size of the terms that must balance, relative to the thickness of the interval
        mag = np.max(np.abs(v)) + np.max(np.abs(ph.X(l, m))) * np.max(np.abs(E)) + (np.max(np.abs(src)) if m == 0 else 0)
        mag = max(mag, floor)
        # scattering this weak may be neglected altogether
        if np.max(np.abs(P.somega[l] / 2 * (2 * np.arange(m, P.nleg) + 1) * P.sleg[l, m:]), initial=0) < 1e-7:
            r = np.maximum(np.abs(r) - 1e-7 * h * (np.max(np.abs(um)) + P.I0), 0)
        res.append(np.max(np.abs(r)) / (mag * min(1, h) + 1e-300) if mag > 0 else 0.0)
    return np.array(res), um


def bc_residual(P, sol):
    """(top, bottom) relative residual per mode."""
    ph = Phys(P)
    N = P.N
    um = sol.modes([0.0, P.tau[-1]])
    top, bot = [], []
    for m in range(um.shape[0]):
        down, up = um[m][N:, :], um[m][:N, :]
        bneg = P.bc("neg", m)
        bpos = P.bc("pos", m)
        ref = np.zeros(N)
        if m < len(P.bdrf):
            ref = (1 + (m == 0)) * P.bdrf[m].matrix(ph.mup, ph.mup) @ (ph.mup * ph.w * down[:, 1])
            if P.I0 > 0:
                ref = ref + P.mu0 * P.I0 / pi * P.bdrf[m].matrix(ph.mup, np.array([P.mu0]))[:, 0] * np.exp(-P.stau0[-1] / P.mu0)
        mag = max(np.max(np.abs(um[m])), np.max(np.abs(bneg)), np.max(np.abs(bpos)), np.max(np.abs(ref)))
        mag = max(mag, FLOOR * np.max(np.abs(um)), 1e-300)
        top.append(np.max(np.abs(down[:, 0] - bneg)) / mag)
        bot.append(np.max(np.abs(up[:, 1] - bpos - ref)) / mag)
    return np.array(top), np.array(bot)


def nt_reference(P, t, phi):
    """TMS + IMS corrections (NQ, Nt, Nphi) from their definition (documentation section 3.7.2)."""
    mup = gauss01(P.N)[0]
    t, phi = np.atleast_1d(t), np.atleast_1d(phi)
    out = np.zeros((P.nq, len(t), len(phi)))
    na = P.leg.shape[1]
    def legsum(c, nu):
        return np.polynomial.legendre.legval(nu, (2 * np.arange(len(c)) + 1) * c)
    sleg = P.sleg
    for i in range(P.nq):
        mu = mup[i % P.N]
        up = i < P.N
        nu = (-P.mu0 * (mu if up else -mu)) + np.sqrt(1 - P.mu0**2) * np.sqrt(1 - mu**2) * np.cos(P.phi0 - phi)
        S = [P.somega[l] * P.I0 / (4 * pi) * (legsum(P.leg[l], nu) / (1 - P.f[l]) - legsum(sleg[l], nu)) for l in range(P.L)]
        for j, x in enumerate(t):
            l0 = P.layer(x)
            ts = P.stau(x, l0)
            acc = np.zeros(len(phi))
            for l in range(P.L):
                a, b = P.stau0[l], P.stau0[l + 1]
                if up and l >= l0:
                    a = max(a, ts)
                    k = 1 / mu + 1 / P.mu0
                    acc += S[l] / mu * np.exp(-(a - ts) / mu - a / P.mu0) * -np.expm1(-(b - a) * k) / k
                if not up and l <= l0:
                    b = min(b, ts)
                    k = 1 / mu - 1 / P.mu0   # integral of exp(-(ts - y)/mu - y/mu0) over [a, b]
                    acc += S[l] / mu * np.exp(-(ts - b) / mu - b / P.mu0) * -np.expm1(-(b - a) * k) / k
            out[i, j] = acc
    # IMS, downward only
    h = P.thick
    wh = P.omega * h
    om = np.sum(wh) / np.sum(h)
    f = np.sum(P.f * wh) / np.sum(wh)
    r = P.leg.copy()
    r[:, :P.nleg] = P.f[:, None]
    r = np.sum(r * wh[:, None], axis=0) / np.sum(P.f * wh)
    m0 = P.mu0 / (1 - om * f)
    pre = P.I0 / (4 * pi) * (om * f) ** 2 / (1 - om * f)
    gx, gw = gauss01(12)
    for i in range(P.N):
        mu = mup[i]
        nu = P.mu0 * mu + np.sqrt(1 - P.mu0**2) * np.sqrt(1 - mu**2) * np.cos(P.phi0 - phi)
        ang = legsum(2 * r - r**2, nu)
        for j, x in enumerate(t):
            # chi = 1/(mu m0) * integral_0^x y exp(-y/m0) exp(-(x-y)/mu) dy, from the side of the larger exponent
            n = int(np.ceil(x / min(mu, m0) / 2)) or 1
            n = min(n, 400)
            yy = (np.arange(n)[:, None] + gx[None, :]) * x / n
            chi = np.sum(gw[None, :] * x / n * yy * np.exp(-yy / m0 - (x - yy) / mu)) / (mu * m0)
            out[P.N + i, j] += pre * ang * chi
    return out
