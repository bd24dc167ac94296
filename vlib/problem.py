"""Concrete problems: turning an abstract scenario (chosen by TLC) into pydisort arguments.

Nothing here looks at the implementation; it only uses the public call signature.
"""
import hashlib
import warnings
from math import pi

import numpy as np

warnings.filterwarnings("ignore")


def rng_for(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


# ---- reflectance modes ------------------------------------------------------------------
class ScalarMode:
    kind = "scalar"

    def __init__(self, a):
        self.a = float(a)

    def matrix(self, mu, mup):
        return np.full((len(mu), len(mup)), self.a)

    def arg(self):
        return self.a


class FuncMode:
    kind = "func"

    def __init__(self, m, a, b, c):
        self.m, self.a, self.b, self.c = m, float(a), float(b), float(c)

    def matrix(self, mu, mup):
        mu, mup = np.atleast_1d(mu), np.atleast_1d(mup)
        base = self.a * (1 + self.b * mu[:, None] - self.c * mup[None, :] + 0.2 * mu[:, None] * mup[None, :] ** 2)
        if self.m > 0:
            base = base * (np.sqrt(1 - mu**2)[:, None] * np.sqrt(1 - mup**2)[None, :]) ** min(self.m, 2)
        return base

    def __call__(self, mu, mup):
        return self.matrix(mu, mup)

    def arg(self):
        return self.matrix


FIELDS = ["tau", "omega", "nq", "leg", "mu0", "I0", "phi0", "nleg", "nf", "b_pos", "b_neg",
          "f", "bdrf", "cached", "s", "thr", "nt", "only_flux", "autograd"]


class Problem:
    """All arguments of one call.  tau, omega, f: (L,); leg: (L, nleg_all); s: (L, ns) or None."""

    def __init__(self, **kw):
        self.tau = np.atleast_1d(np.array(kw["tau"], float))
        self.L = len(self.tau)
        self.omega = np.atleast_1d(np.array(kw["omega"], float))
        self.nq = int(kw["nq"])
        self.N = self.nq // 2
        self.leg = np.atleast_2d(np.array(kw["leg"], float))
        self.mu0 = float(kw.get("mu0", 0.5))
        self.I0 = float(kw.get("I0", 0))
        self.phi0 = float(kw.get("phi0", 0))
        self.nleg = int(kw.get("nleg") or self.nq)
        self.nf = int(kw.get("nf") or self.nq)
        self.b_pos = kw.get("b_pos", 0)
        self.b_neg = kw.get("b_neg", 0)
        f = kw.get("f")
        self.f = np.zeros(self.L) if f is None else np.atleast_1d(np.array(f, float))
        self.bdrf = list(kw.get("bdrf", []))
        self.cached = kw.get("cached", None)  # None | "plain" | "mu0"
        s = kw.get("s")
        self.s = None if s is None else np.atleast_2d(np.array(s, float))
        self.thr = int(kw.get("thr", 10))
        self.nt = bool(kw.get("nt", False))
        self.only_flux = bool(kw.get("only_flux", False))
        self.autograd = bool(kw.get("autograd", False))

    def but(self, **kw):
        d = dict(tau=self.tau, omega=self.omega, nq=self.nq, leg=self.leg, mu0=self.mu0, I0=self.I0,
                 phi0=self.phi0, nleg=self.nleg, nf=self.nf, b_pos=self.b_pos, b_neg=self.b_neg, f=self.f,
                 bdrf=self.bdrf, cached=self.cached, s=self.s, thr=self.thr, nt=self.nt,
                 only_flux=self.only_flux, autograd=self.autograd)
        d.update(kw)
        return Problem(**d)

    # --- documented delta-M scaling
    @property
    def scale(self):
        return 1 - self.omega * self.f

    @property
    def thick(self):
        return np.diff(np.concatenate([[0.0], self.tau]))

    @property
    def stau0(self):
        return np.concatenate([[0.0], np.cumsum(self.scale * self.thick)])

    @property
    def tau0(self):
        return np.concatenate([[0.0], self.tau])

    @property
    def somega(self):
        return (1 - self.f) * self.omega / self.scale

    @property
    def sleg(self):
        return (self.leg[:, :self.nleg] - self.f[:, None]) / (1 - self.f)[:, None]

    def stau(self, t, l):
        return self.stau0[l] + self.scale[l] * (t - self.tau0[l])

    def layer(self, t):
        for l in range(self.L):
            if t <= self.tau[l]:
                return l
        raise ValueError(t)

    def source(self, t, l):
        return 0.0 if self.s is None else float(np.polyval(self.s[l][::-1], t))

    def nmodes(self):
        return 1 if self.only_flux else self.nf

    def bc(self, which, m):
        b = self.b_pos if which == "pos" else self.b_neg
        b = np.asarray(b, float)
        if b.ndim == 2:
            return b[:, m].copy()
        return np.broadcast_to(b, (self.N,)).copy() if m == 0 else np.zeros(self.N)

    def nt_active(self):
        return bool(self.nt and not self.only_flux and self.I0 > 0 and np.any(self.f * self.omega > 0)
                    and self.nleg < self.leg.shape[1])

    # --- the call
    def bdrf_args(self):
        modes = [m.arg() for m in self.bdrf]
        if self.cached:
            from PythonicDISORT import subroutines as su
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                modes = su.cache_BDRF_Fourier_modes(self.N, modes, self.mu0 if self.cached == "mu0" else 0)
        return modes

    def kwargs(self):
        kw = dict(NLeg=self.nleg, NFourier=self.nf, b_pos=self.b_pos, b_neg=self.b_neg,
                  only_flux=self.only_flux, f_arr=self.f.copy(), NT_cor=self.nt,
                  BDRF_Fourier_modes=self.bdrf_args(), use_banded_solver_NLayers=self.thr,
                  autograd_compatible=self.autograd)
        if self.s is not None:
            kw["s_poly_coeffs"] = self.s.copy()
        return kw

    def args(self):
        return (self.tau.copy(), self.omega.copy(), self.nq, self.leg.copy(), self.mu0, self.I0, self.phi0)

    def solve(self):
        import PythonicDISORT
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Sol(self, PythonicDISORT.pydisort(*self.args(), **self.kwargs()))

    def describe(self):
        d = {}
        for k in ("tau", "omega", "leg", "f", "s", "b_pos", "b_neg"):
            v = getattr(self, k)
            d[k] = None if v is None else np.asarray(v).tolist()
        for k in ("nq", "mu0", "I0", "phi0", "nleg", "nf", "cached", "thr", "nt", "only_flux", "autograd"):
            d[k] = getattr(self, k)
        d["bdrf"] = [vars(m) | {"kind": m.kind} for m in self.bdrf]
        return d


def as_type(x, name):
    """The array in another type if that can hold its numbers."""
    if name.startswith("u") and np.any(x < 0):
        return x
    with np.errstate(all="ignore"):
        y = x.astype(name)
    return y if np.array_equal(y, x) else x


class Sol:
    """Output functions with full axes restored (never squeezed)."""
    asked = "array"

    def __init__(self, P, out):
        self.P = P
        self.out = out
        self.mu, self.Fp, self.Fm, self.u0f = out[:4]
        self.uf = out[4] if len(out) > 4 else None
        self.turn = P.nq // 2 + P.L + P.nf      # not always the same way first

    def ask(self, f, n, t, *more, anti=False):
        """Value(s) of an output function; successive calls use different but equal ways of asking."""
        if self.turn % 5 == 3 and n in ("fp", "fm", "ap", "am", "u0", "u"):
            # among other depths, in between
            more_t = np.random.default_rng(len(t)).uniform(0, self.P.tau[-1], 17)
            at = np.sort(np.random.default_rng(self.turn).permutation(17 + len(t))[:len(t)])
            full = np.insert(more_t, at - np.arange(len(t)), t)
            v = self._ask(f, n, full, *more, anti=anti)
            m, last = len(full), (np.size(more[0]) if n == "u" else 1)      # (directions, depths, azimuths)
            pick = lambda x: np.reshape(x, (-1, m, last))[:, at]
            return tuple(pick(x) if np.size(x) % (m * last) == 0 else x for x in v)
        return self._ask(f, n, t, *more, anti=anti)

    def _ask(self, f, n, t, *more, anti=False):
        self.turn += 1
        k = self.turn % 6
        if self.asked == "list":
            t, more = t.tolist(), tuple(x.tolist() for x in more)
        elif self.asked != "array":
            t, more = as_type(t, self.asked), tuple(as_type(x, self.asked) for x in more)
        if len(t) == 1 and self.turn % 4 == 0:
            t = t[0] if self.asked != "array" else float(t[0])
        if k == 1:
            return f(t, *more, anti, *([False] if n == "u" else []), True)[:-1]
        if k == 2:
            return f(t, *more, return_tau_arr=True, is_antiderivative_wrt_tau=anti)[:-1]
        if k == 3 and not anti:
            v = f(t, *more)
        elif k == 4 and n == "u" and not self.P.autograd:
            return f(t, *more, anti, return_Fourier_error=True)[:1]
        else:
            v = f(t, *more, anti)
        return v if isinstance(v, tuple) else (v,)

    def fp(self, t, anti=False):
        t = np.atleast_1d(t)
        return np.reshape(self.ask(self.Fp, "fp", t, anti=anti)[0], len(t))

    def fm(self, t, anti=False):
        t = np.atleast_1d(t)
        a, b = self.ask(self.Fm, "fm", t, anti=anti)
        return np.reshape(a, len(t)), np.broadcast_to(np.reshape(b, -1), (len(t),))

    def u0(self, t, anti=False):
        t = np.atleast_1d(t)
        return np.reshape(self.ask(self.u0f, "u0", t, anti=anti)[0], (self.P.nq, len(t)))

    def u(self, t, phi, anti=False):
        t, phi = np.atleast_1d(t), np.atleast_1d(phi)
        return np.reshape(self.ask(self.uf, "u", t, phi, anti=anti)[0], (self.P.nq, len(t), len(phi)))

    def act(self):
        """Upward and downward diffuse actinic flux functions (always one axis)."""
        from PythonicDISORT import subroutines as su
        ap, am = su.generate_diff_act_flux_funcs(self.u0f)

        def wrap(f, n):
            def g(t, anti=False):
                t = np.atleast_1d(t)
                return np.reshape(self.ask(f, n, t, anti=anti)[0], len(t))
            return g
        return wrap(ap, "ap"), wrap(am, "am")

    def modes(self, t, anti=False):
        """Fourier cosine modes (NF, NQ, Nt) recovered from u at Chebyshev azimuths."""
        t = np.atleast_1d(t)
        if self.uf is None:
            return self.u0(t, anti)[None]
        M = self.P.nf
        if self.asked not in ("array", "list"):     # whole azimuths
            phi = np.arange(min(126.0, 4 * M + 8))
            C = np.cos(np.arange(M)[:, None] * (self.P.phi0 - phi)[None, :])
            return np.einsum("pm,itp->mit", np.linalg.pinv(C), self.u(t, phi, anti))
        th = pi * (2 * np.arange(M) + 1) / (2 * M)
        v = self.u(t, self.P.phi0 - th, anti)
        C = np.cos(np.arange(M)[:, None] * th[None, :]) * 2 / M
        C[0] /= 2
        return np.einsum("mp,itp->mit", C, v)


# ---- physics in floating point (the same formulas as spec/Transport.tla) ---------------
def lam_table(nleg, m, x):
    """Lambda_l^m(x) = sqrt((l-m)!/(l+m)!) P_l^m(x) without Condon-Shortley phase, l = m..nleg-1."""
    x = np.atleast_1d(np.asarray(x, float))
    out = np.zeros((max(nleg - m, 0), len(x)))
    p = np.ones_like(x)
    for k in range(1, m + 1):
        p = p * np.sqrt((2 * k - 1) / (2 * k)) * np.sqrt(1 - x**2)
    prev = np.zeros_like(x)
    for l in range(m, nleg):
        if l > m:
            p, prev = ((2 * l - 1) * x * p - np.sqrt((l - 1) ** 2 - m**2) * prev) / np.sqrt(l * l - m * m), p
        out[l - m] = p
    return out


class Phys:
    def __init__(self, P, mu=None):
        self.P = P
        self.mup, self.w = gauss01(P.N)
        self.mu = np.concatenate([self.mup, -self.mup])
        self.W = np.concatenate([self.w, self.w])
        self._lam = {}

    def lam(self, m):
        if m not in self._lam:
            self._lam[m] = (lam_table(self.P.nleg, m, self.mu), lam_table(self.P.nleg, m, [-self.P.mu0])[:, 0])
        return self._lam[m]

    def D(self, l, m):
        P = self.P
        lm, _ = self.lam(m)
        g = (2 * np.arange(m, P.nleg) + 1) * P.sleg[l, m:]
        return P.somega[l] / 2 * (lm.T * g) @ lm

    def X(self, l, m):
        P = self.P
        lm, l0 = self.lam(m)
        g = (2 * np.arange(m, P.nleg) + 1) * P.sleg[l, m:]
        return P.somega[l] * P.I0 * (1 if m == 0 else 2) / (4 * pi) * (g * l0) @ lm

    def kmax(self):
        return 1 / self.mup.min()

    def direct(self, ts):
        return np.exp(-ts / self.P.mu0) if self.P.I0 > 0 else 0 * ts
