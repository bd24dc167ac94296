"""C16: quadrature rules, scattering angle, polynomial and matrix utilities against exact identities."""
import copy
from math import pi
import numpy as np
from vlib import record
from vlib.problem import rng_for

G, B, N_, J = ("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % s for s in ("GSpec", "BSpec", "NSpec", "JSpec"))


def ints(x, s=1, tol=1e-6):
    """Exact integers (scaled); anything else is marked."""
    v = np.asarray(x, float) * s
    r = np.where(np.isfinite(v) & (np.abs(v) < 1.5e9), np.round(np.nan_to_num(v)), record.BAD)
    return np.where(np.abs(np.nan_to_num(v) - r) <= tol * np.maximum(1, np.abs(r)), r, record.BAD - 7).astype(np.int64).tolist()


def scaled(x, s):
    v = np.asarray(x, float) * s
    return np.where(np.isfinite(v) & (np.abs(v) < 1.5e9), np.round(np.nan_to_num(v)), record.BAD).astype(np.int64).tolist()


def legendre_moments(x, w, c, d, deg):
    t = (2 * x - c - d) / (d - c)
    V = np.polynomial.legendre.legvander(t, deg)
    m = (w / (d - c)) @ V
    return [record.unit9(abs(v)) for v in m[1:]]


def evaluate(q, rng):
    from PythonicDISORT import subroutines as su
    k = q["k"]
    e = dict(q=q, raised=False, finite=True)
    extra = []
    if k == "affine":
        c, a, b = np.array(q["c"], float), np.array(q["a"], float), np.array(q["b"], float)
        keep = c.copy(), a.copy(), b.copy()
        e["D"] = ints(su.affine_transform_poly_coeffs(c, a, b), 2.0 ** (c.shape[1] - 1))
        # arbitrary real factors
        c, a, b = rng.uniform(-1, 1, (4, int(rng.choice([1, 2, 3, 4, 5, 6, 7, 11, 24, 40])))), rng.uniform(0.3, 2, 4) * rng.choice([-1, 1], 4), rng.uniform(-1, 1, 4)
        D = su.affine_transform_poly_coeffs(c, a, b)
        S = su.affine_transform_poly_coeffs(np.abs(c), np.abs(a), -np.abs(b))      # the size of the terms of each sum
        r = 0
        for j in range(4):
            for x in rng.uniform(-1, 1, 3):
                y = a[j] * x + b[j]
                r = max(r, abs(np.polyval(D[j][::-1], y) - np.polyval(c[j][::-1], x)) / np.polyval(np.maximum(np.abs(D[j]), np.abs(S[j]))[::-1], abs(y)))
        extra.append(("affine", r, 30))
    elif k == "spline":
        e["C"] = scaled(su.linear_spline_coefficients(np.array(q["x"], float), np.array(q["y"], float)), 1e6)
        m = int(rng.integers(2, 9))
        x, y = np.cumsum(10 ** rng.uniform(rng.choice([-4, -8]), 1, m)), rng.uniform(-1, 1, m)
        C = su.linear_spline_coefficients(x, y)
        r = 0
        for j in range(m - 1):
            for p, v in ((x[j], y[j]), (x[j + 1], y[j + 1])):
                r = max(r, abs(C[j][0] + C[j][1] * p - v) / (1 + abs(C[j][0])))
        extra.append(("spline", r, 10))
    elif k == "fd":
        t, D = su.generate_FD_mat(q["m"], q["a"], q["b"])
        e["t"] = scaled(t, 1e6)
        D = D.toarray()
        e["d"] = scaled(D @ np.polyval(q["p"][::-1], t), 1e6)
        e["nz"] = (np.abs(D) > 0).tolist()
        a, b = rng.uniform(-2, 0), rng.uniform(0.2, 3)
        m = int(10 ** rng.uniform(0.5, 2.3))
        t, D = su.generate_FD_mat(m, a, b)
        p = rng.uniform(-1, 1, 3)
        extra.append(("fd", np.max(np.abs(D @ np.polyval(p, t) - np.polyval(np.polyder(p), t))) / (m * 10) + np.max(np.abs(t - np.linspace(a, b, m))), 10))
    elif k == "band":
        A = np.array(q["A"], float)
        e["ab"] = ints(su.to_diag_ordered_form(A, q["u"], q["l"]))
        m = int(10 ** rng.uniform(0, 2.2))
        up, lo = rng.integers(0, m, 2)
        A = rng.uniform(-1, 1, (m, m))
        A = np.triu(np.tril(A, up), -lo)
        ab = su.to_diag_ordered_form(A, int(up), int(lo))
        i, j = np.nonzero(A)
        ok = np.shape(ab) == (up + lo + 1, m) and np.array_equal(np.asarray(ab)[up + i - j, j], A[i, j])
        extra.append(("band", 0.0 if ok else np.inf, 1))
    elif k in ("gauss", "clenshaw"):
        f = su.Gauss_Legendre_quad if k == "gauss" else su.Clenshaw_Curtis_quad
        c, d = (q["c"], q["d"]) if not q["dflt"] else (0, 1 if k == "gauss" else 2 * pi)
        x, w = f(q["m"]) if q["dflt"] else f(q["m"], c, d)
        x, w = np.asarray(x), np.asarray(w)
        deg = 2 * q["m"] - 1 if k == "gauss" else q["m"] - 1
        e["leg"] = legendre_moments(x, w, c, d, min(deg, 60))
        e["length"] = bool(abs(np.sum(w) - (d - c)) < 1e-9)
        e["x"], e["w"] = record.fx((x - c) / (d - c)), record.fx(w / (d - c))
        e["x"] = [min(max(v, 0), 10 ** 8) if abs(v) < 3 or abs(v - 10 ** 8) < 3 else v for v in e["x"]]
        c, d = rng.uniform(-5, 5), rng.uniform(-5, 5)
        x, w = f(q["m"], c, d)
        extra.append((k, max([v / 1e9 for v in legendre_moments(x, w, c, d, min(deg, 60))] + [abs(np.sum(w) - (d - c))]), 30))
        if rng.random() < 0.2:      # rules far beyond the sizes TLC computes with, to their full degree
            m = int(10 ** rng.uniform(1.3, 2.5))
            m = 2 * m + 1 if k == "clenshaw" else m
            x, w = f(m, c, d)
            r = max([v / 1e9 for v in legendre_moments(x, w, c, d, 2 * m - 1 if k == "gauss" else m - 1)] + [abs(np.sum(w) - (d - c))])
            extra.append((k, r if len(x) == len(w) == m and np.all(np.asarray(w) * (d - c) > 0) else np.inf, 100))
    elif k == "nu":
        v = [np.array(q["mu"]) / 10.0, np.array(q["phi"]) * pi / 6, np.array(q["mup"]) / 10.0, np.array(q["phip"]) * pi / 6]
        full = [len(x) for x in v]
        v = [float(x[0]) if s and len(x) == 1 else x for x, s in zip(v, q["scalar"])]
        r = su.calculate_nu(*v)
        e["shape"] = list(np.shape(r))
        e["nu"] = np.reshape(record.fx(r), full).tolist() if np.size(r) == np.prod(full) else []
        m, p, m2, p2 = rng.uniform(-1, 1, 3), rng.uniform(-9, 9, 4), rng.uniform(-1, 1, 2), rng.uniform(-9, 9, 5)
        vec = lambda a, b: np.array([np.sqrt(1 - a * a) * np.cos(b), np.sqrt(1 - a * a) * np.sin(b), a])
        ref = np.array([[[[vec(a, b) @ vec(c, d) for d in p2] for c in m2] for b in p] for a in m])
        r = su.calculate_nu(m, p, m2, p2)
        extra.append(("nu", np.max(np.abs(r - ref)) if np.shape(r) == ref.shape else np.inf, 10))
    elif k == "interval":
        v = np.array(q["v"], float)
        e["pts"] = ints(su.transform_interval(v, q["c"], q["d"], q["a"], q["b"]), 16)
        e["wts"] = ints(su.transform_weights(v, q["c"], q["d"], q["a"], q["b"]), 16)
    elif k == "prepend":
        e["r"] = ints(su.prepend(np.array(q["v"], float), len(q["v"]), q["x"]))
    elif k == "twod":
        shp = q["shape"] if isinstance(q["shape"], list) else []
        a = rng.integers(0, 9, tuple(shp))
        r = su.atleast_2d_append(*[a] * q["many"])
        r = [r] if q["many"] == 1 else list(r)
        e["shapes"] = [list(np.shape(x)) for x in r]
        e["same"] = bool(all(np.array_equal(np.ravel(x), np.ravel(a)) for x in r))
        q["shape"] = shp
    return e, extra


def job(item):
    i, qs, seed = item
    rng = rng_for(seed, "c16", i)
    evs = []
    for q in qs:
        try:
            e, extra = evaluate(q, rng)
        except Exception as x:
            e, extra = dict(q=q, raised=True, finite=True, what=repr(x)[:300]), []
        evs.append(e)
        evs += [dict(q=dict(k="res", what=w), raised=False, finite=True, v=record.unit9(v), tol=t) for w, v, t in extra]
    return dict(id="u%d" % i, ev=evs, _about=None)


def run(ctx):
    n = ctx.n(9000, 120000)
    qs = ctx.tlc("Util", B, workers=1).prints("UTIL") + ctx.tlc("Util", N_, workers=1).prints("UTIL")
    ctx.note("exhaustive_cases", len(qs))
    qs += ctx.tlc("Util", G, simulate=n, depth=4).prints("UTIL")
    recs = ctx.replay(job, [(i, qs[i * 30:(i + 1) * 30], ctx.seed) for i in range((len(qs) + 29) // 30)], chunk=2)
    kinds = {}
    for r in recs:
        for e in r["ev"]:
            kinds[e["q"]["k"]] = kinds.get(e["q"]["k"], 0) + 1
    ctx.note("cases_by_kind", kinds)
    ctx.samples.append(qs[-1])
    bump = dict(band=lambda e: e["ab"][e["q"]["u"]].__setitem__(0, 12345), affine=lambda e: e["D"][0].__setitem__(0, e["D"][0][0] + 1), spline=lambda e: e["C"][0].__setitem__(1, e["C"][0][1] + 1000),
                fd=lambda e: e["d"].__setitem__(0, e["d"][0] + 1000), gauss=lambda e: e["w"].__setitem__(0, e["w"][0] + 2000),
                clenshaw=lambda e: e["w"].__setitem__(0, e["w"][0] + 2000), nu=lambda e: e["shape"].append(2),
                interval=lambda e: e["pts"].__setitem__(0, e["pts"][0] + 1), prepend=lambda e: e["r"].reverse() or e["r"].append(5),
                twod=lambda e: e["shapes"].append([1, 1]), res=lambda e: e.__setitem__("v", 1000))
    cans = []
    for k, f in bump.items():
        for r in recs:
            j = [j for j, e in enumerate(r["ev"]) if e["q"]["k"] == k and not e["raised"]]
            if j:
                c = dict(id="canary-" + k, ev=[copy.deepcopy(r["ev"][j[0]])])
                f(c["ev"][0])
                cans.append(c)
                break
    ctx.judge(ctx.validate("Util", recs, cans, cfg=J))
