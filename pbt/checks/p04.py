"""P04: quadrature created for a degree is exact for that degree."""
import math

import numpy as np
from hypothesis import strategies as st

import cells
import fem
import polys
from core import Stratum
from fem import close, require

RULE = ("One stratum per reference cell and scheme. Each case draws a degree (one per factor on product cells) and a polynomial as a product "
        "of powers of barycentric coordinates of total degree at most it; the rule must integrate it (through integrate() and through points and "
        "weights) to the closed-form value, and every member of an independent basis of the polynomials of that degree to its "
        "independently computed integral. Non-trivial: degree at least 1.")


def make_poly(name, powers):
    """Product over simplex factors of barycentric powers, with its exact integral."""
    fs = cells.factor_names(name)
    total = 1.0
    for f, a in zip(fs, powers):
        total *= polys.simplex_monomial_integral(cells.geo(f).volume, a)

    def f(x):
        x = np.asarray(x, dtype=float).reshape(-1)
        v, pos = 1.0, 0
        for fn, a in zip(fs, powers):
            d = cells.geo(fn).sd
            lam = polys.barycentric(fn, x[pos:pos + d])[0]
            v *= float(np.prod(lam ** np.array(a)))
            pos += d
        return v
    return f, total


_cache = {}


def exact(name, degs):
    """Basis of the product polynomial space of the given degrees per simplex factor and its integrals."""
    k = (name, tuple(degs))
    if k not in _cache:
        fs = cells.factor_names(name)
        if len(_cache) > 40:
            _cache.clear()
        parts = []
        for f, d in zip(fs, degs):
            B = polys.total_basis(f, d)
            p, w = polys.cell_rule(f, d)
            parts.append((B, B.tab(p) @ w))
        _cache[k] = parts
    return _cache[k]


def check_rule(name, degs, q, poly=None):
    g = cells.geo(name)
    pts, wts = np.asarray(q.get_points(), dtype=float), np.asarray(q.get_weights(), dtype=float)
    require(pts.ndim == 2 and pts.shape[1] == g.sd and wts.ndim == 1 and len(pts) == len(wts) and len(wts) > 0,
            "points of shape %s, weights of shape %s", pts.shape, wts.shape)
    require(abs(wts.sum() - g.volume) <= 1e-12 * max(1, g.volume) * 4, "weights sum to %.16g, the volume is %.16g", wts.sum(), g.volume)
    fs = cells.factor_names(name)
    pos = 0
    V = []
    for f, (B, ints) in zip(fs, exact(name, degs)):
        d = cells.geo(f).sd
        lam = polys.barycentric(f, pts[:, pos:pos + d])
        require(lam.min() >= -1e-12, "point %s lies outside the cell", pts[int(lam.min(axis=1).argmin())])
        V.append((B.tab(pts[:, pos:pos + d]), ints))
        pos += d
    got, want = V[0]
    for t, i in V[1:]:
        got = np.einsum("ip,jp->ijp", got, t).reshape(-1, len(wts))
        want = np.outer(want, i).reshape(-1)
    got = got @ wts
    size = np.abs(wts).sum() * max(1.0, np.sqrt(len(want)))
    bad = np.abs(got - want)
    require((bad <= 2e-12 * size).all(), "a polynomial of degree %s integrates to %.15g instead of %.15g", degs, got[bad.argmax()], want[bad.argmax()])
    if poly is not None:
        f, total = poly
        v = q.integrate(f)
        close(v, total, max(g.volume, 1.0), 1e-12, "integrate() of a product of barycentric powers")
        v2 = sum(w * f(x) for w, x in zip(wts, pts))
        close(v2, total, max(g.volume, 1.0), 1e-12, "sum over points and weights")


def structured(name, degs):
    """Arrange one degree per simplex factor into the nesting of the cell; returns (nested degrees, rest)."""
    g = cells.geo(name)
    if g.factors is None:
        return degs[0], degs[1:]
    out = []
    for f in g.factors:
        d, degs = structured(f.name, degs)
        out.append(d)
    return tuple(out), degs


def check(name, scheme, case):
    from FIAT.quadrature_schemes import create_quadrature
    ref = cells.geo(name).make()
    degs = case["d"]
    uniform = case["u"]
    nf = len(cells.factor_names(name))
    degs = [degs[0]] * nf if uniform else degs[:nf]
    arg = degs[0] if uniform else structured(name, list(degs))[0]
    if case["l"] and isinstance(arg, tuple):
        arg = list(arg)
    q = create_quadrature(ref, arg) if scheme is None else create_quadrature(ref, arg, scheme)
    powers = []
    for k, (f, d) in enumerate(zip(cells.factor_names(name), degs)):
        a = [0] * len(cells.SIMPLEX[f][1])
        for i in case["w"][k][:d]:
            a[i % len(a)] += 1
        powers.append(a)
    check_rule(name, degs, q, make_poly(name, powers))
    return {"degree %d" % max(degs)} if max(degs) > 0 else None


def strategy(name, dmax, tier, lo=0):
    nf = len(cells.factor_names(name))
    g = cells.geo(name)
    return st.fixed_dictionaries({
        "d": st.lists(st.integers(lo, dmax), min_size=nf, max_size=nf),
        "u": st.just(True) if g.factors is None else st.booleans(), "l": st.booleans(),
        "w": st.lists(st.lists(st.integers(0, 3), min_size=dmax, max_size=dmax), min_size=nf, max_size=nf)})


def max_degree(name, tier):
    fs = cells.factor_names(name)
    sd = cells.geo(name).sd
    q = tier == "quick"
    if len(fs) == 1:
        return {1: 50 if q else 110, 2: 20 if q else 40, 3: 12 if q else 22}[sd]
    return {2: 12 if q else 20, 3: 8 if q else 10}.get(sd, 4 if q else 6)


CELLS = ["I", "dI", "T", "dT", "iT", "K", "dK", "iK", "Q", "H", "I*I", "T*I", "I*T", "dT*I", "T*dI", "K*I", "T*T", "(I*I)*I", "I*(I*T)", "Q*I", "I*I*I"]


def strata(tier):
    out = []
    for c in CELLS:
        for scheme in (None, "default", "canonical"):
            out.append(Stratum("%s %s" % (c, scheme), lambda c=c: strategy(c, max_degree(c, tier), tier),
                               lambda case, c=c, s=scheme: check(c, s, case), n=(120 if scheme else 180, 600)))
    for c in ("T", "K", "dT", "dK", "iT", "iK"):
        out.append(Stratum("%s KMV" % c, lambda c=c: strategy(c, 5 if "T" in c else 3, tier, 1), lambda case, c=c: check(c, "KMV", case), n=(30, 100)))
    # the hard-coded and the first fallback rules: every degree, every run
    for c in ("T", "K"):
        for k in range(0, 8):
            out.append(Stratum("%s default degree %d" % (c, k), lambda c=c, k=k: strategy(c, k, tier, k), lambda case, c=c: check(c, None, case), n=(5, 40)))
    return out
