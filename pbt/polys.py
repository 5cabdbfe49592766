"""Polynomials with exact-by-construction values and derivatives, independent of FIAT.

Fields are represented in a product-Legendre basis on the bounding box of the cell: well conditioned for fitting, and
differentiated by numpy's Legendre routines.  Integrals over simplices use the exact monomial formula in barycentric coordinates."""
import itertools
import math

import numpy as np
from numpy.polynomial import legendre as L

import cells


def multi_indices(sd, total):
    """All tuples of length sd with the given sum."""
    if sd == 0:
        return [()] if total == 0 else []
    return [a for a in itertools.product(range(total + 1), repeat=sd) if sum(a) == total]


def total_degree_exponents(sd, k):
    return [a for a in itertools.product(range(max(k, 0) + 1), repeat=sd) if sum(a) <= k] if k >= 0 else []


def box_degree_exponents(sd, ks):
    ks = [ks] * sd if isinstance(ks, int) else ks
    return list(itertools.product(*[range(k + 1) for k in ks]))


class Basis:
    """Scalar product-Legendre basis on the bounding box of the cell, with a set of exponents."""

    def __init__(self, cell, exps):
        g = cells.geo(cell)
        self.sd = g.sd
        self.lo, self.hi = g.verts.min(axis=0), g.verts.max(axis=0)
        self.exps = list(exps)
        self.n = len(self.exps)
        self.kmax = [max([e[i] for e in self.exps] + [0]) for i in range(self.sd)]

    def tab(self, pts, alpha=None):
        """(n, npts) values of the alpha-derivatives."""
        pts = np.asarray(pts, dtype=float).reshape(-1, self.sd)
        alpha = alpha or (0,) * self.sd
        oned = []
        for i in range(self.sd):
            h = self.hi[i] - self.lo[i]
            x = 2 * (pts[:, i] - self.lo[i]) / h - 1
            tab = []
            for k in range(self.kmax[i] + 1):
                c = np.zeros(k + 1)
                c[k] = math.sqrt(2 * k + 1)
                if alpha[i]:
                    c = L.legder(c, alpha[i]) * (2 / h) ** alpha[i]
                tab.append(L.legval(x, c) * np.ones_like(x))
            oned.append(np.array(tab))
        out = np.ones((self.n, len(pts)))
        for r, e in enumerate(self.exps):
            for i in range(self.sd):
                out[r] *= oned[i][e[i]]
        return out


def total_basis(cell, k):
    return Basis(cell, total_degree_exponents(cells.geo(cell).sd, k))


def box_basis(cell, k):
    return Basis(cell, box_degree_exponents(cells.geo(cell).sd, k))


def fit(basis, pts, vals):
    """Least-squares coefficients of vals (..., npts) in basis; returns (coeffs (..., n), max abs residual)."""
    A = basis.tab(pts).T
    v = np.asarray(vals, dtype=float)
    flat = v.reshape(-1, v.shape[-1]).T
    c, *_ = np.linalg.lstsq(A, flat, rcond=None)
    res = np.abs(A @ c - flat).max() if flat.size else 0.0
    return c.T.reshape(v.shape[:-1] + (basis.n,)), res


def fit_nodes(cell, basis, seed=0):
    """Well-conditioned sampling nodes for a basis on a cell."""
    return cells.sample_points(cell, 3 * basis.n + 10, seed)


class Poly:
    """A polynomial in the monomials of (x - x0)/h (x0, h chosen from the cell's bounding box), with exact derivatives."""

    def __init__(self, cell, terms):
        # terms: list of (coefficient, exponents)
        g = cells.geo(cell)
        self.sd = g.sd
        self.c = (g.verts.min(axis=0) + g.verts.max(axis=0)) / 2
        self.h = (g.verts.max(axis=0) - g.verts.min(axis=0)) / 2
        self.terms = [(float(c), tuple(e)) for c, e in terms]

    def __call__(self, x, alpha=None):
        x = np.asarray(x, dtype=float)
        alpha = alpha or (0,) * self.sd
        y = (x - self.c) / self.h
        s = 0.0
        for c, e in self.terms:
            t = c
            for i in range(self.sd):
                k, a = e[i], alpha[i]
                if a > k:
                    t = 0.0
                    break
                t *= math.perm(k, a) * y[..., i] ** (k - a) / self.h[i] ** a
            s = s + t
        return s + 0.0 * x[..., 0] if self.sd else s


def simplex_monomial_integral(vol, a):
    """Integral over a d-simplex of volume vol of prod lambda_i^a_i."""
    d = len(a) - 1
    num = math.factorial(d)
    for k in a:
        num *= math.factorial(k)
    return vol * num / math.factorial(d + sum(a))


def barycentric(name, pts):
    """Barycentric coordinates of points in a simplex: (npts, d+1)."""
    v = cells.geo(name).verts
    pts = np.asarray(pts, dtype=float).reshape(-1, v.shape[1])
    B = (v[1:] - v[0]).T
    lam = np.linalg.solve(B, (pts - v[0]).T).T if v.shape[1] else np.zeros((len(pts), 0))
    return np.concatenate([1 - lam.sum(axis=1, keepdims=True), lam], axis=1)


def gauss01(n):
    x, w = L.leggauss(n)
    return (x + 1) / 2, w / 2


def simplex_rule(verts, deg):
    """Independent quadrature on a simplex (embedded in any dimension) by collapsed Gauss-Legendre; weights sum to its measure."""
    verts = np.asarray(verts, dtype=float)
    d = len(verts) - 1
    if d == 0:
        return verts.reshape(1, -1), np.ones(1)
    n = (deg + d) // 2 + 1
    x, w = gauss01(n)
    pts, wts = [], []
    for idx in itertools.product(range(n), repeat=d):
        lam, rest, ww = [], 1.0, 1.0
        for j, i in enumerate(idx):
            lam.append(rest * x[i])
            ww *= w[i] * rest          # Jacobian of the collapse: product of the remainders
            rest *= 1 - x[i]
        pts.append([rest] + lam)
        wts.append(ww)
    B = verts[1:] - verts[0]
    meas = math.sqrt(np.linalg.det(B @ B.T))
    return np.array(pts) @ verts, np.array(wts) * meas


def cell_rule(name, deg):
    """Independent quadrature on a reference cell, exact to degree deg (per factor)."""
    g = cells.geo(name)
    if g.factors is None:
        return simplex_rule(g.verts, deg)
    rules = [cell_rule(f.name, deg) for f in g.factors]
    pts = [np.concatenate(p) for p in itertools.product(*[r[0] for r in rules])]
    wts = [math.prod(w) for w in itertools.product(*[r[1] for r in rules])]
    return np.array(pts), np.array(wts)
