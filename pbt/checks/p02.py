"""P02: the tabulated basis spans the advertised space exactly; dimension, value shape and degree agree."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
import polys
from core import Stratum, Violation
from fem import close, require

RULE = ("One stratum per element configuration. Each case draws points (interior, boundary, vertex, exterior), a function f of the "
        "independently described space and a combination g of the element's basis: f must be a combination of the tabulated basis at "
        "all sampled points, g a combination of the spanning functions, and the table at the points must be the values of the polynomials "
        "fitted elsewhere. Independence, dimension, value shape and degree are checked per configuration. Non-trivial: f and g non-zero.")
ASSUMPTIONS = ["restrictions are only judged for independence, shape and degree here (their span is decided by P14)",
               "superlinear serendipity degree counts the degree of each variable separately"]


def leaves(name, pos=0):
    """Coordinate ranges of the simplicial factors of a cell."""
    g = cells.geo(name)
    if g.factors is None:
        return [list(range(pos, pos + g.sd))]
    out = []
    for f in g.factors:
        out += leaves(f.name, pos)
        pos += f.sd
    return out


def spread(name, d):
    """Reported degree as one number per simplicial factor: a single number bounds the degree in every direction."""
    g = cells.geo(name)
    if g.factors is None:
        require(not isinstance(d, (tuple, list)), "degree %s on a simplex", d)
        return [d]
    if not isinstance(d, (tuple, list)):
        return [d] * len(leaves(name))
    if len(d) == len(g.factors):
        return [x for f, y in zip(g.factors, d) for x in spread(f.name, y)]
    require(len(d) == len(leaves(name)), "degree %s on a cell with %d directions", d, len(leaves(name)))
    return list(d)


class Space:
    def __init__(self, cfg):
        self.cfg = cfg
        self.F = F = fem.fe(cfg)
        e = F.element
        vs = tuple(fem.value_shape(cfg))
        require(tuple(e.value_shape()) == vs, "value shape %s, expected %s", e.value_shape(), vs)
        dim = fem.space_dim(cfg)
        if dim is not None:
            require(e.space_dimension() == dim, "space dimension %s, expected %s", e.space_dimension(), dim)
        require(F.coef.shape == (F.n,) + vs + (F.basis.n,), "tabulated array for %d basis functions of shape %s", F.coef.shape[0], F.coef.shape[1:-1])
        C = F.coef.reshape(F.n, -1)
        self.C = C
        norms = np.linalg.norm(C, axis=1)
        require((norms > 1e-9).all(), "basis function %d vanishes", int(norms.argmin()))
        sv = np.linalg.svd(C / norms[:, None], compute_uv=False)
        require(sv[-1] > 1e-9, "basis functions are linearly dependent (smallest singular value %.2e)", sv[-1])
        nodes = polys.fit_nodes(F.cell, F.basis, 1)
        try:
            S = fem.span(cfg, nodes)
        except KeyError:
            self.S = None
        else:
            self.S, res = polys.fit(F.basis, nodes, S)
            assert res <= 1e-8 * max(1, np.abs(S).max())
            self.S = self.S.reshape(len(S), -1)
            self.S = self.S / np.maximum(np.linalg.norm(self.S, axis=1), 1e-30)[:, None]
            u, s, vt = np.linalg.svd(self.S, full_matrices=False)
            r = int((s > 1e-9 * s[0]).sum())
            self.Q = vt[:r]
            require(r == F.n, "the element has %d basis functions, its space has dimension %d", F.n, r)
            extra = C - (C @ self.Q.T) @ self.Q
            close(extra, 0 * extra, 1.0, 1e-8 * max(1.0, np.abs(C).max()), "part of a basis function outside the space")
        self.check_degree()

    def check_degree(self):
        e, F = self.F.element, self.F
        if not hasattr(e, "degree"):
            require(self.cfg[0] == "Mixed", "no degree reported")
            return
        for g, d in zip(leaves(F.cell), spread(F.cell, e.degree())):
            a = self.degree_in(g)
            require(d >= a, "degree %s reported, basis functions have degree %d in coordinates %s", e.degree(), a, g)

    def degree_in(self, g):
        F = self.F
        big = np.abs(F.coef).max(axis=tuple(range(F.coef.ndim - 1))) > 1e-7 * max(1.0, np.abs(F.coef).max())
        return max([sum(a[i] for i in g) for a, b in zip(F.basis.exps, big) if b] + [0])


_spaces = {}


def space(cfg):
    k = catalog.key(cfg)
    if k not in _spaces:
        _spaces.clear()
        _spaces[k] = Space(cfg)
    return _spaces[k]


def check(cfg, case):
    S = space(cfg)
    F = S.F
    pts = cells.points(F.cell, case["p"])
    tab = F.tab(pts)
    require(tab.shape == (F.n,) + F.vs + (len(pts),), "table of shape %s for %d basis functions of shape %s at %d points",
            tab.shape, F.n, F.vs, len(pts))
    want = F.vals(pts)
    close(tab, want, max(1.0, np.abs(want).max(), F.scale), 1e-7, "table at the points against the fitted polynomials")
    g = sum(c * S.C[i % F.n] for i, c in case["g"])
    if S.S is None:
        return {"restriction"} | cells.point_classes(case["p"])
    f = sum(c * S.S[i % len(S.S)] for i, c in case["f"])
    x, *_ = np.linalg.lstsq(S.C.T, f, rcond=1e-13)
    gx, *_ = np.linalg.lstsq(S.S.T, g, rcond=1e-11)
    B = F.basis.tab(pts)
    fv = f.reshape(F.vs + (-1,)) @ B
    gv = (gx @ S.S).reshape(F.vs + (-1,)) @ B
    close(np.tensordot(x, tab, (0, 0)), fv, max(1.0, np.abs(fv).max(), np.abs(x).max() * np.abs(tab).max()), 1e-7, "function of the space from the basis")
    gt = np.tensordot(sum(c * np.eye(F.n)[i % F.n] for i, c in case["g"]), tab, (0, 0))
    close(gt, gv, max(1.0, np.abs(gv).max(), np.abs(tab).max()), 1e-7, "combination of basis functions from the space")
    if np.abs(f).max() < 1e-12 or np.abs(g).max() < 1e-12:
        return None
    return cells.point_classes(case["p"])


def strategy(cfg):
    combo = st.lists(st.tuples(st.integers(0, 400), st.integers(-9, 9).filter(bool)), min_size=1, max_size=5)
    return st.fixed_dictionaries({"f": combo, "g": combo, "p": cells.points_strategy(catalog.cell_of(cfg), 1, 5, catalog.extrapolates(cfg))})


def strata(tier):
    return [Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(8, 50), cost=fem.cost(c))
            for c in configs(tier)]


def configs(tier):
    return [c for c in catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier) if not fem.dependent(c) and c[0] != "Mixed"] + \
        [c for c in catalog.composites(tier) if c[0] == "Mixed"]
