"""P03: derivative tables are the partial derivatives of the basis."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import close, require

RULE = ("One stratum per element configuration. Each case draws a maximal derivative order (0 to beyond the polynomial degree) and points "
        "(interior, boundary, vertex, exterior); the set of multi-indices, every table against the independently differentiated "
        "polynomials, and equality of the lower-order tables with those of a smaller request are checked. "
        "Non-trivial: order at least 1, or a boundary, vertex or exterior point.")
ASSUMPTIONS = ["the basis functions are polynomials: their coefficients are fitted from order-zero tables at other points of the cell"]


def check(cfg, case):
    F = fem.fe(cfg)
    pts = cells.points(F.cell, case["p"])
    n = case["n"]
    tabs = F.element.tabulate(n, pts)
    want_keys = set(fem.multi(F.sd, n))
    require(set(tabs) == want_keys, "order %d: tables for %s", n, sorted(tabs))
    wants = {a: F.vals(pts, a) for a in want_keys}
    mag = np.abs(F.coef)
    scale = max([1.0] + [(mag @ np.abs(F.basis.tab(pts, a))).max() for a in want_keys])
    for a in sorted(want_keys):
        close(tabs[a], wants[a], scale, 1e-7, "derivative %s of order-%d tabulation" % (a, n))
    m = case["m"]
    if m < n:
        lower = F.element.tabulate(m, pts)
        require(set(lower) == set(fem.multi(F.sd, m)), "order %d: tables for %s", m, sorted(lower))
        for a in lower:
            close(lower[a], tabs[a], scale, 1e-11, "derivative %s requested with order %d and with order %d" % (a, m, n))
    labels = cells.point_classes(case["p"])
    if n == 0 and labels == {"interior"}:
        return None
    deg = max([sum(e) for e in F.basis.exps] + [0])
    return labels | {"order %d" % n} | ({"beyond degree"} if n > deg else set())


def max_order(cfg, tier):
    d = cells.geo(catalog.cell_of(cfg)).sd
    k = max([sum(e) for e in fem.exps(cfg)] + [0])
    return min(k + 2, {1: 6, 2: 4, 3: 3}[min(d, 3)] + (0 if tier == "quick" else 2))


def strategy(cfg, tier):
    k = max_order(cfg, tier)
    return st.fixed_dictionaries({"n": st.integers(0, k).map(lambda x: k - x), "m": st.integers(0, 2),
                                  "p": cells.points_strategy(catalog.cell_of(cfg), 1, 4, catalog.extrapolates(cfg))})


def strata(tier):
    return [Stratum(catalog.label(c), lambda c=c: strategy(c, tier), lambda case, c=c: check(c, case), n=(7, 40), cost=fem.cost(c))
            for c in catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier)]
