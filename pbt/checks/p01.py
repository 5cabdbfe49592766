"""P01: duality of published degrees of freedom and tabulated basis functions."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum, Violation
from fem import close, require

RULE = ("One stratum per element configuration (family x reference cell x degree x variant, products and composites of them). Each case draws "
        "a function of the element's advertised space (sparse integer combination of independently described spanning functions) and "
        "evaluation points (interior, boundary, vertex, exterior); the published degrees of freedom are applied to the function (by "
        "independent evaluation of its values and derivatives) and the interpolant is compared with it. The full duality matrix is checked "
        "per configuration. Non-trivial: at least one defined degree of freedom of the function is non-zero.")
ASSUMPTIONS = ["degrees of freedom published with the type tag 'Undefined' (products whose factors admit no common formula) are not judged here",
               "mixed elements document that their functionals are those of the parts; they are not judged"]


def active(node):
    """The node's published terms with non-zero weight, as [(point, alpha, component, weight)]."""
    out = []
    for pt, wcs in node.get_point_dict().items():
        out += [(tuple(pt), None, tuple(c), float(w)) for w, c in wcs if w != 0]
    for pt, wacs in node.deriv_dict.items():
        out += [(tuple(pt), tuple(a), tuple(c), float(w)) for w, a, c in wacs if w != 0]
    return out


def node_matrix(F, terms, evaluate):
    """Apply nodes (lists of terms) to functions; evaluate(points, alpha) -> (m, *vs, npts)."""
    by_alpha = {}
    for i, ts in enumerate(terms):
        for pt, a, c, w in ts or ():
            by_alpha.setdefault(a or F.zero, {}).setdefault(pt, []).append((i, c, w))
    out = None
    for a, pts in by_alpha.items():
        keys = list(pts)
        for p in keys:
            require(len(p) == F.sd, "degree of freedom at point %s of dimension %d on a cell of dimension %d", p, len(p), F.sd)
        T = evaluate(keys, a)
        if out is None:
            out = np.zeros((len(terms), T.shape[0]))
        for q, p in enumerate(keys):
            for i, c, w in pts[p]:
                if len(c) != len(F.vs):
                    raise Violation("degree of freedom %d has component %s for value shape %s" % (i, c, F.vs))
                out[i] += w * T[(slice(None),) + c + (q,)]
    return out


class Dual:
    def __init__(self, cfg):
        self.F = F = fem.fe(cfg)
        e = F.element
        require(e.is_nodal() is True, "is_nodal() is %r for a nodal element", e.is_nodal())
        nodes = list(e.dual_basis())
        require(list(e.get_dual_set().get_nodes()) == nodes, "get_dual_set().get_nodes() differs from dual_basis()")
        require(len(nodes) == e.space_dimension() == F.coef.shape[0], "%d degrees of freedom, space dimension %d, %d basis functions",
                len(nodes), e.space_dimension(), F.coef.shape[0])
        undefined_ok = fem.contains(cfg, ("TPE",))
        self.terms = []
        for i, n in enumerate(nodes):
            if n is None or n.get_type_tag() == "Undefined":
                require(undefined_ok, "degree of freedom %d is undefined", i)
                self.terms.append(None)
            else:
                self.terms.append(active(n))
        self.defined = [i for i, t in enumerate(self.terms) if t is not None]
        orders = max([sum(t[1]) for ts in self.terms for t in ts or () if t[1]] + [0])
        self.D = None
        if self.defined:
            M = node_matrix(F, self.terms, lambda pts, a: F.tab(pts, a))
            d = self.defined
            wsum = np.array([sum(abs(t[3]) for t in self.terms[i]) for i in d])
            s = max(1.0, np.abs(F.coef).max()) * np.maximum(wsum, 1.0).max() * 10 ** orders
            close(M[d], np.eye(F.n)[d], min(s, 100), 1e-7 if orders else 2e-8, "dof i applied to basis function j, (i, j)")


_duals = {}


def dual(cfg):
    k = catalog.key(cfg)
    if k not in _duals:
        _duals.clear()
        _duals[k] = Dual(cfg)
    return _duals[k]


def check(cfg, case):
    D = dual(cfg)
    F = D.F
    if not D.defined:
        return None
    c = F.field(case["f"])
    if not np.any(c):
        return None
    pts = cells.points(F.cell, case["p"])
    lab = lambda p, a: (c @ F.basis.tab(p, a))[None]
    vals = node_matrix(F, D.terms, lab)[:, 0]
    wmax = max([sum(abs(t[3]) for t in ts) for ts in D.terms if ts] + [1.0])
    if len(D.defined) == F.n:
        tab = F.tab(pts)
        got = np.tensordot(vals, tab, (0, 0))
        want = c @ F.basis.tab(pts)
        s = max(1.0, np.abs(want).max(), (np.abs(vals).max() if vals.size else 0) * max(1.0, np.abs(tab).max()))
        close(got, want, s * max(1.0, np.sqrt(F.n)), 1e-7, "interpolant of a function of the space at points")
    else:
        # expand the function in the tabulated basis: its coefficients are the values of the defined dofs
        A = F.coef.reshape(F.n, -1).T
        x, *_ = np.linalg.lstsq(A, c.reshape(-1), rcond=None)
        close(vals[D.defined], x[D.defined], max(1.0, np.abs(x).max(), wmax), 1e-6, "value of degrees of freedom at a function of the space")
    lab = {"all dofs defined" if len(D.defined) == F.n else "some dofs undefined"}
    if any(t[1] for ts in D.terms for t in ts or ()):
        lab.add("derivative dofs")
    return lab | cells.point_classes(case["p"]) if np.abs(vals[D.defined]).max() > 1e-9 else None


def strategy(cfg):
    return st.fixed_dictionaries({
        "f": st.lists(st.tuples(st.integers(0, 400), st.integers(-9, 9).filter(bool)), min_size=1, max_size=6),
        "p": cells.points_strategy(catalog.cell_of(cfg), 1, 5, catalog.extrapolates(cfg))})


def configs(tier):
    out = [c for c in catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier) if fem.nodal(c)]
    out += [["Quadrature", c, k] for c in ("I", "T", "K") for k in (2, 5)]
    return [c for c in out if not fem.dependent(c)]


def strata(tier):
    out = []
    for c in configs(tier):
        if c[0] == "Quadrature":
            continue
        out.append(Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(12, 60), cost=fem.cost(c)))
    return out
