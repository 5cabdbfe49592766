"""P10: orthogonality, hierarchy and derivatives of the expansion functions and orthonormal polynomial sets."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import cells
import fem
import polys
from core import Stratum, is_known
from fem import close, require

RULE = ("One stratum per reference simplex and degree for the expansion functions and per cell, degree and value shape for orthonormal (vector, tensor, symmetric tensor) sets. "
        "Each case draws points (interior, boundary, vertices, exterior, integer coordinates as ints), a lower degree and a derivative order; Gram matrices come from independent "
        "quadrature, derivatives from the harness's polynomial fit of the tabulated values. Non-trivial: degree at least 1.")
BIUNIT = {1: "dI", 2: "dT", 3: "dK"}


class Exp:
    def __init__(self, cell, k):
        from FIAT import expansions
        self.cell, self.k, self.g = cell, k, cells.geo(cell)
        self.mod = expansions
        self.ref = self.g.make()
        self.set = expansions.get_expansion_set(self.ref)
        self.sd = self.g.sd
        self.N = math.comb(k + self.sd, self.sd)
        require(self.set.get_num_members(k) == self.N, "%d members for degree %d", self.set.get_num_members(k), k)
        require(expansions.polynomial_dimension(self.ref, k) == self.N, "polynomial_dimension is %s", expansions.polynomial_dimension(self.ref, k))
        self.basis = polys.total_basis(cell, k)
        nodes = polys.fit_nodes(cell, self.basis)
        t = np.asarray(self.set.tabulate(k, fem.as_points(nodes)), dtype=float)
        require(t.shape == (self.N, len(nodes)), "table of shape %s", t.shape)
        self.coef, res = polys.fit(self.basis, nodes, t)
        self.scale = max(1.0, np.abs(t).max())
        require(res <= 1e-8 * self.scale, "expansion functions of degree %d are not polynomials of that degree: residual %.2e", k, res)
        x, w = polys.cell_rule(cell, 2 * k)
        v = np.asarray(self.set.tabulate(k, fem.as_points(x)), dtype=float)
        M = (v * w) @ v.T
        ratio = self.g.volume / cells.geo(BIUNIT[self.sd]).volume
        # known finding: on triangles and tetrahedra the constant of the degree-0 set is 1 instead of the normalised constant
        self.unnormalised = k == 0 and self.sd > 1 and np.abs(t - 1).max() <= 1e-12 and is_known("P10", "degree-0-constant")
        close(M / M[0, 0], np.eye(self.N), 1.0, 1e-9, "Gram matrix relative to its first entry")
        if self.unnormalised:
            return
        if cell == BIUNIT[self.sd]:
            close(M[0, 0], 1.0, 1.0, 1e-10, "squared norm on the biunit cell")
        else:       # the same functions in mapped coordinates
            close(M[0, 0], ratio, ratio, 1e-10, "squared norm on a cell of relative volume %s" % ratio)


_cache = {}


def exp(cell, k):
    if (cell, k) not in _cache:
        _cache[cell, k] = Exp(cell, k)
    return _cache[cell, k]


def as_given(pts, how):
    return {0: [tuple(p) for p in pts], 1: [list(p) for p in pts], 2: np.array(pts)}[how]


def case_points(E, case):
    """Generated points; with 'ints', points of the integer lattice around the cell given as Python ints."""
    if case["ints"]:
        return [tuple(int(c) for c in p[:E.sd]) for p in case["ip"]]
    return cells.points(E.cell, case["p"])


def derivs(E, x, order):
    """{r: array (N, npts, sd, ..., sd)} of all derivatives of order r."""
    out = {}
    for r in range(order + 1):
        a = np.zeros((E.N, len(x)) + (E.sd,) * r)
        for idx in itertools.product(range(E.sd), repeat=r):
            alpha = tuple(idx.count(i) for i in range(E.sd))
            a[(slice(None), slice(None)) + idx] = E.coef @ E.basis.tab(x, alpha)
        out[r] = a
    return out


def check_exp(cell, k, case, deriv=True):
    E = exp(cell, k)
    x = case_points(E, case)
    D = derivs(E, x, case["r"])
    pts = as_given(x, case["how"])
    t = np.asarray(E.set.tabulate(k, pts), dtype=float)
    s = max(E.scale, np.abs(D[0]).max())
    close(t, D[0], s, 1e-8, "expansion functions at points")
    low = case["low"] % (k + 1)
    tl = np.asarray(E.set.tabulate(low, pts), dtype=float)
    if low == 0 and k > 0 and E.sd > 1 and np.abs(tl - 1).max() <= 1e-12 and is_known("P10", "degree-0-constant"):
        tl = t[:1]
    close(tl, t[:math.comb(low + E.sd, E.sd)], s, 1e-12, "functions of degree %d and the first of degree %d" % (low, k))
    if not deriv:
        return {"values only"} | cells.point_classes(case["p"])
    d = E.set.tabulate_derivatives(k, pts)
    require(len(d) == E.N and all(len(row) == len(x) for row in d), "tabulate_derivatives has %d rows", len(d))
    D1 = derivs(E, x, 1)
    grad = np.array([[np.asarray(v[1], dtype=float).reshape(E.sd) for v in row] for row in d])
    close(np.array([[float(v[0]) for v in row] for row in d]), D1[0], s, 1e-8, "values of tabulate_derivatives")
    close(grad, D1[1], max(s, np.abs(D1[1]).max()), 1e-8, "gradients")
    if E.sd > 1:
        jet = E.set.tabulate_jet(k, pts, case["r"])
        require(len(jet) >= case["r"] + 1, "jet of length %d", len(jet))
        for r in range(case["r"] + 1):
            close(jet[r], D[r], max(s, np.abs(D[r]).max()), 1e-7, "derivatives of order %d" % r)
    return ({"integer points"} if case["ints"] else cells.point_classes(case["p"])) | {"order %d" % case["r"]} if k else None


def check_set(cell, k, shape, sym, case):
    from FIAT import polynomial_set as PS
    E = exp(cell, k)
    d = E.sd
    if sym:
        n = shape[0]
        P = PS.ONSymTensorPolynomialSet(E.ref, k, n) if n != d or case["how"] else PS.ONSymTensorPolynomialSet(E.ref, k)
        comps = [(i, j) for i in range(n) for j in range(i, n)]
        places = [[(i, j), (j, i)] for i, j in comps]
    else:
        P = PS.ONPolynomialSet(E.ref, k, shape) if shape else PS.ONPolynomialSet(E.ref, k)
        places = [[c] for c in itertools.product(*[range(m) for m in shape])]
    require(P.get_num_members() == E.N * len(places), "%d members, expected %d", P.get_num_members(), E.N * len(places))
    require(tuple(P.get_shape()) == tuple(shape), "shape %s", P.get_shape())
    require(P.get_degree() == k and P.get_embedded_degree() == k, "degree %s, embedded degree %s", P.get_degree(), P.get_embedded_degree())
    require(P.get_coeffs().shape == (P.get_num_members(),) + tuple(shape) + (E.N,), "coefficients of shape %s", P.get_coeffs().shape)
    require(P.get_reference_element() == E.ref, "reference element %s", P.get_reference_element())
    x = case_points(E, case)
    order = case["r"]
    tab = P.tabulate(as_given(x, case["how"]), order)
    require(set(tab) == set(fem.multi(d, order)), "tables %s", sorted(tab))
    for a in tab:
        base = E.coef @ E.basis.tab(x, a)
        want = np.zeros((len(places), E.N) + tuple(shape) + (len(x),))
        for m, ps in enumerate(places):
            for c in ps:
                want[(m, slice(None)) + c] = base
        s = max(E.scale, np.abs(want).max()) * (1 if sum(a) < 2 else (1 + k) ** (2 * (sum(a) - 1)))
        close(tab[a], want.reshape((-1,) + tuple(shape) + (len(x),)), s, 1e-8, "members' derivatives %s" % (a,))
    close(P.tabulate_new(as_given(x, case["how"])), tab[(0,) * d], E.scale, 1e-12, "tabulate_new")
    return {"order %d" % order} | ({"integer points"} if case["ints"] else cells.point_classes(case["p"])) if k else None


def check_point(case):
    from FIAT import expansions, polynomial_set as PS
    ref = cells.geo("P").make()
    E = expansions.get_expansion_set(ref)
    n = case["n"]
    close(np.asarray(E.tabulate(0, [()] * n), dtype=float), np.ones((1, n)), 1.0, 0, "the point expansion")
    require(E.get_num_members(0) == 1 and expansions.polynomial_dimension(ref, 0) == 1, "dimension on a point")
    close(PS.ONPolynomialSet(ref, 0).tabulate([()])[()], np.ones((1, 1)), 1.0, 0, "orthonormal set on a point")
    return None


def strategy(cell, rmax):
    return st.fixed_dictionaries({
        "p": cells.points_strategy(cell, 1, 6), "ip": st.lists(st.tuples(*[st.integers(-1, 1)] * 3), min_size=1, max_size=4),
        "ints": st.sampled_from([False, False, False, True]), "how": st.integers(0, 2), "r": st.integers(0, rmax), "low": st.integers(0, 30)})


def strata(tier):
    q = tier == "quick"
    out = [Stratum("point", lambda: st.fixed_dictionaries({"n": st.integers(1, 4)}), check_point, n=(4, 10))]
    cap = {1: 20 if q else 30, 2: 10 if q else 14, 3: 7 if q else 9}
    dcap = {1: 40, 2: 6 if q else 9, 3: 4 if q else 6}     # derivatives go through symbolic evaluation, which is slow
    for c in ("I", "dI", "T", "dT", "iT", "K", "dK", "iK"):
        d = cells.geo(c).sd
        for k in range(cap[d] + 1):
            rmax = (3 if k <= 4 else 2 if k <= 6 else 1) if d == 2 else (2 if k <= 3 else 1)
            if d == 1:
                rmax = 3
            cost = {1: 0.1, 2: 0.3, 3: 1.0}[d] * (1 + k) ** d / 10
            n = (25, 120) if d == 1 else (10, 50) if k < 5 - d // 3 else (3, 10)
            out.append(Stratum("expansion %s %d" % (c, k), lambda c=c, r=rmax: strategy(c, r), lambda case, c=c, k=k, v=k <= dcap[d]: check_exp(c, k, case, v), n=n, cost=cost))
        top = {1: 6 if q else 10, 2: 4 if q else 7, 3: 3 if q else 5}[d]
        for k in range(top + 1):
            shapes = [((), False), ((d,), False), ((3,), False), ((d, d), False), ((2, 3), False), ((d, d), True), ((3, 3), True), ((2, 2, 2), False)]
            for shape, sym in {str(s): s for s in shapes}.values():
                out.append(Stratum("%s set %s %d %s" % ("symmetric" if sym else "orthonormal", c, k, shape), lambda c=c: strategy(c, 3),
                                   lambda case, c=c, k=k, s=shape, y=sym: check_set(c, k, s, y, case), n=(8, 40), cost={1: .1, 2: .3, 3: 1}[d] * (1 + k) ** d / 10))
    return out
