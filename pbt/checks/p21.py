"""P21: pointwise duals reproduce every function of the element's space."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum, Violation
from fem import close, require

RULE = ("One stratum per element configuration. Each case draws a set of as many points as the space needs (greedily well-placed, random, or with single points moved anywhere, "
        "as lists, tuples or arrays), its order, a random function of the space and the numbers of missing or extra points. "
        "The functionals of the computed dual are applied by the harness: to the basis (identity), to the function (its coefficients), and, for elements with a polynomial set, "
        "an element rebuilt from the dual must have the original's tables. Sets on which the value matrix has condition number above 1e7 count "
        "as not unisolvent. Non-trivial: unisolvent sets of at least two points, or a wrong number that is rejected.")
ASSUMPTIONS = ["vector-valued spaces whose dimension is not a multiple of the number of components have no such point set; every number of points must be rejected there"]
COND = 1e7


class El:
    def __init__(self, cfg):
        self.cfg = cfg
        self.F = fem.FE(cfg, fit=False)
        self.e, self.g = self.F.element, self.F.geo
        self.n, self.vs = self.F.n, self.F.vs
        self.m = int(np.prod(self.vs)) if self.vs else 1
        self.npts = self.n // self.m
        self.possible = self.n % self.m == 0
        pool = cells.sample_points(self.F.cell, max(12, 5 * self.npts))
        extra = self.g.verts
        self.pool = np.concatenate([pool, extra])
        T = self.F.tab(self.pool).reshape(self.n, self.m, -1)
        self.poolT = T
        self.best = self.greedy(T) if self.possible else None
        self.riesz = {"point": None}

    def greedy(self, T):
        """Points chosen one by one with the largest remaining volume of their columns."""
        R = T.copy()
        chosen = []
        for _ in range(self.npts):
            vol = [np.prod(np.linalg.svd(R[:, :, j], compute_uv=False)) for j in range(R.shape[2])] if self.m > 1 else list((R[:, 0] ** 2).sum(axis=0))
            j = int(np.argmax(vol))
            if not vol[j] > 1e-20:
                return None
            chosen.append(j)
            q, _r = np.linalg.qr(R[:, :, j])
            R = R - np.tensordot(q, np.tensordot(q.T, R, (1, 0)), (1, 0))
        return chosen


_els = {}


def el(cfg):
    k = catalog.key(cfg)
    if k not in _els:
        _els.clear()
        _els[k] = El(cfg)
    return _els[k]


def container(pts, how):
    if how == 0:
        return [tuple(float(c) for c in p) for p in pts]
    if how == 1:
        return np.array(pts, dtype=float)
    if how == 2:
        return tuple(tuple(float(c) for c in p) for p in pts)
    return [[float(c) for c in p] for p in pts]


def check(cfg, case):
    from FIAT.pointwise_dual import compute_pointwise_dual
    E = el(cfg)
    N = max(1, E.npts)
    if case["base"] == 0 and E.best is not None:
        pts = E.pool[E.best].copy()
    else:
        rs = np.random.RandomState(case["seed"])
        pts = E.pool[rs.choice(len(E.pool), size=min(N, len(E.pool)), replace=False)].copy()
    for i, w in case["moves"]:
        pts[i % len(pts)] = cells.coords(E.F.cell, w)
    pts = pts[np.random.RandomState(case["seed"]).permutation(len(pts))]
    before = (E.e.entity_dofs(), E.e.space_dimension())
    k = case["wrong"]
    lab = set()
    if k or not E.possible:
        n = len(pts) + k
        if n < 0:
            return None
        bad = [tuple(p) for p in list(pts) * 3][:max(n, 0)]
        if k > 0:
            bad = [tuple(float(c) for c in p) for p in pts] + [tuple(float(c) for c in p) for p in cells.sample_points(E.F.cell, k, 7)]
        try:
            d = compute_pointwise_dual(E.e, container(bad, case["how"]))
        except Exception:
            return "wrong number rejected"
        raise Violation("%d points are accepted for a space of dimension %d with values of %d components: %s" % (len(bad), E.n, E.m, d))
    V = E.F.tab(pts).reshape(E.n, -1)
    cond = max(np.abs(V).max(), np.abs(E.poolT).max()) / max(1e-300, np.linalg.svd(V, compute_uv=False)[-1])
    if not cond < COND:
        return None
    d = compute_pointwise_dual(E.e, container(pts, case["how"]))
    nodes = d.get_nodes()
    require(len(nodes) == E.n, "%d functionals for %d basis functions", len(nodes), E.n)
    ids = d.get_entity_ids()
    want = E.e.entity_dofs()
    require({x: {i: list(v) for i, v in y.items()} for x, y in ids.items()} == {x: {i: list(v) for i, v in y.items()} for x, y in want.items()}, "entity numbering of the dual")
    index = {tuple(p): j for j, p in enumerate(pts)}
    A = np.zeros((E.n, E.m, len(pts)))
    for i, nd in enumerate(nodes):
        require(not nd.deriv_dict, "functional %d contains derivatives", i)
        require(tuple(nd.target_shape) == E.vs, "functional %d acts on values of shape %s", i, nd.target_shape)
        require(len(nd.get_point_dict()) > 0, "functional %d is empty", i)
        for p, terms in nd.get_point_dict().items():
            j = index.get(tuple(float(c) for c in p))
            require(j is not None, "functional %d evaluates at %s, which is not one of the points", i, p)
            for w, c in terms:
                require(len(c) == len(E.vs) and all(0 <= a < b for a, b in zip(c, E.vs)), "functional %d uses component %s", i, c)
                A[i, int(np.ravel_multi_index(c, E.vs)) if E.vs else 0, j] += w
    A = A.reshape(E.n, -1)
    tol = 1e-11 * cond + 1e-10
    close(A @ V.T, np.eye(E.n), 1.0, tol, "functionals applied to the basis")
    c = np.zeros(E.n)
    for i, v in case["f"]:
        c[i % E.n] += v
    if np.any(c):
        close(A @ (V.T @ c), c, np.abs(c).max(), tol * E.n, "a function recovered from its values")
    if case["rebuild"] and E.n <= 60 and rebuildable(E):
        from FIAT.finite_element import CiarletElement
        P = E.e.get_nodal_basis()
        try:
            new = CiarletElement(P, d, E.e.get_order())
        except np.linalg.LinAlgError:
            raise Violation("an element cannot be rebuilt from the dual (condition number %.1e)" % cond)
        x = fem.as_points([cells.coords(E.F.cell, w) for w in case["x"]])
        a, b = E.e.tabulate(1, x), new.tabulate(1, x)
        require(set(a) == set(b), "tables %s", sorted(b))
        for al in a:
            close(b[al], a[al], max(1.0, np.abs(a[al]).max()), tol * 100 * E.n, "derivative %s of the rebuilt element" % (al,))
        lab.add("rebuilt")
    require(E.e.space_dimension() == before[1] and E.e.entity_dofs() == before[0], "the element changed")
    if len(pts) < 2:
        return None
    lab |= {"dual", "values of rank %d" % len(E.vs)} | ({"points moved"} if case["moves"] else set())
    return lab


def rebuildable(E):
    from FIAT.finite_element import CiarletElement
    return isinstance(E.e, CiarletElement) and E.cfg[0] not in ("Restr", "RestrIdx", "Broken")


def strategy(cfg):
    cell = catalog.cell_of(cfg)
    return st.fixed_dictionaries({
        "base": st.sampled_from([0, 0, 0, 1]), "seed": st.integers(0, 10 ** 6), "how": st.integers(0, 3),
        "moves": st.lists(st.tuples(st.integers(0, 200), cells.point_strategy(cell)), max_size=2),
        "wrong": st.sampled_from([0, 0, 0, 0, 0, 0, -1, 1, 2]), "rebuild": st.booleans(), "x": cells.points_strategy(cell, 1, 3),
        "f": st.lists(st.tuples(st.integers(0, 400), st.integers(-9, 9)), min_size=1, max_size=6)})


def configs(tier):
    q = tier == "quick"
    out = catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier)
    out = [c for c in out if not fem.contains(c, ("HDivTrace", "Quadrature", "AW", "AWnc", "Regge", "HHJ"))]
    if q:
        small = {"I": 1, "dI": 1, "T": 2, "dT": 2, "iT": 2}
        out = [c for c in out if c[0] not in catalog.SIMPLE or fem.space_dim(c) is None or fem.space_dim(c) <= 40]
    return out


def strata(tier):
    return [Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(12, 100), cost=fem.cost(c)) for c in configs(tier)]
