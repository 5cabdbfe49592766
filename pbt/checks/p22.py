"""P22: scalar bases equal their classical closed forms on every reference geometry."""
import itertools
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
import polys
from core import Stratum
from fem import close, require

RULE = ("One stratum per element configuration and kind of closed form. Each case draws points (interior, boundary, outside, published nodes, and nodes moved by offsets from "
        "one unit in the last place to 1e-3), an entity (through whose coordinates the points are given) and a derivative order; every table is compared with the closed form: "
        "products of barycentric coordinates (Bernstein), exact rational interpolation polynomials (one-dimensional families), "
        "interpolation polynomials of the full space through the published nodes (other Lagrange-type families), biorthogonality to the cell integral and the derivatives at the "
        "barycentre (Taylor), the identity (quadrature elements), and the table of the same element on another geometry mapped by the affine map. "
        "Non-trivial: every case with a non-zero closed form.")
ASSUMPTIONS = ["one-dimensional interpolation polynomials are built from the nodes the element publishes; their positions are checked by P17",
               "affine equivalence is stated for elements with point-value nodes and Bernstein elements: integrals and derivatives do not transform like that"]


# ---------------------------------------------------------------- points

OFFSETS = [0.0, 1e-16, 1e-15, 3e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 5e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]


def near_strategy(sd):
    return st.tuples(st.integers(0, 400), st.sampled_from(range(len(OFFSETS))), st.lists(st.integers(-3, 3), min_size=sd, max_size=sd))


def cell_points(cell, case, nodes):
    """Coordinates of all points of a case on the cell."""
    pts = cells.points(cell, case["p"])
    for i, o, v in case["near"]:
        x = nodes[i % len(nodes)]
        pts.append(tuple(float(a) + OFFSETS[o] * b for a, b in zip(x, v)))
    return pts


def case_strategy(cell, orders, outside=True):
    g = cells.geo(cell)
    return st.fixed_dictionaries({"p": cells.points_strategy(cell, 1, 3, outside=outside), "near": st.lists(near_strategy(g.sd), max_size=3), "n": st.integers(0, orders),
                                  "entity": st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.integers(0, 30), st.lists(st.lists(st.integers(1, 9), min_size=4, max_size=4), min_size=1, max_size=2)))})


def request(F, case, nodes):
    """(tables, points in cell coordinates)."""
    g = F.geo
    n = case["n"]
    if case["entity"]:
        ents = g.entities()
        d, i = ents[case["entity"][0] % len(ents)]
        sub = g.sub_name(d)
        ws = [[w[:len(cells.SIMPLEX[f][1])] for f in cells.factor_names(sub)] for w in case["entity"][1]]
        xs = cells.points(sub, ws)
        return F.element.tabulate(n, xs, (d, i)), [g.map_entity(d, i, x) for x in xs]
    pts = cell_points(F.cell, case, nodes)
    return F.element.tabulate(n, pts), pts


def alphas(sd, n):
    return [a for k in range(n + 1) for a in polys.multi_indices(sd, k)]


def compare(F, case, nodes, exact, tol, what):
    """exact(points, alpha) -> (n, npts)."""
    T, pts = request(F, case, nodes)
    want = alphas(F.sd, case["n"])
    require(set(T) == set(want), "tables %s", sorted(T))
    lab = set()
    for al in want:
        X = exact(np.array(pts, dtype=float).reshape(len(pts), F.sd), al)
        scale = max(1.0, scale_of(F, exact, al), np.abs(X).max())
        close(T[al], X, scale, tol, "%s, derivative %s at %s" % (what, al, [list(map(float, p)) for p in pts]))
        if np.any(X):
            lab.add("order %d" % sum(al))
    return lab and (lab | ({"near a node"} if case["near"] and not case["entity"] else set()) | ({"entity"} if case["entity"] else set()))


_scales = {}


def scale_of(F, exact, al):
    k = (catalog.key(F.cfg), al)
    if k not in _scales:
        _scales[k] = float(np.abs(exact(F.geo.verts if F.sd > 1 else np.linspace(F.geo.verts[0, 0], F.geo.verts[1, 0], 7)[:, None], al)).max())
    return _scales[k]


# ---------------------------------------------------------------- Bernstein

class Bernstein:
    def __init__(self, cfg):
        self.F = F = fem.FE(cfg, fit=False)
        g, k = F.geo, cfg[2]
        self.g, self.k, self.sd = g, k, F.sd
        v = g.verts
        self.grad = np.linalg.inv(np.hstack([v, np.ones((len(v), 1))]))[:self.sd].T     # gradients of the barycentric coordinates
        # one function per exponent; those of an entity have support exactly on its vertices
        x = cells.sample_points(F.cell, 25)
        self.lattice = [np.array(a, dtype=float) @ v / k for a in itertools.product(range(k + 1), repeat=len(v)) if sum(a) == k]
        T = F.tab(x)
        self.order = [None] * F.n
        ids = F.element.entity_dofs()
        for d in g.topo:
            for e, vs in enumerate(g.topo[d]):
                exps = [a for a in itertools.product(range(k + 1), repeat=len(v)) if sum(a) == k and all((a[i] > 0) == (i in vs) for i in range(len(v)))]
                dofs = list(ids[d][e])
                require(len(dofs) == len(exps), "entity %s of %s carries %d functions instead of %d", (d, e), catalog.label(cfg), len(dofs), len(exps))
                B = np.array([self.value(a, x, (0,) * self.sd) for a in exps]).reshape(len(exps), len(x))
                for i in dofs:
                    err = np.abs(B - T[i]).max(axis=1)
                    j = int(np.argmin(err))
                    require(err[j] < 1e-10, "function %d of %s on entity %s is no Bernstein polynomial of the entity (deviation %.1e)", i, catalog.label(cfg), (d, e), err[j])
                    require(exps[j] not in self.order, "two functions with exponent %s", exps[j])
                    self.order[i] = exps[j]
        require(None not in self.order, "functions without entity")

    def value(self, a, x, al):
        """Derivative al of d!/prod(a!) prod(lambda^a) by the product rule on monomials of the barycentric coordinates."""
        lam = polys.barycentric(self.g.name, x)
        terms = {tuple(a): float(math.factorial(sum(a)) // math.prod(math.factorial(i) for i in a))}
        for dim, n in enumerate(al):
            for _ in range(n):
                new = {}
                for e, c in terms.items():
                    for i, p in enumerate(e):
                        if p and self.grad[i, dim]:
                            f = e[:i] + (p - 1,) + e[i + 1:]
                            new[f] = new.get(f, 0.0) + c * p * self.grad[i, dim]
                terms = new
        out = np.zeros(len(lam))
        for e, c in terms.items():
            out += c * np.prod([lam[:, i] ** p for i, p in enumerate(e)], axis=0)
        return out

    def exact(self, x, al):
        return np.array([self.value(a, x, al) for a in self.order])


_obj = {}


def cached(kind, cfg):
    k = catalog.key([kind.__name__, cfg])
    if k not in _obj:
        _obj.clear()
        _obj[k] = kind(cfg)
    return _obj[k]


def check_bernstein(cfg, case):
    B = cached(Bernstein, cfg)
    lab = compare(B.F, case, B.lattice, B.exact, 1e-11, catalog.label(cfg))
    inside = [p for p in case["p"] if all(a >= 0 for w in p for a in w)]
    pts = cell_points(B.F.cell, {**case, "near": []}, B.lattice)
    T = B.F.element.tabulate(0, pts)[(0,) * B.sd]
    lam = polys.barycentric(B.F.cell, pts)
    close(T.sum(axis=0), np.ones(len(pts)), max(1.0, np.abs(T).max()), 1e-11, "sum of the functions")
    for j in range(len(pts)):
        if lam[j].min() >= 0:
            require(T[:, j].min() >= -1e-14, "a Bernstein function is %r at %s", T[:, j].min(), pts[j])
    return lab


# ---------------------------------------------------------------- exact one-dimensional interpolation

def lagrange1d(xs, x, n):
    """(len(xs), n+1): exact values and derivatives at x of the interpolation polynomials through xs."""
    q = [Fraction(v) for v in xs]
    x = Fraction(x)
    out = np.zeros((len(q), n + 1))
    for j in range(len(q)):
        p = [Fraction(1)] + [Fraction(0)] * n
        den = Fraction(1)
        for m in range(len(q)):
            if m != j:
                a = x - q[m]
                den *= q[j] - q[m]
                p = [p[i] * a + (p[i - 1] if i else 0) for i in range(n + 1)]
        out[j] = [float(p[i] / den) * math.factorial(i) for i in range(n + 1)]
    return out


class Line:
    def __init__(self, cfg):
        self.F = F = fem.FE(cfg, fit=False)
        self.nodes = []
        for nd in F.element.dual_basis():
            (p, w), = nd.get_point_dict().items()
            require([(float(a), tuple(c)) for a, c in w] == [(1.0, ())] and not nd.deriv_dict, "%s: a degree of freedom is not a point value", catalog.label(cfg))
            self.nodes.append(tuple(map(float, p)))
        require(len(set(self.nodes)) == F.n, "%s: coinciding nodes", catalog.label(cfg))
        # a zero of the interpolation polynomials can be close to, but different from, a node: no cancellation in exact arithmetic
        self.xs = [p[0] for p in self.nodes]

    def exact(self, x, al):
        return np.array([lagrange1d(self.xs, float(p[0]), al[0])[:, al[0]] for p in x]).T


def check_line(cfg, case):
    L = cached(Line, cfg)
    k = L.F.n - 1
    tol = 1e-10 if k <= 10 else 1e-10 * 8 ** ((k - 10) / 2.0)
    lab = compare(L.F, case, L.nodes, L.exact, tol, catalog.label(cfg))
    T = L.F.element.tabulate(0, L.nodes)[(0,)]
    close(T, np.eye(L.F.n), 1.0, tol, "values at the nodes")
    pts = cell_points(L.F.cell, case, L.nodes)
    t = L.F.element.tabulate(1, pts)
    close(t[(0,)].sum(axis=0), np.ones(len(pts)), max(1.0, np.abs(t[(0,)]).max()), tol, "sum of the functions")
    close(t[(1,)].sum(axis=0), np.zeros(len(pts)), max(1.0, np.abs(t[(1,)]).max()), tol, "sum of the derivatives")
    return lab


# ---------------------------------------------------------------- other Lagrange-type families

# space whose interpolation polynomials the functions are, and the nodes
def full_space(cfg):
    fam, cell = cfg[0], cfg[1]
    if fam in ("Lagrange", "DG", "CR", "DPC"):
        return polys.total_basis(cell, fem.FIXED.get(fam) or cfg[2])
    return None


class Interp:
    """Functions determined by values at the published points (and zero at the remaining points of the Lagrange lattice, for bubbles)."""

    def __init__(self, cfg):
        self.F = F = fem.FE(cfg, fit=False)
        fam, cell = cfg[0], cfg[1]
        self.nodes = []
        for nd in F.element.dual_basis():
            (p, w), = nd.get_point_dict().items()
            require([(float(a), tuple(c)) for a, c in w] == [(1.0, ())] and not nd.deriv_dict, "%s: a degree of freedom is not a point value", catalog.label(cfg))
            self.nodes.append(tuple(map(float, p)))
        k = fem.FIXED.get(fam) or (cfg[2] if len(cfg) > 2 else 0)
        pts = list(self.nodes)
        self.partition = fam not in ("Bubble", "FacetBubble")
        if not self.partition:
            g = F.geo
            for a in itertools.product(range(k + 1), repeat=g.sd + 1):
                if sum(a) == k:
                    x = np.array(a, dtype=float) @ g.verts / k
                    if min(np.abs(np.array(self.nodes) - x).max(axis=1)) > 1e-9:
                        pts.append(tuple(x))
        if fam == "KMV":
            sp = fem.span(cfg, np.array(pts))
            self.B = KMVSpace(cfg)
        else:
            self.B = polys.total_basis(cell, k)
        V = self.B.tab(np.array(pts))
        require(V.shape[0] == V.shape[1], "%s: %d nodes for a space of dimension %d", catalog.label(cfg), V.shape[1], V.shape[0])
        self.cond = np.linalg.cond(V)
        self.C = np.linalg.inv(V)[:F.n]      # coefficients of the interpolation polynomials of the published nodes

    def exact(self, x, al):
        return self.C @ self.B.tab(x, al)


class KMVSpace:
    """The space spanned by fem.span (an independent description), with derivatives by fitting."""

    def __init__(self, cfg):
        cell = cfg[1]
        k = fem.total_degree(cfg)
        self.P = polys.total_basis(cell, k)
        x = polys.fit_nodes(cell, self.P)
        rows = fem.span(cfg, x)
        rows = np.asarray(rows).reshape(len(rows), -1)
        c, res = polys.fit(self.P, x, rows)
        assert res < 1e-8 * np.abs(rows).max()
        u, s, vt = np.linalg.svd(c, full_matrices=False)
        self.c = vt[:int((s > 1e-9 * s[0]).sum())]

    def tab(self, x, al=None):
        return self.c @ self.P.tab(x, al)


def check_interp(cfg, case):
    I = cached(Interp, cfg)
    tol = max(1e-10, 1e-13 * I.cond)
    lab = compare(I.F, case, I.nodes, I.exact, tol, catalog.label(cfg))
    T = I.F.element.tabulate(0, I.nodes)[(0,) * I.F.sd]
    close(T, np.eye(I.F.n), 1.0, tol, "values at the nodes")
    if I.partition:
        pts = cell_points(I.F.cell, case, I.nodes)
        t = I.F.element.tabulate(1, pts)
        for al in t:
            close(t[al].sum(axis=0), np.full(len(pts), float(not sum(al))), max(1.0, np.abs(t[al]).max()), tol, "sum of derivatives %s" % (al,))
    return lab


# ---------------------------------------------------------------- Taylor

class Taylor:
    def __init__(self, cfg):
        self.F = F = fem.fe(cfg)
        k = cfg[2]
        g = F.geo
        self.mid = g.verts.mean(axis=0)
        self.al = []
        rule = polys.cell_rule(F.cell, k + 1)
        ints = F.vals(rule[0]) @ rule[1]
        e0 = np.zeros(F.n)
        e0[0] = 1
        # which derivative belongs to which function: decided by the values
        M = {a: F.vals(self.mid[None], a)[:, 0] for a in alphas(F.sd, k) if sum(a)}
        if k == 0:
            close(F.vals(rule[0]), np.ones((1, len(rule[1]))), 1.0, 1e-12, "degree 0")
            return
        close(ints, e0, 1.0, 1e-9, "integrals of the functions")
        taken = set()
        for a, v in M.items():
            j = int(np.argmax(np.abs(v)))
            w = np.zeros(F.n)
            w[j] = 1.0
            close(v, w, 1.0, 1e-8, "derivative %s at the barycentre" % (a,))
            require(j > 0 and j not in taken, "derivative %s at the barycentre belongs to function %d", a, j)
            taken.add(j)
            self.al.append((a, j))
        require(len(taken) == F.n - 1, "%d derivatives for %d functions", len(taken), F.n)

    def exact_dofs(self, poly_int, poly_der):
        out = np.zeros(self.F.n)
        out[0] = poly_int
        for a, j in self.al:
            out[j] = poly_der(a)
        return out


def check_taylor(cfg, case):
    """A polynomial of the space is the combination of its integral and derivatives at the barycentre."""
    T = cached(Taylor, cfg)
    F, k = T.F, cfg[2]
    if k == 0:
        t = F.element.tabulate(case["n"], cell_points(F.cell, {**case, "near": []}, None))
        for a in t:
            close(t[a], np.full(t[a].shape, float(not sum(a))), 1.0, 1e-12, "degree 0")
        return "degree 0"
    exs = polys.total_degree_exponents(F.sd, k)
    P = polys.Poly(F.cell, [(c, exs[i % len(exs)]) for i, c in case["f"]])
    x, w = polys.cell_rule(F.cell, k + 1)
    dofs = T.exact_dofs(float(P(x) @ w), lambda a: float(P(T.mid[None], a)[0]))
    got, pts = request(F, case, [T.mid])
    lab = set()
    for a in got:
        want = P(np.array(pts, dtype=float).reshape(len(pts), F.sd), a)
        scale = max(1.0, np.abs(want).max(), np.abs(dofs).max() * np.abs(got[a]).max() * F.n)
        close(dofs @ got[a], want, scale, 1e-10, "derivative %s of a polynomial from its integral and derivatives" % (a,))
        if np.any(want):
            lab.add("order %d" % sum(a))
    return lab and lab | {"Taylor"}


# ---------------------------------------------------------------- quadrature elements

def check_quadrature(cell, case):
    import FIAT
    g = cells.geo(cell)
    ref = g.make()
    scheme = case["scheme"]
    if scheme == "KMV" and (cell not in ("T", "K", "dT", "iT", "dK", "iK") or not 1 <= case["k"] <= (5 if g.sd == 2 else 3)):
        return None
    q = FIAT.create_quadrature(ref, case["k"], scheme)
    e = FIAT.QuadratureElement(ref, q.get_points(), q.get_weights())
    n = len(q.get_weights())
    require(e.space_dimension() == n, "dimension %d for %d points", e.space_dimension(), n)
    pts = q.get_points() if case["how"] == 0 else [tuple(p) for p in q.get_points()] if case["how"] == 1 else [list(p) for p in q.get_points()]
    t = e.tabulate(0, pts) if case["whole"] else e.tabulate(0, pts, (ref.get_dimension(), 0))
    require(list(t) == [(0,) * g.sd] and np.array_equal(t[(0,) * g.sd], np.eye(n)), "quadrature element of %d points does not give the identity", n)
    for i, nd in enumerate(e.dual_basis()):
        (p, w), = nd.get_point_dict().items()
        require(np.allclose(p, q.get_points()[i], rtol=0, atol=1e-14) and [(float(a), tuple(c)) for a, c in w] == [(1.0, ())], "node %d of a quadrature element", i)
    ids = e.entity_dofs()
    top = ref.get_dimension()
    require({d: {i: list(v) for i, v in y.items()} for d, y in ids.items()} == {d: {i: list(range(n)) if d == top else [] for i in range(len(g.topo[d]))} for d in g.topo}, "entity dofs")
    return {"identity", "%d points" % min(n, 20)}


# ---------------------------------------------------------------- affine equivalence

class Pair:
    def __init__(self, cfg):
        a, b = cfg
        self.A, self.B = fem.FE(a, fit=False), fem.FE(b, fit=False)
        va, vb = self.A.geo.verts, self.B.geo.verts
        self.J = np.linalg.solve(va[1:] - va[0], vb[1:] - vb[0]).T       # x_b = vb0 + J (x_a - va0)
        self.map = lambda x: vb[0] + (np.asarray(x, dtype=float) - va[0]) @ self.J.T
        require(self.A.n == self.B.n, "%s and %s have different dimensions", catalog.label(a), catalog.label(b))
        if a[0] == "Bernstein":
            pa, pb = [np.array(x) for x in (Bernstein(a).order, Bernstein(b).order)]
            img = pa
        else:
            pa, pb = self.points(self.A), self.points(self.B)
            img = self.map(pa)
        self.perm = []
        for x in img:
            d = np.abs(pb - x).max(axis=1)
            j = int(np.argmin(d))
            require(d[j] < 1e-9, "no degree of freedom of %s is the image of the one of %s at %s", catalog.label(b), catalog.label(a), x)
            self.perm.append(j)
        require(sorted(self.perm) == list(range(self.A.n)), "degrees of freedom of %s and %s do not correspond", catalog.label(a), catalog.label(b))
        self.nodes = pa if a[0] != "Bernstein" else [list(va[0])]
        # corresponding degrees of freedom belong to corresponding entities
        ids_a, ids_b = self.A.element.entity_dofs(), self.B.element.entity_dofs()
        where = {j: frozenset(self.B.geo.topo[d][e]) for d in ids_b for e in ids_b[d] for j in ids_b[d][e]}
        for d in ids_a:
            for e in ids_a[d]:
                for i in ids_a[d][e]:
                    require(where[self.perm[i]] == frozenset(self.A.geo.topo[d][e]), "degree of freedom %d of %s and its image belong to different entities", i, catalog.label(a))

    @staticmethod
    def points(F):
        out = []
        for nd in F.element.dual_basis():
            (p, w), = nd.get_point_dict().items()
            out.append(tuple(map(float, p)))
        return np.array(out)


def check_pair(a, b, case):
    P = cached(Pair, [a, b])
    x = [np.array(p) for p in cell_points(P.A.cell, case, P.nodes)]
    y = [P.map(p) for p in x]
    n = case["n"]
    ta = P.A.element.tabulate(n, fem.as_points(x))
    tb = P.B.element.tabulate(n, fem.as_points(y))
    sd = P.A.sd
    lab = set()
    for m in range(n + 1):
        # full derivative tensors in the coordinates of the first geometry
        for al in polys.multi_indices(sd, m):
            dirs = [i for i in range(sd) for _ in range(al[i])]
            want = np.zeros_like(np.asarray(ta[al], dtype=float))
            big = 1.0
            for js in itertools.product(range(sd), repeat=m):
                c = math.prod(P.J[j, i] for j, i in zip(js, dirs)) if m else 1.0
                if c:
                    be = tuple(js.count(i) for i in range(sd))
                    t = np.asarray(tb[be], dtype=float)[P.perm]
                    want += c * t
                    big = max(big, abs(c) * np.abs(t).max())
            close(ta[al], want, big, 1e-9, "derivative %s of %s against %s" % (al, catalog.label(a), catalog.label(b)))
            if np.any(want):
                lab.add("order %d" % m)
    return lab and lab | {"affine"}


# ---------------------------------------------------------------- strata

def strata(tier):
    q = tier == "quick"
    out = []
    n = (20, 200)

    def add(kind, cfg, check, strat, n=n):
        out.append(Stratum("%s %s" % (kind, catalog.label(cfg)), strat, lambda case, cfg=cfg: check(cfg, case), n=n, cost=fem.cost(cfg)))
    S = catalog.ALLS
    cap = {1: 7 if q else 12, 2: 5 if q else 8, 3: 3 if q else 5}
    for c in S:
        d = catalog.sd[c]
        for k in range(1, cap[d] + 1):
            add("closed form", ["Bernstein", c, k], check_bernstein, case_strategy(c, 2 if d > 1 else 3))
    more = [("I", 16), ("I", 21), ("I", 26), ("I", 35), ("dI", 22), ("T", 9), ("dT", 8), ("K", 5)] + ([] if q else [("I", 50), ("dI", 30), ("iT", 13), ("T", 22), ("dK", 8)])
    for c, k in [t for t in more if t[1] > cap[catalog.sd[t[0]]]]:
        add("closed form", ["Bernstein", c, k], check_bernstein, case_strategy(c, 1 if k > 10 else 2))
    for c in ("I", "dI"):
        top = 12 if q else 20
        for fam, lo in (("Lagrange", 1), ("DG", 0), ("GL", 0), ("GLL", 1), ("GR", 0)):
            for k in range(lo, top + 1):
                add("exact interpolation", [fam, c, k], check_line, case_strategy(c, 3, outside=False))  # barycentric formulas lose digits far outside the cell
    for c in S:
        d = catalog.sd[c]
        if d > 1:
            for k in range(0, (5 if q else 8) if d == 2 else (3 if q else 5)):
                if k:
                    add("interpolation", ["Lagrange", c, k], check_interp, case_strategy(c, 2))
                    if k > d:
                        add("interpolation", ["Bubble", c, k], check_interp, case_strategy(c, 2))
                    if k >= d:
                        add("interpolation", ["FacetBubble", c, k], check_interp, case_strategy(c, 2))
                add("interpolation", ["DG", c, k], check_interp, case_strategy(c, 2))
            add("interpolation", ["CR", c, 1], check_interp, case_strategy(c, 2))
            if d == 3 and q:
                add("interpolation", ["Bubble", c, 4], check_interp, case_strategy(c, 1))
        else:
            for k in range(2, 8 if q else 12):
                add("interpolation", ["Bubble", c, k], check_interp, case_strategy(c, 2))
        add("interpolation", ["P0", c], check_interp, case_strategy(c, 2))
        for k in range(0, (5 if q else 8) if d == 1 else (4 if q else 6) if d == 2 else (3 if q else 5)):
            s = lambda c=c: st.tuples(case_strategy(c, 2), st.lists(st.tuples(st.integers(0, 99), st.integers(-9, 9)), min_size=1, max_size=4)).map(lambda t: {**t[0], "f": t[1]})
            add("Taylor", ["DTaylor", c, k], check_taylor, s)
    for c, ks in (("T", range(1, 6)), ("K", range(1, 4))):
        for k in ks:
            add("interpolation", ["KMV", c, k], check_interp, case_strategy(c, 2))
    for c, ks in (("Q", range(0, 4 if q else 6)), ("H", range(0, 3 if q else 4))):
        for k in ks:
            add("interpolation", ["DPC", c, k], check_interp, case_strategy(c, 2))
    for c in S + ["Q", "H", "I*I", "T*I", "I*T", "(I*I)*I", "dI*dI"]:
        s = st.fixed_dictionaries({"k": st.integers(0, 8 if cells.geo(c).sd < 3 else 6), "scheme": st.sampled_from(["default", "canonical", "KMV"]), "how": st.integers(0, 2), "whole": st.booleans()})
        out.append(Stratum("identity of quadrature elements on " + c, s, lambda case, c=c: check_quadrature(c, case), n=(20, 100)))
    for group in (("I", "dI"), ("T", "dT", "iT"), ("K", "dK", "iK")):
        d = catalog.sd[group[0]]
        top = {1: 6, 2: 4, 3: 3}[d] if q else {1: 10, 2: 7, 3: 5}[d]
        for a, b in itertools.permutations(group, 2):
            cfgs = [["P0"]] + [["Lagrange", k] for k in range(1, top + 1)] + [["DG", k] for k in range(0, top)] + [["Bernstein", k] for k in range(1, top + 1)]
            cfgs += [["Bubble", k] for k in range(d + 1, top + 2)]
            if d > 1:
                cfgs += [["CR", 1]] + [["FacetBubble", k] for k in range(d, top + 1)]
            else:
                cfgs += [[f, k] for f in ("GL", "GLL", "GR") for k in range(1, top + 1)]
            for f in cfgs:
                ca, cb = [f[0], a] + f[1:], [f[0], b] + f[1:]
                out.append(Stratum("affine %s to %s" % (catalog.label(ca), b), lambda a=a, d=d: case_strategy(a, 2 if d < 3 else 1),
                                   lambda case, ca=ca, cb=cb: check_pair(ca, cb, case), n=(8, 60), cost=fem.cost(ca)))
    return out
