"""P15: the H(div) trace element is the discontinuous Lagrange element facet by facet, and nothing else."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum, Violation
from fem import close, require

RULE = ("One stratum per reference cell, degree (per-direction degrees on product cells) and kind of request. Each case draws a facet, points in "
        "facet coordinates, and an order; or points of the cell with integer barycentric weights and a perturbation far below or "
        "above the tolerance, for which exact arithmetic decides whether they lie on exactly one common facet. Tables are compared "
        "with separately built discontinuous Lagrange elements of the facets at independently mapped points. Non-trivial: every case.")


def facet_dims(g):
    return [d for d in sorted(g.topo) if cells.tsum(d) == g.sd - 1]


def facet_element(g, d, degree):
    """Configuration of the facet's discontinuous Lagrange element (facet dimension d, degrees nested like the cell)."""
    if g.name in cells.SIMPLEX:
        return ["DG", g.sub_name(d), degree] if d else None
    if g.flat:
        return {1: ["DG", "I", degree], 2: ["TPE", ["DG", "I", degree], ["DG", "I", degree]]}[d] if d else None
    degree = [degree] * len(g.factors) if isinstance(degree, int) else degree
    parts = [facet_element(f, x, k) for f, x, k in zip(g.factors, d, degree)]
    parts = [p for p in parts if p]
    out = parts[0]
    for p in parts[1:]:
        out = ["TPE", out, p]
    return out


class Trace:
    def __init__(self, cell, degree):
        self.g = g = cells.geo(cell)
        self.e = e = catalog.element(["HDivTrace", cell, degree])
        self.sd = g.sd
        self.fd = facet_dims(g)
        self.cfg = {d: facet_element(g, d, degree) for d in self.fd}
        self.n = 0
        ids = e.entity_dofs()
        require({d: sorted(v) for d, v in ids.items()} == {d: list(range(len(v))) for d, v in g.topo.items()}, "entities %s", ids)
        for d in sorted(g.topo):
            for i in range(len(g.topo[d])):
                if d not in self.fd:
                    require(list(ids[d][i]) == [], "degrees of freedom on entity %s, which is not a facet", (d, i))
                    continue
                nf = catalog.element(self.cfg[d]).space_dimension()
                require(list(ids[d][i]) == list(range(self.n, self.n + nf)), "facet %s carries %s instead of %s", (d, i), list(ids[d][i]),
                        list(range(self.n, self.n + nf)))
                for k, nd in zip(ids[d][i], catalog.element(self.cfg[d]).dual_basis()):
                    (p, w), = e.dual_basis()[k].get_point_dict().items()
                    q, = nd.get_point_dict()
                    close(np.array(p, dtype=float), np.asarray(g.map_entity(d, i, q)).reshape(-1), 1.0, 1e-12, "node of degree of freedom %d" % k)
                    require([(float(v), tuple(c)) for v, c in w] == [(1.0, ())] and not e.dual_basis()[k].deriv_dict, "degree of freedom %d is not a point value", k)
                self.n += nf
        self.ids = ids
        require(e.space_dimension() == self.n == len(e.dual_basis()), "dimension %s instead of %d", e.space_dimension(), self.n)
        require(e.degree() == max(catalog.element(c).degree() for c in self.cfg.values()), "degree %s", e.degree())
        require(tuple(e.value_shape()) == () and list(e.mapping()) == ["affine"] * self.n and e.get_formdegree() == g.sd - 1, "shape, mapping or form degree")

    def facet_table(self, d, i, xs):
        t = catalog.element(self.cfg[d]).tabulate(0, fem.as_points(xs))[(0,) * (self.sd - 1)]
        out = np.zeros((self.n, len(xs)))
        out[self.ids[d][i]] = t
        return out


_tr = {}


def trace(cell, degree):
    k = (cell, repr(degree))
    if k not in _tr:
        _tr[k] = Trace(cell, degree)
    return _tr[k]


def is_error(x):
    from FIAT.hdiv_trace import TraceError
    return isinstance(x, TraceError)


def check_facet(cell, degree, case):
    T = trace(cell, degree)
    fs = [(d, i) for d in T.fd for i in range(len(T.g.topo[d]))]
    d, i = fs[case["f"] % len(fs)]
    xs = cells.points(T.g.sub_name(d), case["p"])
    n = case["n"]
    got = T.e.tabulate(n, xs, (d, i))
    require(set(got) == set(fem.multi(T.sd, n)), "tables %s for order %d", sorted(got), n)
    want = T.facet_table(d, i, xs)
    close(got[(0,) * T.sd], want, max(1.0, np.abs(want).max()), 1e-9, "facet %s" % ((d, i),))
    for a in got:
        if any(a):
            require(is_error(got[a]), "derivative %s of the trace element is %r", a, got[a])
    return {"facet %s" % (d,), "order %d" % n} | cells.point_classes(case["p"])


def check_other(cell, degree, case):
    """Entities that are not facets, nonexistent facets, product cells without an entity."""
    T = trace(cell, degree)
    n = case["n"]
    others = [(d, i) for d, i in T.g.entities() if d not in T.fd]
    kind = case["k"] % 3
    if kind == 0:
        d, i = others[case["f"] % len(others)]
        xs = fem.as_points(cells.sample_points(T.g.sub_name(d), 2)) if cells.tsum(d) else [()]
        got = T.e.tabulate(n, xs, (d, i))
        require(set(got) == set(fem.multi(T.sd, n)), "tables %s for order %d", sorted(got), n)
        require(all(is_error(v) for v in got.values()), "tabulation on entity %s, which is not a facet, returns numbers", (d, i))
        return "entity of dimension %s" % (d,)
    if kind == 1:
        d = T.fd[case["f"] % len(T.fd)]
        xs = fem.as_points(cells.sample_points(T.g.sub_name(d), 2))
        bad = len(T.g.topo[d]) + case["f"]
        try:
            got = T.e.tabulate(n, xs, (d, bad))
        except Exception:
            return "nonexistent facet"
        require(all(is_error(v) for v in got.values()), "tabulation on the nonexistent facet %s returns numbers", (d, bad))
        return "nonexistent facet"
    if cell in ("T", "K"):
        return None
    d = T.fd[case["f"] % len(T.fd)]
    xs = [T.g.map_entity(d, 0, x) for x in cells.sample_points(T.g.sub_name(d), 2)]
    try:
        got = T.e.tabulate(n, fem.as_points(xs))
    except NotImplementedError:
        return "no entity on a product cell"
    want = T.facet_table(d, 0, cells.sample_points(T.g.sub_name(d), 2))
    for v in got.values():
        if not is_error(v) and not np.isnan(np.asarray(v, dtype=float)).all():
            close(v, want, 1.0, 1e-9, "tabulation without an entity")
    return "no entity on a product cell"


def check_points(cell, degree, case):
    """Points of the whole simplex, no entity given."""
    T = trace(cell, degree)
    g, sd = T.g, T.sd
    ws = case["w"]
    pts = np.array([cells.coords(cell, [w]) for w in ws])
    on = set(range(sd + 1))
    for w in ws:
        on &= {k for k, a in enumerate(w) if a == 0}
    eps = case["eps"]
    if eps and len(on) == 1:
        f, = on
        n = g.normal_outward(sd - 1, f)
        pts = pts + eps * np.outer(np.array(case["s"][:len(ws)] + [1] * len(ws))[:len(ws)], n)
        moved = abs(eps) > 1e-9
    else:
        moved = False
    n = case["n"]
    arg = fem.as_points(pts) if case["a"] else pts
    got = T.e.tabulate(n, arg)
    require(set(got) == set(fem.multi(sd, n)), "tables %s for order %d", sorted(got), n)
    zero = (0,) * sd
    if len(on) != 1 or moved:
        for a, v in got.items():
            require(is_error(v) or (np.shape(v) == (T.n, len(ws)) and np.isnan(np.asarray(v, dtype=float)).all()),
                    "points that are not on exactly one facet give %s for %s", v, a)
        return "off the facets" if not on or moved else "on several facets"
    f, = on
    sub = g.sub_name(sd - 1)
    sv = cells.geo(sub).verts
    vs = g.topo[sd - 1][f]
    xs = [np.array([w[v] for v in vs], dtype=float) / sum(w) @ sv for w in ws]
    want = T.facet_table(sd - 1, f, xs)
    close(got[zero], want, max(1.0, np.abs(want).max()), 1e-8, "points on facet %d, no entity given" % f)
    for a in got:
        if a != zero:
            require(is_error(got[a]), "derivative %s of the trace element is %r", a, got[a])
    return "on one facet" + (", perturbed" if eps else "")


def facet_case(cell):
    g = cells.geo(cell)
    fs = [(d, i) for d in facet_dims(g) for i in range(len(g.topo[d]))]
    return st.integers(0, len(fs) - 1).flatmap(lambda f: st.fixed_dictionaries({
        "f": st.just(f), "p": cells.points_strategy(g.sub_name(fs[f][0]), 1, 4), "n": st.integers(0, 3)}))


def point_case(cell):
    nv = cells.geo(cell).sd + 1
    inner = st.lists(st.integers(1, 997), min_size=nv, max_size=nv)
    edge = st.lists(st.integers(0, 2), min_size=nv, max_size=nv).filter(lambda w: sum(w) > 0)
    on = st.integers(0, nv - 1).flatmap(lambda f: st.lists(
        st.one_of(st.lists(st.integers(1, 997), min_size=nv - 1, max_size=nv - 1), st.lists(st.integers(0, 3), min_size=nv - 1, max_size=nv - 1).filter(lambda w: sum(w) > 0))
        .map(lambda w: w[:f] + [0] + w[f:]), min_size=1, max_size=4))
    ws = st.one_of(on, on, on, st.lists(st.one_of(inner, edge), min_size=1, max_size=4), st.tuples(on, inner).map(lambda t: t[0] + [t[1]]),
                   st.tuples(on, on).map(lambda t: t[0] + t[1]))
    return st.fixed_dictionaries({"w": ws, "eps": st.sampled_from([0, 0, 1e-15, -1e-14, 1e-13, 5e-12, -5e-12, 1e-8, -1e-8, 1e-6, -1e-3]),
                                  "s": st.lists(st.sampled_from([1, 1, 0.5]), min_size=4, max_size=4), "n": st.integers(0, 2), "a": st.booleans()})


def other_case():
    return st.fixed_dictionaries({"f": st.integers(0, 40), "k": st.integers(0, 2), "n": st.integers(0, 2)})


def configs(tier):
    q = tier == "quick"
    out = [("T", k) for k in range(0, 6 if q else 9)] + [("K", k) for k in range(0, 4 if q else 6)] + [("Q", k) for k in range(0, 4 if q else 6)]
    out += [("I*I", [a, b]) for a in range(3 if q else 5) for b in range(3 if q else 5)] + [("I*I", 2), ("T*I", 1)]
    out += [("T*I", [a, b]) for a in range(3) for b in range(3)] + [("I*T", [a, b]) for a in range(3) for b in (0, 2)]
    out += [("Q*I", [a, b]) for a in range(3) for b in range(3)] + [("(I*I)*I", [[a, b], c]) for a, b, c in ((0, 1, 2), (2, 1, 0), (1, 1, 1), (2, 0, 1), (0, 0, 0))]
    out += [("I*(I*I)", [a, [b, c]]) for a, b, c in ((0, 1, 2), (2, 1, 0), (1, 1, 1), (1, 2, 0))] + [("T*T", [1, 0]), ("T*T", [0, 2]), ("I*I*I", [2, 1, 1]), ("I*I*I", [1, 0, 2])]
    return out


def strata(tier):
    out = []
    for c, k in configs(tier):
        out.append(Stratum("facet %s %s" % (c, k), lambda c=c: facet_case(c), lambda case, c=c, k=k: check_facet(c, k, case), n=(30, 150)))
        out.append(Stratum("other %s %s" % (c, k), other_case, lambda case, c=c, k=k: check_other(c, k, case), n=(20, 60)))
        if c in ("T", "K"):
            out.append(Stratum("points %s %s" % (c, k), lambda c=c: point_case(c), lambda case, c=c, k=k: check_points(c, k, case), n=(100, 500), cost=2.0))
    return out
