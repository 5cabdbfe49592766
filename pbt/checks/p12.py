"""P12: tensor-product elements are products of their factors; flattening only renumbers entities."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import close, require

RULE = ("Strata: one per catalogued product (nested and flattened ones included), plus families of randomly drawn factor pairs. Each case draws (the factors,) "
        "an entity of the product cell, points in its own coordinates (interior, boundary, vertex, exterior) and a derivative order; every "
        "table is compared with the products of the tables of separately built factors at independently mapped points, and the entity "
        "numbering, nodes, degree, shape, mapping, form degree and dimension with those of the factors. Non-trivial: both factors have at least two basis functions, "
        "or the order is positive, or the entity is a proper one.")


def factor_tables(cfg, n, pts):
    return catalog.element(cfg).tabulate(n, fem.as_points(pts))


def product_tables(a, b, n, ya, yb):
    ga, gb = (cells.geo(catalog.cell_of(c)) for c in (a, b))
    TA, TB = factor_tables(a, n, ya), factor_tables(b, n, yb)
    out = {}
    for al in fem.multi(ga.sd + gb.sd, n):
        A, B = np.asarray(TA[al[:ga.sd]], dtype=float), np.asarray(TB[al[ga.sd:]], dtype=float)
        out[al] = fem.outer(A, B)
    return out


def parts(case_entity, g):
    return g.entity_factors[case_entity]


def mapped(a, b, ents, xs):
    """Images in the two factor cells of points in the coordinates of a product entity."""
    ga, gb = (cells.geo(catalog.cell_of(c)) for c in (a, b))
    (da, ea), (db, eb) = ents
    k = cells.tsum(da)
    xs = [np.asarray(x, dtype=float) for x in xs]
    return [ga.map_entity(da, ea, x[:k]) for x in xs], [gb.map_entity(db, eb, x[k:]) for x in xs]


def static(cfg, e):
    """Facts of the product that do not depend on points."""
    a, b = cfg[1], cfg[2]
    A, B = catalog.element(a), catalog.element(b)
    g = cells.geo(catalog.cell_of(cfg))
    nA, nB = A.space_dimension(), B.space_dimension()
    require(e.space_dimension() == nA * nB, "dimension %s of a product of %d and %d", e.space_dimension(), nA, nB)
    require(e.degree() == max(A.degree(), B.degree()), "degree %s of a product of degrees %s and %s", e.degree(), A.degree(), B.degree())
    require(tuple(e.value_shape()) == (tuple(A.value_shape()) or tuple(B.value_shape())), "value shape %s", e.value_shape())
    maps = set(A.mapping()) | set(B.mapping())
    maps = (maps - {"affine"}) or {"affine"}
    require(list(e.mapping()) == [max(maps)] * (nA * nB), "mapping %s of a product of %s and %s", e.mapping(), set(A.mapping()), set(B.mapping()))
    fa, fb = A.get_formdegree(), B.get_formdegree()
    want = None if fa is None or fb is None else fa + fb
    require(e.get_formdegree() == want, "form degree %s of a product of form degrees %s and %s", e.get_formdegree(), fa, fb)
    ref = e.get_reference_element()
    require(tuple(map(tuple, ref.get_vertices())) == tuple(map(tuple, g.verts)), "vertices of the product cell")
    ids, ia, ib = e.entity_dofs(), A.entity_dofs(), B.entity_dofs()
    require(set(ids) == set(g.topo), "entity dimensions %s", sorted(ids))
    for (d, i) in g.entities():
        (da, ea), (db, eb) = g.entity_factors[d, i]
        want = [x * nB + y for x in ia[da][ea] for y in ib[db][eb]]
        require(list(ids[d][i]) == want, "degrees of freedom of product entity %s: %s instead of %s", (d, i), list(ids[d][i]), want)
    na, nb, nodes = A.dual_basis(), B.dual_basis(), e.dual_basis()
    require(len(nodes) == nA * nB, "%d degrees of freedom", len(nodes))
    import FIAT.functional as F
    for i, x in enumerate(na):
        for j, y in enumerate(nb):
            if isinstance(x, F.PointEvaluation) and isinstance(y, F.PointEvaluation):
                z = nodes[i * nB + j]
                (p, w), = z.get_point_dict().items()
                want = tuple(next(iter(x.get_point_dict()))) + tuple(next(iter(y.get_point_dict())))
                require(isinstance(z, F.PointEvaluation) and tuple(p) == want and [(float(v), tuple(c)) for v, c in w] == [(1.0, ())] and not z.deriv_dict
                        and tuple(z.target_shape) == (),
                        "product of the point evaluations %d and %d is %s at %s", i, j, w, p)


_static_done = set()


def compare(cfg, case, flat=False):
    """cfg is a TPE configuration; flat: the element is its flattening."""
    full = ["Flat", cfg] if flat else cfg
    key = catalog.key(full)
    E = catalog.element(full)
    T = catalog.element(cfg)
    if key not in _static_done:
        static(cfg, T)
        if flat:
            flatten_static(cfg, E, T)
        _static_done.add(key)
    a, b = cfg[1], cfg[2]
    g = cells.geo(catalog.cell_of(full))
    ents = g.entities()
    d, i = ents[case["e"] % len(ents)]
    pd, pi = (g.unflat[d, i] if flat and g.flat else (d, i))
    if flat:
        # coordinates of a flat entity are those of the product entity
        pg = cells.geo(catalog.cell_of(cfg))
        pd, pi = flat_entity(g, pg, d, i)
    else:
        pg = g
    xs = cells.points(pg.sub_name(pd), case["p"][:])
    n = case["n"]
    ya, yb = mapped(a, b, pg.entity_factors[pd, pi], xs)
    want = product_tables(a, b, n, ya, yb)
    whole = case.get("none") and cells.tsum(d) == g.sd
    got = E.tabulate(n, xs) if whole else E.tabulate(n, xs, (d, i))
    require(set(got) == set(want), "tables %s instead of %s", sorted(got), sorted(want))
    scale = max([1.0] + [np.abs(t).max() for t in want.values()])
    for al in want:
        close(got[al], want[al], scale, 1e-9, "derivative %s on entity %s" % (al, (d, i)))
    nA, nB = catalog.element(a).space_dimension(), catalog.element(b).space_dimension()
    proper = cells.tsum(d) < g.sd
    lab = {"order %d" % n, "proper entity" if proper else "cell"} | cells.point_classes(case["p"])
    return lab if (nA > 1 and nB > 1) or n or proper else None


def flat_entity(g, pg, d, i):
    """Entity of the (possibly nested) product cell with the vertices of entity (d, i) of the flattened cell."""
    vs = g.topo[d][i]
    for dd, ee in pg.entities():
        if cells.tsum(dd) == d and pg.topo[dd][ee] == vs:
            return dd, ee
    raise KeyError((d, i))


def flatten_static(cfg, E, T):
    g, pg = cells.geo(catalog.cell_of(["Flat", cfg])), cells.geo(catalog.cell_of(cfg))
    ids, pids = E.entity_dofs(), T.entity_dofs()
    require({d: sorted(v) for d, v in ids.items()} == {d: list(range(len(v))) for d, v in g.topo.items()}, "entities of the flattened element: %s", ids)
    for d, i in g.entities():
        dd, ee = flat_entity(g, pg, d, i)
        require(list(ids[d][i]) == list(pids[dd][ee]), "flattened entity %s carries %s, product entity %s carries %s", (d, i), ids[d][i], (dd, ee), pids[dd][ee])
    require(E.space_dimension() == T.space_dimension() and E.degree() == T.degree() and E.get_order() == T.get_order() and
            list(E.mapping()) == list(T.mapping()) and E.get_formdegree() == T.get_formdegree() and tuple(E.value_shape()) == tuple(T.value_shape()) and
            E.is_nodal() == T.is_nodal(),
            "flattening changes the dimension, degree, mapping, form degree or shape")
    for x, y in zip(E.dual_basis(), T.dual_basis()):
        require(x.get_point_dict() == y.get_point_dict() and x.deriv_dict == y.deriv_dict and x.get_type_tag() == y.get_type_tag(), "flattening changes a degree of freedom")
    require(list(map(tuple, E.get_reference_element().get_vertices())) == list(map(tuple, g.verts)), "vertices of the flattened cell")


# ------------------------------------------------------------------ random factors

def lines(cell="I"):
    """Scalar point-evaluation families on an interval."""
    return st.one_of(
        st.tuples(st.sampled_from(["Lagrange", "GLL"]), st.just(cell), st.integers(1, 5)),
        st.tuples(st.sampled_from(["DG", "GL", "GR"]), st.just(cell), st.integers(0, 4)),
        st.just(("P0", cell)), st.tuples(st.just("Bubble"), st.just(cell), st.integers(2, 4))).map(list)


def line_any(cell="I"):
    return st.one_of(lines(cell), st.just(["Hermite", cell, 3]), st.tuples(st.just("DTaylor"), st.just(cell), st.integers(0, 3)).map(list))


def tri_scalar(cell="T"):
    return st.one_of(st.tuples(st.just("Lagrange"), st.just(cell), st.integers(1, 3)), st.tuples(st.just("DG"), st.just(cell), st.integers(0, 2)),
                     st.sampled_from([("P0", cell), ("CR", cell, 1), ("Bubble", cell, 3), ("FacetBubble", cell, 2), ("DG", cell, 0)])).map(list)


def tri_pe(cell="T"):
    return tri_scalar(cell)


def tri_vector(cell="T"):
    k = lambda f, hi, v: st.tuples(st.just(f), st.just(cell), st.integers(1, hi), st.just(v))
    return st.one_of(*[k(f, 2, v) for f in ("RT", "N1") for v in ("point", "integral")], *[k(f, 2, v) for f in ("BDM", "N2") for v in ("point", "integral")],
                     st.just(("BDFM", cell, 2)), st.just(("DRT", cell, 1))).map(list)


def tet(kind):
    if kind == "scalar":
        return st.sampled_from([["Lagrange", "K", 1], ["DG", "K", 1], ["P0", "K"], ["Lagrange", "K", 2], ["CR", "K", 1]])
    return st.sampled_from([["RT", "K", 1, "point"], ["N1", "K", 1, "point"], ["BDM", "K", 1, "integral"], ["N1", "K", 1, "integral"]])


def pair(kind):
    b = [c for c in ("I",)]
    if kind == "I*I":
        return st.tuples(line_any(), line_any()).filter(lambda p: not catalog.NODE_CLASH(p[0], p[1]))
    if kind == "dI*I":
        return st.tuples(lines("dI"), lines("I"))
    if kind == "I*dI":
        return st.tuples(lines("I"), lines("dI"))
    if kind == "T*I":
        return st.tuples(tri_scalar(), lines())
    if kind == "Tvec*I":
        return st.tuples(tri_vector(), lines())
    if kind == "Tvec*I 2":
        return st.tuples(tri_vector("iT"), lines("dI"))
    if kind == "I*T":
        return st.tuples(lines(), tri_pe())
    if kind == "Hermite*Tvec":
        return st.tuples(st.just(["RestrIdx", ["Hermite", "I", 3], [1, 3]]), tri_vector())
    if kind == "T*T":
        return st.tuples(tri_scalar(), tri_pe())
    if kind == "K*I":
        return st.tuples(tet("scalar"), lines())
    if kind == "Kvec*I":
        return st.tuples(tet("vector"), lines())
    if kind == "I*K":
        return st.tuples(lines(), tet("scalar"))
    nest = st.tuples(st.just("TPE"), small(), small()).map(list)
    if kind == "(I*I)*I":
        return st.tuples(nest, small())
    if kind == "I*(I*I)":
        return st.tuples(small(), nest)
    if kind == "(I*I)*(I*I)":
        return st.tuples(nest, nest)
    if kind == "(T*I)*I":
        return st.tuples(st.tuples(st.just("TPE"), st.sampled_from([["Lagrange", "T", 1], ["RT", "T", 1, "integral"], ["DG", "T", 1]]), small()).map(list),
                         small()).filter(lambda p: p[0][1][0] != "RT" or True)
    if kind == "(I*T)*I":
        return st.tuples(st.tuples(st.just("TPE"), small(), st.sampled_from([["Lagrange", "T", 1], ["DG", "T", 1]])).map(list), small())
    if kind == "Q*I":
        return st.tuples(st.tuples(st.just("Flat"), nest).map(list), small())
    raise KeyError(kind)


def small():
    return st.one_of(st.tuples(st.just("Lagrange"), st.just("I"), st.integers(1, 2)), st.tuples(st.sampled_from(["DG", "GL"]), st.just("I"), st.integers(0, 1)),
                     st.just(("Bubble", "I", 2))).map(list)


PAIRS = {"I*I": "I*I", "dI*I": "dI*I", "I*dI": "I*dI", "T*I": "T*I", "Tvec*I": "T*I", "Tvec*I 2": "iT*dI", "I*T": "I*T", "Hermite*Tvec": "I*T", "T*T": "T*T",
         "K*I": "K*I", "Kvec*I": "K*I", "I*K": "I*K", "(I*I)*I": "(I*I)*I", "I*(I*I)": "I*(I*I)", "(I*I)*(I*I)": "(I*I)*(I*I)", "(T*I)*I": "(T*I)*I",
         "(I*T)*I": "(I*T)*I", "Q*I": "Q*I"}


def on_entity(name, nmax=3, order=2):
    g = cells.geo(name)
    ents = g.entities()
    return st.integers(0, len(ents) - 1).flatmap(lambda i: st.fixed_dictionaries({
        "e": st.just(i), "p": cells.points_strategy(g.sub_name(ents[i][0]), 1, nmax), "n": st.integers(0, order), "none": st.booleans()}))


def flat_points(cfg):
    g, pg = cells.geo(catalog.cell_of(["Flat", cfg])), cells.geo(catalog.cell_of(cfg))
    ents = g.entities()
    return st.integers(0, len(ents) - 1).flatmap(lambda i: st.fixed_dictionaries({
        "e": st.just(i), "p": cells.points_strategy(pg.sub_name(flat_entity(g, pg, *ents[i])[0]), 1, 3), "n": st.integers(0, 2), "none": st.booleans()}))


def check_random(case):
    a, b = case["f"]
    cfg = ["TPE", a, b]
    return compare(cfg, case["x"])


def check_random_flat(case):
    cfg = case["f"]
    return compare(cfg, case["x"], flat=True)


def strata(tier):
    out = []
    seen = set()
    for c in catalog.products(tier) + catalog.composites(tier):
        for s in subproducts(c):
            k = catalog.key(s)
            if k in seen:
                continue
            seen.add(k)
            if s[0] == "Flat":
                out.append(Stratum(catalog.label(s), lambda s=s: flat_points(s[1]), lambda case, s=s: compare(s[1], case, True), n=(12, 60), cost=fem.cost(s)))
            else:
                out.append(Stratum(catalog.label(s), lambda s=s: on_entity(catalog.cell_of(s)), lambda case, s=s: compare(s, case), n=(12, 60), cost=fem.cost(s)))
    for kind, cell in PAIRS.items():
        heavy = kind[0] == "K" or kind == "I*K" or "T*T" in kind or kind == "(I*I)*(I*I)"
        out.append(Stratum("random " + kind, lambda kind=kind, cell=cell, heavy=heavy: st.fixed_dictionaries({
            "f": pair(kind).map(list), "x": on_entity(cell, 3, 1 if heavy else 2)}), check_random, n=(120, 600), cost=4.0))
    for kind, dims in (("Q", 2), ("H left", 3), ("H right", 3)):
        one = small().flatmap(lambda a: small().map(lambda b: ["TPE", a, b])) if kind == "Q" else \
            st.tuples(small(), small(), small()).map(lambda t, kind=kind: ["TPE", ["TPE", t[0], t[1]], t[2]] if kind == "H left" else ["TPE", t[0], ["TPE", t[1], t[2]]])
        proto = {"Q": ["TPE", ["P0", "I"], ["P0", "I"]], "H left": ["TPE", ["TPE", ["P0", "I"], ["P0", "I"]], ["P0", "I"]],
                 "H right": ["TPE", ["P0", "I"], ["TPE", ["P0", "I"], ["P0", "I"]]]}[kind]
        out.append(Stratum("random flat " + kind, lambda one=one, proto=proto: st.fixed_dictionaries({"f": one, "x": flat_points(proto)}), check_random_flat,
                           n=(120, 600), cost=4.0))
    return out


def subproducts(cfg):
    """TPE and Flat(TPE) configurations occurring in a configuration (not those whose factors are wrapped elements)."""
    if cfg[0] == "TPE":
        yield cfg
    if cfg[0] == "Flat" and cfg[1][0] == "TPE":
        yield cfg
    for c in cfg[1:]:
        if isinstance(c, list) and c and isinstance(c[0], str) and cfg[0] not in ("RestrIdx",):
            yield from subproducts(c)
