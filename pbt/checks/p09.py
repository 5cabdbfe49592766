"""P09: geometry and topology of reference cells."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import cells
from core import Stratum
from fem import close, require

RULE = ("Strata: topology, geometry, lattices and point containment per reference cell (simplices of all three conventions, products, nested products, flattened cells), "
        "lookup by name/dimension and flattening over random product cells, and affine maps, volumes and lattices of random simplices. Each case draws "
        "an entity, lattice degree, points and tolerance or vertices; the answers are compared with an independently written description of the cells. "
        "Non-trivial: a proper sub-entity, a non-empty lattice, or a non-degenerate simplex.")
ASSUMPTIONS = ["point containment and products of names exist for UFC cells only", "normals of the UFC triangle and tetrahedron follow the UFC convention "
               "((t1, -t0) scaled to unit length; minus twice the unit vector along t0 x t1), all others are outward unit normals"]

SIMPLICES = ["I", "dI", "T", "dT", "iT", "K", "dK", "iK"]
PRODUCTS = ["Q", "H", "I*I", "T*I", "I*T", "K*I", "T*T", "I*I*I", "(I*I)*I", "I*(I*I)", "Q*I", "H*I", "Q*T", "I*Q", "dI*I", "dT*I", "iT*dI", "(T*I)*I",
            "(I*I)*(I*I)", "dK*iT", "P*I", "I*P", "T*P", "(I*P)*I", "I*I*I*I"]


def subset_entities(g):
    """Entities contained in each entity, by vertex sets; product entities by inclusion in every factor."""
    return {(d, e): sorted((d2, e2) for d2, e2 in g.entities() if set(g.topo[d][e]) >= set(g.topo[d2][e2])) for d, e in g.entities()}


_sub = {}


def subs(name):
    if name not in _sub:
        _sub[name] = subset_entities(cells.geo(name))
    return _sub[name]


def check_topology(name, case):
    g = cells.geo(name)
    c = g.make()
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    topo = c.get_topology()
    require(set(topo) == set(g.topo), "entity dimensions %s, expected %s", sorted(topo), sorted(g.topo))
    for dd in topo:
        require(sorted(topo[dd]) == list(range(len(g.topo[dd]))), "entities of dimension %s numbered %s", dd, sorted(topo[dd]))
    require(tuple(int(v) for v in topo[d][e]) == tuple(g.topo[d][e]), "entity %s has vertices %s, expected %s", (d, e), topo[d][e], g.topo[d][e])
    sets = [frozenset(v) for v in topo[d].values()]
    require(len(set(sets)) == len(sets), "dimension %s lists an entity twice: %s", d, topo[d])
    V = np.array(c.get_vertices(), dtype=float).reshape(len(g.verts), -1)
    close(V, g.verts, 1.0, 0, "vertices")
    require(c.get_spatial_dimension() == g.sd and c.get_dimension() == g.dim, "spatial dimension %s, dimension %s", c.get_spatial_dimension(), c.get_dimension())
    want = np.array(c.get_vertices_of_subcomplex(topo[d][e]), dtype=float).reshape(len(g.topo[d][e]), -1)
    close(want, g.verts[list(g.topo[d][e])], 1.0, 0, "vertices of entity %s" % ((d, e),))
    require(set(c.sub_entities) == set(g.topo), "sub_entities keys %s", sorted(c.sub_entities))
    require([(dd, int(ee)) for dd, ee in c.sub_entities[d][e]] == subs(name)[d, e], "sub-entities of %s are %s, expected %s", (d, e), c.sub_entities[d][e],
            subs(name)[d, e])
    if not isinstance(g.dim, tuple):
        conn = c.get_connectivity()
        require(set(conn) == {(a, b) for a in g.topo for b in g.topo if b <= a}, "connectivity keys %s", sorted(conn))
        for b in range(d + 1):
            require(len(conn[d, b]) == len(g.topo[d]), "connectivity %s has %d rows", (d, b), len(conn[d, b]))
            require(list(conn[d, b][e]) == [ee for dd, ee in subs(name)[d, e] if dd == b], "connectivity %s of entity %d is %s", (d, b), e, conn[d, b][e])
    # the cell of the entity has its topology
    s = c.construct_subelement(d)
    h = cells.geo(g.sub_name(d))
    require({k: len(v) for k, v in s.get_topology().items()} == {k: len(v) for k, v in h.topo.items()}, "cell of entity %s has topology %s", (d, e), s.get_topology())
    close(np.array(s.get_vertices(), dtype=float).reshape(len(h.verts), -1), h.verts, 1.0, 0, "vertices of the cell of entity %s" % ((d, e),))
    require(s.get_spatial_dimension() == cells.tsum(d), "cell of entity %s has dimension %s", (d, e), s.get_spatial_dimension())
    require(c == g.make() and hash(c) == hash(g.make()) and not c != g.make(), "the cell is not equal to a fresh copy of itself")
    return {"entity of dimension %s" % cells.tsum(d)} if (d, e) != ents[-1] else None


def check_geometry(name, case):
    g = cells.geo(name)
    c = g.make()
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    close(c.volume(), g.volume, g.volume, 1e-13, "volume of the cell")
    facet = cells.tsum(d) == g.sd - 1
    labels = {"entity of dimension %s" % cells.tsum(d)}
    if g.factors is not None:
        if not facet:
            return None
        n = np.asarray(c.compute_reference_normal(d, e), dtype=float)
        if g.flat:
            parts, fs = cells.Geo_product(g).entity_factors[g.unflat[d, e]], cells.Geo_product(g).factors
        else:
            parts, fs = g.entity_factors[d, e], g.factors
        close(n, product_normal(parts, fs), 1.0, 1e-13, "reference normal of facet %s" % ((d, e),))
        return labels | {"product facet"}
    v = g.verts[list(g.topo[d][e])]
    T = v[1:] - v[0]
    if d >= 0:
        ts = c.compute_tangents(d, e)
        require(len(ts) == len(T), "entity %s has %d tangents", (d, e), len(ts))
        close(np.array(ts, dtype=float).reshape(T.shape), T, 1.0, 1e-14, "tangents of entity %s" % ((d, e),))
        nts = c.compute_normalized_tangents(d, e)
        close(np.array(nts, dtype=float).reshape(T.shape), T / np.linalg.norm(T, axis=1, keepdims=True), 1.0, 1e-13, "normalized tangents of entity %s" % ((d, e),))
    close(c.volume_of_subcomplex(d, e), g.measure(d, e), 1.0, 1e-13, "volume of entity %s" % ((d, e),))
    if d == 1:
        close(c.compute_edge_tangent(e), T[0], 1.0, 1e-14, "tangent of edge %d" % e)
        close(c.compute_normalized_edge_tangent(e), T[0] / np.linalg.norm(T[0]), 1.0, 1e-14, "unit tangent of edge %d" % e)
    if d == 2 and g.sd == 3:
        close(np.array(c.compute_face_tangents(e)), T, 1.0, 1e-14, "tangents of face %d" % e)
    if d >= 1:
        E = [v[j] - v[i] for i, j in itertools.combinations(range(d + 1), 2)]
        close(np.array(c.compute_face_edge_tangents(d, e)), np.array(E), 1.0, 1e-14, "edge tangents of entity %s" % ((d, e),))
    if facet:
        out = g.normal_outward(d, e)
        n = np.asarray(c.compute_normal(e), dtype=float)
        if name == "T":
            want = np.array([T[0][1], -T[0][0]]) / np.linalg.norm(T[0])
        elif name == "K":
            w = np.cross(T[0], T[1])
            want = -2 * w / np.linalg.norm(w)
        else:
            want = out
        close(n, want, 1.0, 1e-13, "normal of facet %d" % e)
        close(c.compute_scaled_normal(e), want * g.measure(d, e), 1.0, 1e-13, "scaled normal of facet %d" % e)
        close(c.compute_reference_normal(d, e), out / np.abs(out).max(), 1.0, 1e-13, "reference normal of facet %d" % e)
        if name != "dI":
            f = c.get_facet_element()
            close(np.array(f.get_vertices(), dtype=float).ravel(), cells.geo(g.sub_name(d)).verts.ravel(), 1.0, 0, "vertices of the facet element")
            require(type(f) is type(c.construct_subelement(d)), "facet element %s, construct_subelement gives %s", type(f), type(c.construct_subelement(d)))
        labels.add("facet")
    return labels if (d, e) != ents[-1] else None


def product_normal(parts, fs):
    out = []
    for f, (dd, ee) in zip(fs, parts):
        if cells.tsum(dd) == f.sd:
            out.append(np.zeros(f.sd))
        elif f.factors is None:
            n = f.normal_outward(dd, ee)
            out.append(n / np.abs(n).max())
        else:
            q = f if not f.flat else cells.Geo_product(f)
            key = f.unflat[dd, ee] if f.flat else (dd, ee)
            out.append(product_normal(q.entity_factors[key], q.factors))
    return np.concatenate(out)


def lattice(verts, n, interior):
    """Equally spaced points with every barycentric index at least `interior`, later directions varying slowest."""
    verts = np.asarray(verts, dtype=float)
    d = len(verts) - 1
    out = []
    for idx in itertools.product(range(n + 1), repeat=d):     # idx[0] is the slowest: the last direction
        lam = idx[::-1]
        if all(i >= interior for i in lam) and n - sum(lam) >= interior:
            out.append(verts[0] + sum(((verts[i + 1] - verts[0]) * (lam[i] / n) for i in range(d)), 0 * verts[0]))
    return np.array(out).reshape(-1, verts.shape[1])


def check_lattice(name, case):
    g = cells.geo(name)
    c = g.make()
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    k = case["k"]
    pts = c.make_points(d, e, k)
    got = np.array(pts, dtype=float).reshape(-1, g.sd)
    want = g.verts[list(g.topo[0][e])] if d == 0 else lattice(g.verts[list(g.topo[d][e])], k, 1)
    close(got, want, 1.0, 1e-13, "lattice of degree %d on entity %s" % (k, (d, e)))
    for p in pts:
        require(isinstance(p, tuple) and len(p) == g.sd, "lattice point %r", p)
    return {"lattice of dimension %d" % d} if len(got) else None


def check_make_lattice(case):
    from FIAT.reference_element import lattice_iter, make_lattice
    d, n, i = case["d"], case["n"], case["i"]
    V = np.array(case["v"][:(d + 1) * 3], dtype=float).reshape(d + 1, 3)[:, :case["g"]] / 8
    got = np.array(make_lattice([tuple(v) for v in V], n, i), dtype=float).reshape(-1, V.shape[1])
    close(got, lattice(V, n, i), 1.0 + np.abs(V).max(), 1e-13, "lattice of %d steps omitting %d layers" % (n, i))
    lo, hi = case["lo"], case["lo"] + n
    seq = [tuple(x) for x in lattice_iter(lo, hi, d)]
    want = [idx[::-1] for idx in itertools.product(range(lo, hi), repeat=d) if all(sum(idx[:j + 1]) < hi for j in range(d))]
    require(seq == want, "lattice_iter(%d, %d, %d) gives %s", lo, hi, d, seq[:20])
    return {"lattice"} if len(got) > 1 else None


def check_contains(name, case):
    g = cells.geo(name)
    c = g.make()
    x = [a / 64 for a in case["x"][:g.sd]]
    eps = case["eps"] / 64
    fs = cells.factor_names(name)
    pos, inside = 0, True
    for f in fs:
        k = cells.geo(f).sd
        y = x[pos:pos + k]
        inside = inside and min([1 - sum(y)] + y) >= -eps
        pos += k
    p = tuple(x) if case["kind"] == 0 else list(x) if case["kind"] == 1 else np.array(x)
    got = c.contains_point(p, epsilon=eps) if eps or case["eps"] == 0 and case["kw"] else c.contains_point(p)
    require(bool(got) == inside, "contains_point(%s, epsilon=%s) is %r", x, eps, got)
    return {"inside" if inside else "outside"}


def check_affine(case):
    from FIAT.reference_element import make_affine_mapping, volume
    d, m = case["d"], case["m"]
    X = np.array(case["x"][:(d + 1) * d], dtype=float).reshape(d + 1, d) / 8
    Y = np.array(case["y"][:(d + 1) * m], dtype=float).reshape(d + 1, m) / 8
    E = X[1:] - X[0]
    if abs(np.linalg.det(E)) < 0.05 * max(1e-3, np.linalg.norm(E, axis=1).max()) ** d or not np.any(E):
        return None
    A, b = make_affine_mapping([tuple(x) for x in X], [tuple(y) for y in Y])
    require(A.shape == (m, d) and b.shape == (m,), "shapes %s, %s", A.shape, b.shape)
    cond = np.linalg.cond(np.column_stack([X, np.ones(d + 1)]))
    close(X @ A.T + b, Y, (1 + np.abs(Y).max()) * cond, 1e-12, "images of the vertices")
    F = Y[1:] - Y[0]
    s = np.linalg.svd(F)[1] if m >= d else np.zeros(1)
    if m >= d and s.min() > 1e-3:
        v = np.prod(s) / math.factorial(d)
        close(volume([tuple(y) for y in Y]), v, v, 1e-11, "volume of simplex %s" % Y.tolist())
        # and the sum of the volumes of the pieces of a barycentric split
        c = Y.mean(axis=0)
        parts = sum(volume([tuple(c if j == i else Y[j]) for j in range(d + 1)]) for i in range(d + 1))
        close(parts, v, v, 1e-10, "volumes of the pieces")
    return {"map from dimension %d to %d" % (d, m)}


UFC_NAMES = {"P": "vertex", "I": "interval", "T": "triangle", "K": "tetrahedron", "Q": "quadrilateral", "H": "hexahedron"}


class Named:
    def __init__(self, n):
        self.n = n

    def cellname(self):
        return self.n


def same_cell(c, name, what):
    g = cells.geo(name)
    require(type(c) is type(g.make()), "%s is a %s", what, type(c).__name__)
    require(c == g.make(), "%s is not equal to a fresh copy", what)
    close(np.array(c.get_vertices(), dtype=float).reshape(len(g.verts), -1), g.verts, 1.0, 0, "vertices of " + what)
    require({d: {e: tuple(map(int, v)) for e, v in t.items()} for d, t in c.get_topology().items()} ==
            {d: dict(enumerate(t)) for d, t in g.topo.items()}, "%s has topology %s", what, c.get_topology())


def check_lookup(case):
    import FIAT
    from FIAT import reference_element as R
    fs = case["f"]
    name = fs[0] if len(fs) == 1 else "*".join(fs)
    text = " * ".join(UFC_NAMES[f] for f in fs)
    same_cell(R.ufc_cell(text), name, "ufc_cell(%r)" % text)
    same_cell(FIAT.ufc_cell(Named(text)), name, "ufc_cell of a cell named %r" % text)
    if len(fs) == 1 and fs[0] in "PITK":
        d = "PITK".index(fs[0])
        same_cell(R.ufc_simplex(d), fs[0], "ufc_simplex(%d)" % d)
        if d:
            same_cell(R.default_simplex(d), "d" + fs[0], "default_simplex(%d)" % d)
    c = R.ufc_cell(text)
    other = R.ufc_cell(" * ".join(UFC_NAMES[f] for f in case["g"]))
    require((c == other) == (fs == case["g"]), "cells %s and %s compare %s", fs, case["g"], c == other)
    require((c != other) == (fs != case["g"]), "cells %s and %s compare unequal %s", fs, case["g"], c != other)
    require(R.tuple_sum(c.get_dimension()) == cells.geo(name).sd, "dimension of %s is %s", name, c.get_dimension())
    return {"%d factors" % len(fs)}


def hyper(tree):
    """Name of a cell given as a nested list of factor names."""
    return tree if isinstance(tree, str) else "*".join(x if isinstance(x, str) else "(%s)" % hyper(x) for x in tree)


def check_flatten(case):
    from FIAT import reference_element as R
    name = hyper(case["t"])
    g = cells.geo(name)
    c = g.make()
    allcube = all(f in ("I", "dI") for f in cells.factor_names(name))
    require(bool(R.is_hypercube(c)) == allcube, "is_hypercube(%s) is %r", name, R.is_hypercube(c))
    if g.sd in (2, 3) and allcube:
        same_cell(R.flatten_reference_cube(c), "Q" if g.sd == 2 else "H", "flattened %s" % name)
    if g.sd == 1:
        require(R.flatten_reference_cube(c) is c or R.flatten_reference_cube(c) == c, "flattening a line changes it")
    topo = c.get_topology()
    flat = R.flatten_entities(topo)
    inv = R.compute_unflattening_map(topo)
    if g.factors is not None:
        want, num = {}, {}
        for d in sorted(g.topo):
            for e, v in enumerate(g.topo[d]):
                num[cells.tsum(d), len(want.setdefault(cells.tsum(d), []))] = (d, e)
                want[cells.tsum(d)].append(tuple(v))
        require({d: {e: tuple(map(int, v)) for e, v in t.items()} for d, t in flat.items()} == {d: dict(enumerate(t)) for d, t in want.items()},
                "flattened entities of %s are %s", name, flat)
        require(inv == num, "unflattening map of %s is %s", name, inv)
    return {"cube" if allcube else "not a cube"} if g.factors is not None else None


def strata(tier):
    out = []
    for c in ["P"] + SIMPLICES + PRODUCTS:
        n = len(cells.geo(c).entities())
        ent = st.integers(0, n - 1).map(lambda i: {"e": i})
        m = min(6 * n, 400)
        out.append(Stratum("topology " + c, lambda ent=ent: ent, lambda case, c=c: check_topology(c, case), n=(min(m, 60), m), cost=n / 9))
        if c != "P":
            out.append(Stratum("geometry " + c, lambda ent=ent: ent, lambda case, c=c: check_geometry(c, case), n=(min(m, 90), m), cost=n / 9))
    for c in SIMPLICES:
        s = lambda c=c: st.fixed_dictionaries({"e": st.integers(0, len(cells.geo(c).entities()) - 1), "k": st.integers(1, 9)})
        out.append(Stratum("lattice " + c, s, lambda case, c=c: check_lattice(c, case), n=(150, 800)))
    for c in ["I", "T", "K", "Q", "H", "I*I", "T*I", "I*T", "K*I", "(I*I)*I", "Q*T", "I*H", "T*T"]:
        s = lambda c=c: st.fixed_dictionaries({"x": st.one_of(st.lists(st.integers(-8, 80), min_size=6, max_size=6), st.lists(st.integers(-2, 34), min_size=6, max_size=6),
                                                              st.lists(st.sampled_from([0, 0, 64, 32, -1, 65, 16]), min_size=6, max_size=6)),
                                               "eps": st.integers(0, 4), "kind": st.integers(0, 2), "kw": st.booleans()})
        out.append(Stratum("contains " + c, s, lambda case, c=c: check_contains(c, case), n=(200, 2000)))
    ints = lambda n: st.lists(st.integers(-16, 16), min_size=n, max_size=n)
    out.append(Stratum("lattices of random simplices", lambda: st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries({
        "d": st.just(d), "n": st.integers(1, 7), "i": st.integers(0, 3), "g": st.integers(1, 3), "v": ints(12), "lo": st.integers(0, 2)})),
        check_make_lattice, n=(300, 3000)))
    out.append(Stratum("affine maps", lambda: st.fixed_dictionaries({"d": st.integers(1, 3), "m": st.integers(1, 3), "x": ints(12), "y": ints(12)}),
                       check_affine, n=(300, 3000)))
    size = {"P": 1, "I": 3, "T": 7, "K": 15, "Q": 9, "H": 27}      # keep the number of product entities moderate: their inclusions are quadratic
    fac = st.lists(st.sampled_from("PITKQH"), min_size=1, max_size=3).filter(lambda f: math.prod(size[x] for x in f) <= 140)
    out.append(Stratum("lookup by name", lambda: st.fixed_dictionaries({"f": fac, "g": fac}), check_lookup, n=(120, 800)))
    tree = st.recursive(st.sampled_from(["I", "I", "dI", "T", "P"]), lambda s: st.lists(s, min_size=2, max_size=3), max_leaves=4)
    out.append(Stratum("flattening", lambda: tree.map(lambda t: {"t": t}), check_flatten, n=(120, 800)))
    return out
