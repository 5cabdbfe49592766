"""P14: enriched, nodal enriched, restricted, mixed, broken and bubble elements agree with their parts."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from checks.p01 import active, node_matrix
from core import Stratum, Violation
from fem import close, require

RULE = ("Strata: one per catalogued composite, and families of randomly drawn composites (parts, degrees, index sets, restriction domains and one or two levels of nesting "
        "drawn per case). Each case draws an entity, points on it and a derivative order; every table is compared with the combination "
        "of the tables of separately built parts, and entity numbering, nodes, value shape, mapping, form degree, degree and dimension with those of the parts. "
        "Non-trivial: the tables are not all zero.")
ASSUMPTIONS = ["the original order of a restricted element's degrees of freedom is the order of the original's entities (dimension, number, position), "
               "which is its numbering for all elements numbered entity by entity"]


def parts_of(cfg):
    fam = cfg[0]
    if fam in ("Enriched", "Nodal", "Mixed"):
        return cfg[1:]
    if fam in ("Bubble", "FacetBubble"):
        return [["Lagrange", cfg[1], cfg[2]]]
    return [cfg[1]]


def selection(cfg):
    """Dof numbers of the original element kept by a restriction, in the original order."""
    o = parts_of(cfg)[0]
    ids = catalog.element(o).entity_dofs()
    g = cells.geo(catalog.cell_of(cfg))
    walk = [(d, e, x) for d in sorted(ids) for e in sorted(ids[d]) for x in ids[d][e]]
    fam = cfg[0]
    if fam == "RestrIdx":
        keep = lambda d, e, x: x in cfg[2]
    elif fam == "Bubble":
        keep = lambda d, e, x: d == g.sd
    elif fam == "FacetBubble":
        keep = lambda d, e, x: d == g.sd - 1
    elif cfg[2] == "interior":
        keep = lambda d, e, x: d == g.sd
    else:
        top = {"vertex": 0, "edge": 1, "face": 2, "facet": g.sd - 1}[cfg[2]]
        keep = lambda d, e, x: d <= top
    return [(d, e, x) for d, e, x in walk if keep(d, e, x)]


def tables(cfg, n, pts):
    return {a: np.asarray(t, dtype=float) for a, t in catalog.element(cfg).tabulate(n, fem.as_points(pts)).items()}


def expected(cfg, n, pts):
    fam = cfg[0]
    P = [tables(p, n, pts) for p in parts_of(cfg)]
    if fam == "Broken":
        return P[0]
    if fam in ("Restr", "RestrIdx", "Bubble", "FacetBubble"):
        rows = [x for _, _, x in selection(cfg)]
        return {a: t[rows] for a, t in P[0].items()}
    if fam == "Mixed":
        return {a: fem.block([t[a] for t in P]) for a in P[0]}
    cat = {a: np.concatenate([t[a] for t in P]) for a in P[0]}
    if fam == "Enriched":
        return cat
    assert fam == "Nodal"
    # the combination dual to the concatenated nodes
    M = nodal_combination(cfg)
    return {a: np.tensordot(M, t, (1, 0)) for a, t in cat.items()}


class _Parts:
    """Concatenated parts, as node_matrix wants them."""

    def __init__(self, cfg):
        F = fem.fe(cfg, False)
        self.sd, self.zero, self.vs = F.sd, F.zero, F.vs


_nodal = {}


def nodal_combination(cfg):
    k = catalog.key(cfg)
    if k not in _nodal:
        if len(_nodal) > 30:
            _nodal.clear()
        terms = [active(nd) for p in parts_of(cfg) for nd in catalog.element(p).dual_basis()]

        def ev(pts, a):
            return np.concatenate([tables(p, sum(a), pts)[a] for p in parts_of(cfg)])
        D = node_matrix(_Parts(cfg), terms, ev)      # node i applied to part function j
        _nodal[k] = np.linalg.inv(D).T
    return _nodal[k]


def facts(cfg):
    """Static comparison of the composite with its parts."""
    fam = cfg[0]
    e = catalog.element(cfg)
    P = [catalog.element(p) for p in parts_of(cfg)]
    ids = {d: {i: [int(x) for x in v] for i, v in en.items()} for d, en in e.entity_dofs().items()}
    g = cells.geo(catalog.cell_of(cfg))
    nodes = e.dual_basis()
    empty = {d: {i: [] for i in range(len(v))} for d, v in g.topo.items()}
    pids = [p.entity_dofs() for p in P]
    require(e.get_reference_element() == P[0].get_reference_element(), "reference cell differs from the parts'")

    def same(nd, want):
        return nd is want or (nd.get_point_dict() == want.get_point_dict() and nd.deriv_dict == want.deriv_dict and nd.get_type_tag() == want.get_type_tag())

    if fam in ("Enriched", "Nodal", "Mixed"):
        off, want = 0, empty
        for p, pi in zip(P, pids):
            for d in pi:
                for i in pi[d]:
                    want[d][i] = want[d][i] + [int(x) + off for x in pi[d][i]]
            off += p.space_dimension()
        require(ids == want, "entity dofs %s instead of the concatenation %s", ids, want)
        wn = [nd for p in P for nd in p.dual_basis()]
        require(e.space_dimension() == off == len(nodes) == len(wn), "dimension %s of parts of dimension %s", e.space_dimension(), [p.space_dimension() for p in P])
        require(all(same(a, b) for a, b in zip(nodes, wn)), "degrees of freedom are not the concatenation of the parts'")
        require(list(e.mapping()) == [m for p in P for m in p.mapping()], "mapping %s", e.mapping())
        if fam == "Mixed":
            require(tuple(e.value_shape()) == (sum(int(np.prod(p.value_shape())) for p in P),), "value shape %s", e.value_shape())
            require(list(e.elements()) == list(e.elements()) and len(e.elements()) == len(P) == e.num_sub_elements(), "sub-elements")
            require(e.is_nodal() == all(p.is_nodal() for p in P), "is_nodal() %s", e.is_nodal())
        else:
            require(tuple(e.value_shape()) == tuple(P[0].value_shape()), "value shape %s", e.value_shape())
            require(e.degree() == max(p.degree() for p in P), "degree %s of parts of degree %s", e.degree(), [p.degree() for p in P])
            fd = [p.get_formdegree() for p in P]
            require(e.get_formdegree() == (None if None in fd else max(fd)), "form degree %s of parts with %s", e.get_formdegree(), fd)
            require(e.is_nodal() is (fam == "Nodal"), "is_nodal() %s", e.is_nodal())
        return
    o = P[0]
    require(tuple(e.value_shape()) == tuple(o.value_shape()), "value shape %s", e.value_shape())
    if fam == "Broken":
        top = max(g.topo)
        empty[top][0] = list(range(o.space_dimension()))
        require(ids == empty, "entity dofs %s of a broken element", ids)
        require(e.space_dimension() == o.space_dimension() == len(nodes), "dimension %s", e.space_dimension())
        require(all(same(a, b) for a, b in zip(nodes, o.dual_basis())), "degrees of freedom differ from the original's")
        require(list(e.mapping()) == list(o.mapping()), "mapping %s", e.mapping())
        require(e.get_formdegree() == g.sd, "form degree %s", e.get_formdegree())
        if hasattr(o, "degree"):
            require(e.degree() == o.degree(), "degree %s of a broken element of degree %s", e.degree(), o.degree())
        require(e.is_nodal() == o.is_nodal(), "is_nodal() %s", e.is_nodal())
        return
    sel = selection(cfg)
    for k, (d, i, x) in enumerate(sel):
        empty[d][i] = empty[d][i] + [k]
    require(ids == empty, "entity dofs %s instead of %s", ids, empty)
    require(e.space_dimension() == len(sel) == len(nodes), "dimension %s instead of %d", e.space_dimension(), len(sel))
    require(all(same(nd, o.dual_basis()[x]) for nd, (_, _, x) in zip(nodes, sel)), "degrees of freedom are not the selected ones of the original")
    require(list(e.mapping()) == [o.mapping()[x] for _, _, x in sel], "mapping %s", e.mapping())
    require(e.degree() == o.degree(), "degree %s of a restriction of an element of degree %s", e.degree(), o.degree())
    require(e.get_formdegree() == o.get_formdegree(), "form degree %s", e.get_formdegree())
    require(e.is_nodal() is True, "is_nodal() %s", e.is_nodal())


_facts = set()


def compare(cfg, case):
    k = catalog.key(cfg)
    if k not in _facts:
        facts(cfg)
        _facts.add(k)
    E = catalog.element(cfg)
    g = cells.geo(catalog.cell_of(cfg))
    ents = g.entities()
    d, i = ents[case["e"] % len(ents)]
    xs = cells.points(g.sub_name(d), case["p"])
    n = case["n"]
    want = expected(cfg, n, [g.map_entity(d, i, x) for x in xs])
    whole = case.get("none") and cells.tsum(d) == g.sd
    got = E.tabulate(n, xs) if whole else E.tabulate(n, xs, (d, i))
    require(set(got) == set(want), "tables %s instead of %s", sorted(got), sorted(want))
    for al in want:
        t = want[al]
        close(got[al], t, max(1.0, np.abs(t).max()), 1e-7 if fem.contains(cfg, ("Nodal",)) else 1e-9, "derivative %s on entity %s" % (al, (d, i)))
    if not any(np.abs(t).max() > 1e-12 for t in want.values()):
        return None
    return {cfg[0], "order %d" % n, "entity of dimension %s" % cells.tsum(d)} | cells.point_classes(case["p"])


# ------------------------------------------------------------------ random composites

def scalars(cell):
    """Nodal scalar elements with an affine map on a simplex (with a polynomial-set basis)."""
    d = catalog.sd[cell]
    hi = {1: 5, 2: 3, 3: 2}[d]
    opts = [st.tuples(st.just("Lagrange"), st.just(cell), st.integers(1, hi)), st.tuples(st.just("DG"), st.just(cell), st.integers(0, hi - 1)),
            st.tuples(st.just("Bubble"), st.just(cell), st.integers(d + 1, d + 2)), st.sampled_from([("P0", cell), ("Hermite", cell, 3)]),
            st.tuples(st.just("DTaylor"), st.just(cell), st.integers(0, 2))]
    if d > 1:
        opts += [st.just(("CR", cell, 1)), st.tuples(st.just("FacetBubble"), st.just(cell), st.integers(d, d + 1))]
    else:
        opts += [st.tuples(st.sampled_from(["GL", "GR"]), st.just(cell), st.integers(0, 4)), st.tuples(st.just("GLL"), st.just(cell), st.integers(1, 5))]
    return st.one_of(*opts).map(list)


def vectors(cell, kind):
    fams = ("RT", "BDM") if kind == "con" else ("N1", "N2")
    hi = 2 if catalog.sd[cell] == 2 else 1
    o = [st.tuples(st.just(f), st.just(cell), st.integers(1, hi), st.sampled_from(["point", "integral"])) for f in fams]
    if kind == "con":
        o.append(st.tuples(st.just("DRT"), st.just(cell), st.integers(1, hi)))
        if catalog.sd[cell] == 2:
            o.append(st.just(("BDFM", cell, 2)))
    return st.one_of(*o).map(list)


def tensors(cell, kind):
    if kind == "dcov":
        return st.tuples(st.just("Regge"), st.just(cell), st.integers(0, 1)).map(list)
    return st.tuples(st.just("HHJ"), st.just(cell), st.integers(0, 2)).map(list)


def base(cell, kind):
    if kind == "affine":
        return scalars(cell)
    if kind in ("con", "cov"):
        return vectors(cell, kind)
    return tensors(cell, kind)


def dim(cfg):
    """Number of degrees of freedom without building the element."""
    if cfg[0] == "Restr":
        return len(catalog.element(cfg).dual_basis())
    n = fem.space_dim(cfg)
    return n if n is not None else catalog.element(cfg).space_dimension()


def restricted(base):
    """Random index subsets (in any order) and domains of an element."""
    def idx(c):
        n = dim(c)
        return st.permutations(list(range(n))).flatmap(lambda p: st.integers(1, n).map(lambda m: ["RestrIdx", c, list(p[:m])]))
    def dom(c):
        return st.sampled_from(["interior", "facet", "face", "edge", "vertex"]).map(lambda s: ["Restr", c, s])
    return base.flatmap(lambda c: st.one_of(idx(c), idx(c), dom(c)))


def legal_restriction(c):
    """Whether a domain restriction leaves anything, from the original's entity dofs."""
    if c[0] != "Restr":
        return True
    g = cells.geo(catalog.cell_of(c))
    if c[2] == "face" and g.sd < 2 or c[2] == "edge" and g.sd < 1:
        return False
    return len(selection(c)) > 0


def nodal_parts(cell, kind):
    """Linearly independent parts: disjoint selections of one element, or facet functions of one degree with bubbles of another."""
    def split(c):
        n = dim(c)
        return st.tuples(st.permutations(list(range(n))), st.integers(1, max(1, n - 1)), st.integers(1, 3)).map(
            lambda t: ["Nodal"] + [["RestrIdx", c, list(q)] for q in (t[0][:t[1]], t[0][t[1]:t[1] + t[2]], t[0][t[1] + t[2]:]) if len(q)])
    opts = [base(cell, kind).flatmap(split)]
    d = catalog.sd[cell]
    if kind == "affine":
        opts.append(st.tuples(st.integers(1, 3), st.integers(d + 1, d + 2), st.booleans()).map(
            lambda t: ["Nodal"] + ([["Restr", ["Lagrange", cell, t[0]], "facet"], ["Bubble", cell, t[1]]][::1 if t[2] else -1])))
        opts.append(st.tuples(st.integers(1, d), st.integers(d + 1, d + 2), st.booleans()).map(
            lambda t: ["Nodal"] + ([["Lagrange", cell, t[0]], ["Bubble", cell, t[1]]][::1 if t[2] else -1])))
    return st.one_of(*opts)


def make(cell, kind, what):
    b = base(cell, kind)
    if what == "restricted":
        one = restricted(b)
        deep = restricted(restricted(b).filter(legal_restriction))
        return st.one_of(one, one, deep).filter(legal_restriction)
    simple = st.one_of(b, b, restricted(b).filter(legal_restriction), b.map(lambda c: ["Broken", c]))
    if kind == "affine":
        simple = st.one_of(simple, st.tuples(st.just("Bernstein"), st.just(cell), st.integers(1, 3)).map(list))
    enr = st.lists(simple, min_size=1, max_size=3).map(lambda l: ["Enriched"] + l)
    if what == "enriched":
        return st.one_of(enr, st.lists(st.one_of(simple, enr), min_size=2, max_size=3).map(lambda l: ["Enriched"] + l))
    if what == "nodal":
        n = nodal_parts(cell, kind)
        return st.one_of(n, n, restricted(n), n.map(lambda c: ["Enriched", c]), n.map(lambda c: ["Broken", c])).filter(legal_restriction)
    if what == "broken":
        return st.one_of(simple, enr, nodal_parts(cell, kind)).map(lambda c: ["Broken", c])
    raise KeyError(what)


def mixed(cell):
    d = catalog.sd[cell]
    kinds = ["affine"] + (["con", "cov"] if d > 1 else []) + (["dcov"] if d > 1 else []) + (["dcon"] if d == 2 else [])
    part = st.sampled_from(kinds).flatmap(lambda k: st.one_of(base(cell, k), base(cell, k), make(cell, k, "enriched"), make(cell, k, "restricted")))
    m = st.lists(part, min_size=1, max_size=3).map(lambda l: ["Mixed"] + l)
    return st.one_of(m, m, st.tuples(part, m).map(lambda t: ["Mixed", t[1], t[0]]), m.map(lambda c: ["Broken", c]) if False else m)


def product_composites(cell):
    """Composites of tensor-product elements on one product cell (affine scalar parts)."""
    from checks import p12
    if cell == "I*I":
        p = st.tuples(p12.lines(), p12.lines()).map(lambda t: ["TPE", t[0], t[1]])
    elif cell == "T*I":
        p = st.tuples(p12.tri_scalar(), p12.small()).map(lambda t: ["TPE", t[0], t[1]])
    elif cell == "Q":
        p = st.tuples(p12.small(), p12.small()).map(lambda t: ["Flat", ["TPE", t[0], t[1]]])
    else:
        p = st.tuples(p12.small(), p12.small(), p12.small()).map(lambda t: ["Flat", ["TPE", ["TPE", t[0], t[1]], t[2]]])
    s = st.one_of(p, p, p.map(lambda c: ["Broken", c]))
    enr = st.lists(s, min_size=1, max_size=3).map(lambda l: ["Enriched"] + l)
    return st.one_of(enr, st.lists(st.one_of(s, enr), min_size=1, max_size=3).map(lambda l: ["Mixed"] + l), enr.map(lambda c: ["Broken", c]))


def on_entity(name):
    from checks import p12
    return p12.on_entity(name, 3, 2)


def check_random(case):
    return compare(case["c"], case["x"])


def selector():
    """FIAT's selection of degrees of freedom by domain, for elements that cannot be restricted as a whole (products); None if it is organised otherwise."""
    import inspect

    import FIAT.restricted
    f = getattr(FIAT.restricted, "_get_indices", None)
    return f if f is not None and list(inspect.signature(f).parameters) == ["element", "restriction_domain"] else None


def check_selection(case):
    cfg, domain = case["c"], case["domain"]
    f = selector()
    if f is None:
        return None
    e = catalog.element(cfg)
    g = cells.geo(catalog.cell_of(cfg))
    ids = e.entity_dofs()
    top = {"vertex": 0, "edge": 1, "face": 2, "facet": g.sd - 1}
    want = sorted(i for d in ids for k in ids[d] for i in ids[d][k] if (cells.tsum(d) == g.sd if domain == "interior" else cells.tsum(d) <= top[domain]))
    got = list(f(e, domain))
    require(sorted(got) == want, "degrees of freedom %s restricted to '%s', instead of %s", got, domain, want)
    return {"selection on a product", domain} if want else None


def selections():
    line = st.one_of(st.tuples(st.sampled_from(["Lagrange", "GLL"]), st.just("I"), st.integers(1, 4)), st.tuples(st.just("DG"), st.just("I"), st.integers(0, 3)))
    tri = st.one_of(st.tuples(st.just("Lagrange"), st.just("T"), st.integers(1, 4)), st.tuples(st.just("DG"), st.just("T"), st.integers(0, 2)),
                    st.tuples(st.sampled_from(["RT", "N1"]), st.just("T"), st.integers(1, 2), st.just("point")), st.just(("CR", "T", 1)))
    sca = st.one_of(st.tuples(st.just("Lagrange"), st.just("T"), st.integers(1, 4)), st.tuples(st.just("DG"), st.just("T"), st.integers(0, 2)), st.just(("CR", "T", 1)))
    tet = st.tuples(st.just("Lagrange"), st.just("K"), st.integers(1, 4))
    c = st.one_of(st.tuples(line, line), st.tuples(tri, line), st.tuples(line, sca), st.tuples(sca, sca), st.tuples(tet, line)).map(lambda t: ["TPE", list(t[0]), list(t[1])])
    return st.fixed_dictionaries({"c": c, "domain": st.sampled_from(["interior", "vertex", "edge", "face", "facet"])})


def strata(tier):
    out = [Stratum("selection on products", selections, check_selection, n=(60, 400), cost=2.0)]
    bubbles = [c for c in catalog.basic(tier) if c[0] in ("Bubble", "FacetBubble")]
    for c in catalog.composites(tier) + bubbles:
        out.append(Stratum(catalog.label(c), lambda c=c: on_entity(catalog.cell_of(c)), lambda case, c=c: compare(c, case), n=(15, 80), cost=fem.cost(c)))
    rnd = [(c, k, w) for c in ("I", "T", "iT") for k in (("affine", "con", "cov", "dcov", "dcon") if c != "I" else ("affine",))
           for w in ("restricted", "enriched", "nodal", "broken")]
    rnd += [("K", k, w) for k in ("affine", "con", "cov", "dcov") for w in ("restricted", "enriched", "nodal")]
    rnd += [("dI", "affine", "nodal"), ("dT", "affine", "restricted"), ("dT", "con", "nodal"), ("dK", "affine", "nodal")]
    for c, k, w in rnd:
        heavy = catalog.sd[c] == 3
        out.append(Stratum("random %s %s %s" % (w, k, c), lambda c=c, k=k, w=w: st.fixed_dictionaries({"c": make(c, k, w), "x": on_entity(c)}), check_random,
                           n=(20 if heavy else 40, 150 if heavy else 300), cost=8.0 if heavy else 4.0))
    for c in ("I", "T", "dT", "K"):
        out.append(Stratum("random mixed %s" % c, lambda c=c: st.fixed_dictionaries({"c": mixed(c), "x": on_entity(c)}), check_random,
                           n=(25 if c == "K" else 50, 200), cost=8.0))
    for c in ("I*I", "T*I", "Q", "H"):
        out.append(Stratum("random on products %s" % c, lambda c=c: st.fixed_dictionaries({"c": product_composites(c), "x": on_entity(c)}), check_random, n=(40, 300), cost=4.0))
    return out
