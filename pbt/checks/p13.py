"""P13: H(div) and H(curl) wrappers place the components of tensor-product elements."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from checks import p12
from core import Stratum, Violation
from fem import close, require

RULE = ("Strata: one per catalogued wrapped product, and families of randomly drawn factor pairs whose admissibility is decided from the form degrees of the factors. "
        "Each case draws (the factors,) an entity, points and a derivative order; the wrapped tables are compared with the independently "
        "built product's tables placed by an independent rule, the unwrapped element is compared with its state before "
        "wrapping, and inadmissible pairs and elements that are not tensor products must raise. Non-trivial: the tables are not all zero, or a rejection.")
ASSUMPTIONS = ["sign convention: an affine 0-form first factor gets -1 in the first component (H(div)); rotations are (x, y) -> (y, -x) for H(div), (-y, x) for H(curl)"]
DOC = {"Hdiv": "contravariant piola", "Hcurl": "covariant piola"}


def state(e):
    return ([(dict(n.get_point_dict() or {}), dict(n.deriv_dict or {}), n.get_type_tag()) for n in e.dual_basis()],
            {d: {i: list(v) for i, v in en.items()} for d, en in e.entity_dofs().items()},
            list(e.mapping()), tuple(e.value_shape()), e.get_formdegree(), e.space_dimension(), e.degree(), e.get_order())


def placed(kind, a, b, T):
    """Place the tables of the product of elements with the given configurations: independent of the wrapper.  None if no placement exists."""
    A, B = catalog.element(a), catalog.element(b)
    asd, bsd = cells.geo(catalog.cell_of(a)).sd, cells.geo(catalog.cell_of(b)).sd
    out = np.zeros((T.shape[0], asd + bsd, T.shape[-1]))
    maps = [A.mapping()[0], B.mapping()[0]]
    fa, fb = A.get_formdegree(), B.get_formdegree()
    if maps == ["affine", "affine"]:
        special = 0 if kind == "Hdiv" else 1
        if fa == special:
            out[:, 0] = -T if kind == "Hdiv" else T
        elif fb == special:
            out[:, -1] = T
        else:
            return None
        return out
    first = maps[0] != "affine"
    m = maps[0] if first else maps[1]
    sl = slice(0, asd) if first else slice(asd, asd + bsd)
    if m == DOC[kind]:
        out[:, sl] = T
        return out
    if T.shape[1] != 2 or (asd if first else bsd) != 2:
        return None
    out[:, sl] = np.stack([T[:, 1], -T[:, 0]], axis=1) if kind == "Hdiv" else np.stack([-T[:, 1], T[:, 0]], axis=1)
    return out


def admissible(kind, a, b):
    A, B = catalog.element(a), catalog.element(b)
    fa, fb = A.get_formdegree(), B.get_formdegree()
    if fa is None or fb is None:
        return False
    n = cells.geo(catalog.cell_of(a)).sd + cells.geo(catalog.cell_of(b)).sd
    return fa + fb == (n - 1 if kind == "Hdiv" else 1)


_wrapped = {}


def wrap_checked(kind, inner):
    """(original, wrapped); the original must be as it was, tables included."""
    import FIAT
    k = (kind, catalog.key(inner))
    if k not in _wrapped:
        if len(_wrapped) > 40:
            _wrapped.clear()
        orig = catalog.build(inner)
        g = cells.geo(catalog.cell_of(inner))
        pts = fem.as_points(cells.sample_points(g.name, 3))
        before, tab = state(orig), orig.tabulate(1, pts)
        w = getattr(FIAT, kind)(orig)
        require(w is not orig, "the wrapper returns the original element")
        w.tabulate(1, pts)
        require(state(orig) == before, "wrapping changes the original element")
        after = orig.tabulate(1, pts)
        for al in tab:
            require(np.array_equal(after[al], tab[al]), "wrapping changes the original element's tables")
        sd = g.sd
        require(tuple(w.value_shape()) == (sd,), "value shape %s on a cell of dimension %d", w.value_shape(), sd)
        require(list(w.mapping()) == [DOC[kind]] * orig.space_dimension(), "mapping %s", set(w.mapping()))
        require(w.space_dimension() == orig.space_dimension() == len(w.dual_basis()), "dimension %s", w.space_dimension())
        require({d: {i: list(v) for i, v in en.items()} for d, en in w.entity_dofs().items()} == before[1], "entity dofs of the wrapped element")
        require(w.entity_closure_dofs() == orig.entity_closure_dofs(), "closure dofs of the wrapped element")
        require(w.get_formdegree() == (sd - 1 if kind == "Hdiv" else 1), "form degree %s", w.get_formdegree())
        require(w.degree() == orig.degree(), "degree %s", w.degree())
        _wrapped[k] = (orig, w)
    return _wrapped[k]


def compare(kind, inner, case, wrapper=None):
    orig, w = wrap_checked(kind, inner)
    if wrapper is not None:
        w = wrapper
    g = cells.geo(catalog.cell_of(inner))
    ents = g.entities()
    d, i = ents[case["e"] % len(ents)]
    xs = cells.points(g.sub_name(d), case["p"])
    n = case["n"]
    ya, yb = p12.mapped(inner[1], inner[2], g.entity_factors[d, i], xs)
    base = p12.product_tables(inner[1], inner[2], n, ya, yb)
    whole = case.get("none") and d == g.dim
    want = {al: placed(kind, inner[1], inner[2], t) for al, t in base.items()}
    got = w.tabulate(n, xs) if whole else w.tabulate(n, xs, (d, i))
    require(all(t is not None for t in want.values()), "%s of a product without an admissible placement returns tables", kind)
    require(set(got) == set(want), "tables %s instead of %s", sorted(got), sorted(want))
    scale = max([1.0] + [np.abs(t).max() for t in want.values()])
    for al in want:
        close(got[al], want[al], scale, 1e-9, "derivative %s on entity %s" % (al, (d, i)))
    return {kind, "order %d" % n} | cells.point_classes(case["p"]) if any(np.abs(t).max() > 0 for t in want.values()) else None


def check_random(case):
    """Both wrappers applied to one randomly drawn product."""
    import FIAT
    a, b = case["f"]
    a, b = forms(a), forms(b)
    inner = ["TPE", a, b]
    lab = set()
    for kind in ("Hdiv", "Hcurl"):
        ok = admissible(kind, a, b)
        if ok:
            g = cells.geo(catalog.cell_of(inner))
            probe = np.zeros((1, 2, 1)) if (tuple(catalog.element(a).value_shape()) or tuple(catalog.element(b).value_shape())) else np.zeros((1, 1))
            vs = (tuple(catalog.element(a).value_shape()) or tuple(catalog.element(b).value_shape()))
            if placed(kind, a, b, np.zeros((1,) + vs + (1,))) is None:
                expect_error(lambda: getattr(FIAT, kind)(catalog.build(inner)).tabulate(0, fem.as_points(cells.sample_points(g.name, 1))),
                             "%s of a product without an admissible placement" % kind)
                lab.add(kind + " rejected")
                continue
            lab |= compare(kind, inner, case["x"]) or set()
            lab.add(kind + " accepted")
        else:
            expect_error(lambda: getattr(FIAT, kind)(catalog.build(inner)), "%s of a product with form degrees %s and %s" % (
                kind, catalog.element(a).get_formdegree(), catalog.element(b).get_formdegree()))
            lab.add(kind + " rejected")
    return lab


def forms(c):
    return c


def expect_error(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation("%s is accepted and returns %s" % (what, type(r).__name__))


NOT_PRODUCTS = [["Lagrange", "T", 1], ["RT", "T", 1, "point"], ["Flat", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]], ["S", "Q", 1], ["DPC", "Q", 1],
                ["Enriched", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]], ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]],
                ["Broken", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]], ["Lagrange", "I", 2], ["HDivTrace", "T", 1]]


def check_reject(case):
    import FIAT
    c = NOT_PRODUCTS[case["i"]]
    expect_error(lambda: getattr(FIAT, case["k"])(catalog.build(c)), "%s of %s" % (case["k"], catalog.label(c)))
    return "rejected"


def outer_check(cfg, case):
    """Catalogued configuration: strip flattening; enriched parts are compared one by one."""
    if cfg[0] in ("Hdiv", "Hcurl"):
        return compare(cfg[0], cfg[1], case)
    raise KeyError(cfg[0])


def wrapped_parts(cfg):
    if cfg[0] in ("Hdiv", "Hcurl"):
        yield cfg
    for c in cfg[1:]:
        if isinstance(c, list) and c and isinstance(c[0], str):
            yield from wrapped_parts(c)


def sub_forms(cell):
    """Factors on an interval covering 0-forms, 1-forms and unknown form degree."""
    return st.one_of(p12.lines(cell), st.sampled_from([["Form", ["Lagrange", cell, 2], 1], ["Form", ["DG", cell, 1], 0], ["Form", ["Bubble", cell, 2], 0],
                                                       ["Broken", ["Lagrange", cell, 2]], ["DTaylor", cell, 1]]))


def pair(kind):
    if kind == "I*I":
        return st.tuples(sub_forms("I"), p12.lines("I"))
    if kind == "I*dI":
        return st.tuples(p12.lines("I"), p12.lines("dI"))
    if kind in ("T*I", "iT*I"):
        return st.tuples(p12.tri_scalar(kind[:-2]), p12.lines("I"))
    if kind in ("Tvec*I", "dTvec*I"):
        return st.tuples(p12.tri_vector(kind[:-5]), p12.lines("I"))
    if kind == "I*T":
        return st.tuples(p12.lines("I"), p12.tri_pe("T"))
    if kind == "der*Tvec":
        H = ["RestrIdx", ["Hermite", "I", 3], [1, 3]]
        return st.tuples(st.sampled_from([["Form", H, 0], ["Broken", H], ["Form", H, 1]]), p12.tri_vector("T"))
    if kind == "Kvec*I":
        return st.tuples(p12.tet("vector"), p12.lines("I"))
    if kind == "K*I":
        return st.tuples(p12.tet("scalar"), p12.lines("I"))
    nest = st.tuples(st.just("TPE"), p12.small(), p12.small()).map(list)
    if kind == "(I*I)*I":
        return st.tuples(nest, p12.small())
    if kind == "I*(I*I)":
        return st.tuples(p12.small(), nest)
    if kind == "T*T":
        return st.tuples(st.one_of(p12.tri_scalar(), st.sampled_from([["RT", "T", 1, "integral"], ["RT", "T", 2, "integral"], ["N1", "T", 1, "integral"],
                                                                      ["BDM", "T", 1, "integral"]])), p12.tri_pe())
    if kind == "RTC*I":
        L, D = ["Lagrange", "I"], ["DG", "I"]
        rtc = st.tuples(st.sampled_from(["Hdiv", "Hcurl"]), st.integers(1, 2), st.booleans()).map(
            lambda t: ["Enriched", [t[0], ["TPE", L + [t[1]], D + [t[1] - 1]]], [t[0], ["TPE", D + [t[1] - 1], L + [t[1]]]]] if t[2]
            else [t[0], ["TPE", L + [t[1]], D + [t[1] - 1]]])
        return st.tuples(rtc, p12.small())
    raise KeyError(kind)


KINDS = {"I*I": "I*I", "I*dI": "I*dI", "T*I": "T*I", "iT*I": "iT*I", "Tvec*I": "T*I", "dTvec*I": "dT*I", "I*T": "I*T", "der*Tvec": "I*T", "Kvec*I": "K*I", "K*I": "K*I",
         "(I*I)*I": "(I*I)*I", "I*(I*I)": "I*(I*I)", "T*T": "T*T", "RTC*I": "(I*I)*I"}


def strata(tier):
    out, seen = [], set()
    for c in catalog.products(tier) + catalog.composites(tier):
        for s in wrapped_parts(c):
            k = catalog.key(s)
            if k in seen:
                continue
            seen.add(k)
            out.append(Stratum(catalog.label(s), lambda s=s: p12.on_entity(catalog.cell_of(s)), lambda case, s=s: outer_check(s, case), n=(25, 120), cost=fem.cost(s)))
    for kind, cell in KINDS.items():
        out.append(Stratum("random " + kind, lambda kind=kind, cell=cell: st.fixed_dictionaries({
            "f": pair(kind).map(list), "x": p12.on_entity(cell, 3, 1 if kind[0] == "K" or kind == "T*T" else 2)}), check_random, n=(100, 600), cost=4.0))
    out.append(Stratum("not a product", st.fixed_dictionaries({"i": st.integers(0, len(NOT_PRODUCTS) - 1), "k": st.sampled_from(["Hdiv", "Hcurl"])}), check_reject, n=(20, 30)))
    return out
