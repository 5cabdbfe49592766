"""P23: tables at symbolic points are expressions for the tables at numeric points."""
import math

import numpy as np
import sympy
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import close, require

RULE = ("One stratum per element configuration. Each case draws the kind of symbolic points (symbols, components of a deferred vector, affine expressions, coordinates or "
        "points partly numeric), their container, an entity, a derivative order and the numbers substituted for the symbols (interior, boundary, vertex, exterior points); "
        "tables at the symbolic points, evaluated at the numbers, are compared with tables at the numeric points. Non-trivial: the expressions depend on the symbols.")
SYM = sympy.symbols("X0:6")
VEC = sympy.DeferredVector("X")


def coordinates(kind, d):
    """Symbols for the coordinates of a point in d dimensions and the argument names for lambdify."""
    if kind == "vector":
        return [VEC[i] for i in range(d)], VEC
    return list(SYM[:d]), SYM[:d]


def evaluator(table, names, vec):
    """Function evaluating all entries of a table at numbers for the symbols."""
    entries = list(np.asarray(table).ravel())
    f = sympy.lambdify(names, entries, modules="math")
    return lambda x: np.array([float(v) for v in (f(x) if vec else f(*x))]).reshape(np.shape(table))


def check(cfg, case):
    F = fem.fe(cfg, False)
    g = F.geo
    ents = g.entities()
    d, e = ents[case["e"]]
    name = g.sub_name(d)
    dim = cells.tsum(d)
    kind = case["kind"]
    sym, names = coordinates(kind, dim)
    subst = cells.points(name, case["x"])           # numbers for the symbols
    others = cells.points(name, case["p"])          # numeric points tabulated along with the symbolic one
    lam = case["lam"]
    if kind == "affine":        # the symbols moved towards a numeric point
        base = cells.points(name, case["b"])[0]
        at = [lam * s + (1 - lam) * c for s, c in zip(sym, base)]
        real = [tuple(lam * s + (1 - lam) * c for s, c in zip(x, base)) for x in subst]
    elif kind == "partly":      # one coordinate a number
        j = case["e"] % dim
        c = cells.points(name, case["b"])[0][j]
        at = [c if k == j else s for k, s in enumerate(sym)]
        real = [tuple(c if k == j else s for k, s in enumerate(x)) for x in subst]
    else:
        at, real = list(sym), subst
    pts = [tuple(at)] + list(others) if case["first"] else list(others) + [tuple(at)]
    pos = 0 if case["first"] else len(others)
    how = case["how"]
    given = pts if how == 0 else [list(p) for p in pts] if how == 1 else np.array(pts, dtype=object)
    n = case["n"]
    entity = (d, e) if case["sub"] else None
    tab = F.element.tabulate(n, given, entity)
    require(set(tab) == set(fem.multi(F.sd, n)), "tables %s", sorted(tab))
    dep = False
    fs = {a: evaluator(tab[a], names, kind == "vector") for a in tab}
    for x, y in zip(subst, real):
        num = F.element.tabulate(n, [y if k == pos else p for k, p in enumerate(pts)], entity)
        for a in tab:
            want = np.asarray(num[a], dtype=float)
            require(np.shape(tab[a]) == want.shape, "table %s of shape %s, with numbers %s", a, np.shape(tab[a]), want.shape)
            got = fs[a](x)
            close(got, want, max(1.0, np.abs(want).max()), 1e-8, "derivative %s with %s for the symbols" % (a, x))
    for a in tab:
        free = set().union(*[getattr(v, "free_symbols", set()) for v in np.asarray(tab[a], dtype=object).ravel()])
        if kind != "vector":
            require(free <= set(sym), "symbols %s in table %s", free, a)
        dep = dep or bool(free)
    return {"%s points" % kind, "order %d" % n, "on the cell" if entity is None else "on an entity"} | cells.point_classes(case["x"]) if dep else None


def orders(cfg):
    """Derivative orders for which the expressions stay manageable."""
    F = fem.fe(cfg, False)
    size = F.element.space_dimension() * int(np.prod(F.element.value_shape())) * highest(cfg)
    return [0] + [n for n in (1, 2) if size * math.comb(n + F.sd, n) <= 400]


def strategy(cfg):
    g = cells.geo(catalog.cell_of(cfg))
    ents = g.entities()
    names = [g.sub_name(d) for d, e in ents]
    cell = [i for i, (d, e) in enumerate(ents) if cells.tsum(d) == g.sd]
    subs = [i for i, (d, e) in enumerate(ents) if cells.tsum(d)]
    choice = st.one_of(st.just((False, cell[0])), st.sampled_from([(True, i) for i in subs]))
    ns = orders(cfg)

    def rest(c):
        sub, i = c
        return st.fixed_dictionaries({
            "sub": st.just(sub), "e": st.just(i), "kind": st.sampled_from(["symbols", "symbols", "vector", "affine", "partly"]), "how": st.integers(0, 2),
            "x": cells.points_strategy(names[i], 1, 3), "p": cells.points_strategy(names[i], 0, 2), "b": cells.points_strategy(names[i], 1, 1, False),
            "lam": st.sampled_from([0.5, 2, -1, 0.25]), "first": st.booleans(), "n": st.sampled_from(ns)})
    return choice.flatmap(rest)


def highest(cfg):
    """Largest number of polynomials of an element's degree on a simplex."""
    subs = [c for c in cfg[1:] if isinstance(c, list) and c and isinstance(c[0], str)]
    if subs:
        return max(highest(c) for c in subs)
    k = cfg[2] if len(cfg) > 2 and isinstance(cfg[2], int) else 1
    k = {"Argyris": 5, "Bell": 5, "QArgyris": 5, "AW": 3, "AWnc": 2, "MTW": 3, "Hermite": 3, "Morley": 2}.get(cfg[0], k)
    d = cells.geo(cfg[1]).sd
    return math.comb(k + d, d)


def usable(cfg, q):
    """Not the families evaluated by barycentric interpolation; degrees at which the expressions stay manageable."""
    many = fem.contains(cfg, ("RT", "N1", "BDM", "N2", "DRT", "HHJ", "FacetBubble"))
    return not fem.contains(cfg, ("GL", "GLL")) and highest(cfg) <= ((8 if many else 15) if q else 21) and fem.cost(cfg) < (3 if q else 8)


def differ(cfgs):
    """One configuration for each family, degree and shape of cell: neither variants nor the mapped copies of a cell change the expressions."""
    seen = set()
    for c in cfgs:
        k = (c[0], c[1].lstrip("di") if isinstance(c[1], str) else catalog.label(c), c[2] if len(c) > 2 and isinstance(c[2], int) else 0)
        if k not in seen:
            seen.add(k)
            yield c


def strata(tier):
    q = tier == "quick"
    tall = [catalog.key(c) for c in catalog.tall(tier)]
    basic = [c for c in catalog.basic(tier) if catalog.key(c) not in tall]
    all_ = (list(differ(basic)) if q else basic) + catalog.products(tier) + catalog.composites(tier)
    return [Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(4, 30), cost=highest(c) * fem.cost(c)) for c in all_ if usable(c, q)]
