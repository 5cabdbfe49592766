"""P07: entity-to-dof maps partition the degrees of freedom; closures and supports are true."""
import collections

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import require

RULE = ("One stratum per element configuration. Each case draws an entity of the reference cell and points in its own reference "
        "coordinates; the entity's closure and support lists are compared with the independent topology and with the basis functions' values "
        "on the entity. Keys and partition are checked per configuration. Non-trivial: a proper sub-entity, or "
        "a support list that is neither empty nor everything.")
ASSUMPTIONS = ["a basis function counts as vanishing on an entity if its largest sampled value there is below 1e-9, as supported if above 1e-5 "
               "(relative to its largest coefficient on the cell, at least 1e-6); nothing in between occurs"]


def kind(g, d, e):
    return g.unflat[d, e][0] if g.flat else d


class Map:
    def __init__(self, cfg):
        self.cfg = cfg
        trace = fem.contains(cfg, ("HDivTrace",))
        self.F = F = fem.fe(cfg, not trace)
        e, g = F.element, F.geo
        self.trace = trace
        ids = e.entity_dofs()
        require(fem.contains(cfg, ("S",)) or e.get_dual_set().get_entity_ids() == ids, "dual set and element report different entity dofs")
        topo = {d: list(range(len(v))) for d, v in g.topo.items()}
        require({cells.totuple(d): sorted(v) for d, v in ids.items()} == topo, "entities %s instead of %s",
                {d: sorted(v) for d, v in ids.items()}, topo)
        alld = [int(x) for d in ids for en in ids[d] for x in ids[d][en]]
        require(sorted(alld) == list(range(F.n)), "entity dofs %s do not partition 0..%d", sorted(alld), F.n - 1)
        if not fem.contains(cfg, ("RestrIdx",)):
            counts = collections.defaultdict(set)
            for d, en in g.entities():
                counts[kind(g, d, en)].add(len(ids[d][en]))
            for k, v in counts.items():
                require(len(v) == 1, "entities of kind %s carry %s degrees of freedom", k, sorted(v))
        closure = e.entity_closure_dofs()
        require({cells.totuple(d): sorted(v) for d, v in closure.items()} == topo, "closure entities %s", closure)
        self.ids, self.closure = ids, closure
        self.big = None if trace else np.maximum(1e-6, np.abs(F.coef).reshape(F.n, -1).max(axis=1))
        self.supports = {}

    def support(self, d):
        if d not in self.supports:
            import FIAT
            fsup = FIAT.finite_element.entity_support_dofs
            self.supports[d] = fsup(self.F.element, d)
        return self.supports[d]


_maps = {}


def themap(cfg):
    k = catalog.key(cfg)
    if k not in _maps:
        _maps.clear()
        _maps[k] = Map(cfg)
    return _maps[k]


def check(cfg, case):
    M = themap(cfg)
    F, g = M.F, M.F.geo
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    vs = set(g.topo[d][e])
    expect = sorted(int(x) for dd, ee in ents if set(g.topo[dd][ee]) <= vs for x in M.ids[dd][ee])
    got = [int(x) for x in M.closure[d][e]]
    require(sorted(got) == expect, "closure of entity %s: %s instead of %s", (d, e), got, expect)
    if M.trace or not hasattr(F.element, "degree"):
        return {"entity of dimension %s" % cells.tsum(d)}
    sup = M.support(d)
    require(sorted(sup) == list(range(len(g.topo[d]))), "support entities %s", sorted(sup))
    s = [int(x) for x in sup[e]]
    require(len(s) == len(set(s)), "support of %s repeats: %s", (d, e), s)
    sub = g.sub_name(d)
    xs = cells.sample_points(sub, 12 if cells.tsum(d) else 1)
    xs = [g.map_entity(d, e, x) for x in xs]
    vals = np.abs(F.vals(xs)).reshape(F.n, -1).max(axis=1) / M.big
    case_pts = [g.map_entity(d, e, x) for x in cells.points(sub, case["p"])] if cells.tsum(d) else xs
    direct = np.abs(F.tab(case_pts)).reshape(F.n, -1).max(axis=1) / M.big
    for i in range(F.n):
        if i in s:
            require(vals[i] > 1e-9, "basis function %d is listed as supported on entity %s but vanishes there", i, (d, e))
        else:
            require(direct[i] < 1e-6 and vals[i] < 1e-6, "basis function %d is not listed as supported on entity %s but takes the value %.3g",
                    i, (d, e), max(direct[i], vals[i]))
    if cells.tsum(d) == F.sd and len(s) in (0, F.n):
        return None
    return {"entity of dimension %s" % cells.tsum(d)} | ({"partial support"} if 0 < len(s) < F.n else set())


def strategy(cfg):
    g = cells.geo(catalog.cell_of(cfg))
    ents = g.entities()

    def rest(i):
        d, e = ents[i]
        return st.fixed_dictionaries({"e": st.just(i), "p": cells.points_strategy(g.sub_name(d), 1, 3, outside=False)})
    return st.integers(0, len(ents) - 1).flatmap(rest)


def strata(tier):
    out = [Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(12, 40), cost=fem.cost(c))
           for c in {catalog.key(c): c for c in catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier) + traces(tier) + small(tier)}.values()]
    return out


def small(tier):
    """Elements with basis functions that are tiny everywhere."""
    q = tier == "quick"
    out = [["DTaylor", c, k] for c in ("I", "dI", "T", "dT") for k in ((5, 6) if q else (4, 5, 6, 7))]
    return out + [["DTaylor", "K", 5]] + [["Broken", ["DTaylor", "I", 6]], ["TPE", ["DTaylor", "I", 5], ["Lagrange", "I", 1]]]


def traces(tier):
    q = tier == "quick"
    out = [["HDivTrace", c, k] for c in ("T", "K", "Q") for k in range(0, 3 if q else 5)]
    out += [["HDivTrace", "I*I", [1, 2]], ["HDivTrace", "T*I", [1, 0]], ["HDivTrace", "T*I", [0, 2]], ["HDivTrace", "(I*I)*I", [[2, 1], 1]],
            ["HDivTrace", "Q*I", [1, 2]]]
    return out
