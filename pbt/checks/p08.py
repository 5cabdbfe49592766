"""P08: tabulation on a sub-entity is tabulation on the cell at the mapped points."""
import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import close, require

RULE = ("One stratum per element configuration (and one per reference cell for the entity maps alone). Each case draws an entity, points in its own reference coordinates (interior, "
        "boundary, vertex, exterior) and a derivative order; the tables on the entity are compared with those on the cell at the points mapped "
        "by an independently written vertex-to-vertex affine map. Non-trivial: a proper sub-entity.")


def check(cfg, case):
    F = fem.fe(cfg, False)
    g = F.geo
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    sub = g.sub_name(d)
    xs = cells.points(sub, case["p"])
    ys = fem.as_points([g.map_entity(d, e, x) for x in xs])
    n = case["n"]
    on_entity = F.element.tabulate(n, xs, (d, e))
    on_cell = F.element.tabulate(n, ys)
    require(set(on_entity) == set(on_cell) == set(fem.multi(F.sd, n)), "tables %s on entity %s, %s on the cell", sorted(on_entity), (d, e), sorted(on_cell))
    scale = max([1.0] + [np.abs(t).max() for t in on_cell.values()])
    for a in on_cell:
        require(on_entity[a].shape == (F.n,) + F.vs + (len(xs),), "table %s on entity %s has shape %s", a, (d, e), on_entity[a].shape)
        close(on_entity[a], on_cell[a], scale, 1e-8, "derivative %s on entity %s" % (a, (d, e)))
    if (d, e) == ents[-1]:
        return None
    return {"entity of dimension %s" % cells.tsum(d), "order %d" % n} | cells.point_classes(case["p"])


def check_map(name, case):
    g = cells.geo(name)
    ref = g.make()
    ents = g.entities()
    d, e = ents[case["e"] % len(ents)]
    sub = g.sub_name(d)
    x = cells.points(sub, case["p"])
    t = ref.get_entity_transform(d, e)
    for p in x:
        q = np.asarray(t(p), dtype=float)
        want = g.map_entity(d, e, p)
        close(q.reshape(-1), want.reshape(-1), 1.0 + np.abs(want).max() if want.size else 1.0, 1e-12, "map of entity %s at %s" % ((d, e), p))
    subcell = ref.construct_subelement(d)
    sv = np.asarray(subcell.get_vertices(), dtype=float)
    close(np.sort(sv.ravel()), np.sort(cells.geo(sub).verts.ravel()), 1.0, 1e-14, "vertices of the cell of entity %s" % (d,))
    for v, i in zip(subcell.get_vertices(), g.topo[d][e]):
        close(np.asarray(t(v), dtype=float).reshape(-1), g.verts[i], 1.0, 1e-13, "image of a vertex of entity %s" % ((d, e),))
    return {"map of entity of dimension %s" % cells.tsum(d)} if (d, e) != ents[-1] else None


def ent_points(name, nmax):
    g = cells.geo(name)
    ents = g.entities()
    return st.integers(0, len(ents) - 1).flatmap(lambda i: st.fixed_dictionaries({
        "e": st.just(i), "p": cells.points_strategy(g.sub_name(ents[i][0]), 1, nmax), "n": st.integers(0, 2)}))


CELLS = ["I", "dI", "T", "dT", "iT", "K", "dK", "iK", "Q", "H", "I*I", "T*I", "I*T", "K*I", "T*T", "I*I*I", "(I*I)*I", "I*(I*I)", "Q*I", "H*I",
         "dI*I", "dT*I", "iT*dI", "(T*I)*I", "(I*I)*(I*I)", "Q*T", "dK*iT"]


def strata(tier):
    out = [Stratum("map " + c, lambda c=c: ent_points(c, 3), lambda case, c=c: check_map(c, case), n=(80, 400)) for c in CELLS]
    return out + [Stratum(catalog.label(c), lambda c=c: ent_points(catalog.cell_of(c), 3), lambda case, c=c: check(c, case), n=(12, 60), cost=fem.cost(c))
                  for c in catalog.basic(tier) + catalog.products(tier) + catalog.composites(tier)]
