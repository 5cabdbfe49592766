"""P06: interelement continuity of functions assembled by identifying degrees of freedom on shared entities."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from core import Stratum
from fem import close, require

RULE = ("One stratum per conforming element configuration. Each case draws two cells sharing a facet (vertex coordinates and global vertex numbers, "
        "products of simplices in one factor for product cells), integer values of the degrees of freedom (shared ones identified by global vertex "
        "numbers and published order) and points on the shared facet; the family's trace of the pushed-forward functions must agree from both sides. "
        "Also, on the reference cell, the traces of all basis functions not attached to the closure of a drawn facet must vanish. Non-trivial: the two cells "
        "use different local facets or orientations, or the trace is non-zero.")
ASSUMPTIONS = ["vertices of each cell are ordered by global number, and the cells are UFC simplices (whose entities list their vertices in increasing order) "
               "or products of them", "Argyris, Bell, Hermite, MTW and AW elements are not preserved by their mapping: they are judged on the reference cell only"]


# ------------------------------------------------------------------ traces

def trace(kind, vals, tangents):
    """vals (n, *vs, npts) -> (n, k, npts) trace components on a facet with the given tangents (rows)."""
    t = np.asarray(tangents, dtype=float)
    d = t.shape[1]
    if kind == "value":
        return vals.reshape(vals.shape[0], -1, vals.shape[-1])
    _, _, vt = np.linalg.svd(t) if len(t) else (None, None, np.eye(d))
    n = vt[len(t):]
    assert len(n) == 1
    n = n[0]
    if kind == "normal":
        return np.einsum("icp,c->ip", vals, n)[:, None]
    if kind == "tangential":
        return np.einsum("icp,kc->ikp", vals, t)
    if kind == "nn":
        return np.einsum("iabp,a,b->ip", vals, n, n)[:, None]
    if kind == "tt":
        return np.einsum("iabp,ka,lb->iklp", vals, t, t).reshape(vals.shape[0], -1, vals.shape[-1])
    if kind == "sigma n":
        return np.einsum("iabp,b->iap", vals, n)
    raise KeyError(kind)


def push(mapping, u, J):
    det = np.linalg.det(J)
    if mapping == "affine":
        return u
    if mapping == "con":
        return np.einsum("ab,ibp->iap", J / det, u)
    K = np.linalg.inv(J).T
    if mapping == "cov":
        return np.einsum("ab,ibp->iap", K, u)
    if mapping == "double covariant piola":
        return np.einsum("ac,icdp,bd->iabp", K, u, K)
    if mapping == "double contravariant piola":
        return np.einsum("ac,icdp,bd->iabp", J, u, J) / det ** 2
    raise KeyError(mapping)


DECLARED = {"affine": "affine", "con": "contravariant piola", "cov": "covariant piola", "double covariant piola": "double covariant piola",
            "double contravariant piola": "double contravariant piola"}


# ------------------------------------------------------------------ physical cells

class Phys:
    """A physical product cell: one simplex (coordinates and global labels, sorted by label) per factor."""

    def __init__(self, name, parts):
        self.g = cells.geo(name)
        self.parts = parts
        J, b = [], []
        self.labels, self.verts = [], []
        for idx in itertools.product(*[range(len(p)) for p in parts]):
            self.labels.append(tuple(p[i][0] for p, i in zip(parts, idx)))
            self.verts.append(np.concatenate([p[i][1] for p, i in zip(parts, idx)]))
        for p in parts:
            x = np.array([c for _, c in p])
            J.append((x[1:] - x[0]).T)
            b.append(x[0])
        n = sum(len(x) for x in b)
        self.J = np.zeros((n, n))
        pos = 0
        for j in J:
            self.J[pos:pos + len(j), pos:pos + len(j)] = j
            pos += len(j)
        self.b = np.concatenate(b)
        # product vertex order of the reference cell is the lexicographic one
        self.entities = {}
        for d, e in self.g.entities():
            self.entities[frozenset(self.labels[v] for v in self.g.topo[d][e])] = (d, e)

    def pull(self, x):
        return np.linalg.solve(self.J, np.asarray(x) - self.b)


def make_cells(name, case):
    fs = cells.factor_names(name)
    i = case["axis"] % len(fs)
    parts = [[], []]
    for k, f in enumerate(fs):
        d = cells.geo(f).sd
        base = np.vstack([np.zeros((1, d)), np.eye(d), np.zeros((1, d))])       # facet and first apex, then the other one
        base[d + 1, d - 1] = -1
        X = base + np.array(case["x"][k], dtype=float).reshape(d + 2, d) / 8
        lab = case["perm"][k]
        if k == i:
            A = sorted([(lab[j], tuple(X[j])) for j in list(range(d)) + [d]])
            B = sorted([(lab[j], tuple(X[j])) for j in list(range(d)) + [d + 1]])
        else:
            A = B = sorted([(lab[j], tuple(X[j])) for j in range(d + 1)])
        for P, S in ((A, parts[0]), (B, parts[1])):
            x = np.array([c for _, c in P])
            e = x[1:] - x[0]
            vol = abs(np.linalg.det(e))
            if vol <= 0.02 * max(np.linalg.norm(e, axis=1)) ** d:
                return None
            S.append([(l, np.array(c)) for l, c in P])
    return Phys(name, parts[0]), Phys(name, parts[1])


_attached = {}


def vanishing(cfg, kind, F, fi, pts_w):
    g = F.geo
    facets = [(d, e) for d, e in g.entities() if cells.tsum(d) == F.sd - 1]
    d, e = facets[fi % len(facets)]
    closure = set(F.element.entity_closure_dofs()[d][e])
    others = [i for i in range(F.n) if i not in closure]
    if not others:
        return False
    sub = g.sub_name(d)
    xs = fem.as_points([g.map_entity(d, e, x) for x in cells.points(sub, pts_w[sub])])
    V = g.verts[list(g.topo[d][e])]
    T = V[1:] - V[0] if len(V) > 1 else np.zeros((0, F.sd))
    if len(T) > F.sd - 1:       # a basis of the tangent space for product facets
        _, s, vt = np.linalg.svd(T)
        T = vt[:F.sd - 1]
    kinds = kind if isinstance(kind, list) else [kind]
    for k in kinds:
        if k == "normal derivative":
            n = np.linalg.svd(T)[2][-1] if len(T) else np.ones(1)
            val = sum(n[j] * F.tab(xs, tuple(int(j == m) for m in range(F.sd))) for j in range(F.sd))[:, None]
        else:
            val = trace(k, F.tab(xs), T)
        val = val[others]
        close(val, 0 * val, F.scale * 10, 1e-8, "%s trace on facet %s of basis functions not attached to it (dofs %s)" % (k, (d, e), others))
    return True


def check(cfg, kind, glue, case):
    F = fem.fe(cfg)
    e, g = F.element, F.geo
    vanishing(cfg, kind, F, case["facet"], case["p"])
    labels = {"reference facet"}
    if not glue:
        return labels
    pair = make_cells(F.cell, case)
    if pair is None:
        return None
    kind = kind[0] if isinstance(kind, list) else kind
    mk = fem.mapping_kind(cfg)
    require(set(e.mapping()) == {DECLARED[mk]} and len(e.mapping()) == F.n, "mapping %s, expected %s", set(e.mapping()), DECLARED[mk])
    ids = e.entity_dofs()
    shared = [k for k in pair[0].entities if k in pair[1].entities]
    facets = [k for k in shared if cells.tsum(pair[0].entities[k][0]) == F.sd - 1]
    require(len(facets) == 1, "harness: %d shared facets" % len(facets))
    rng = case["v"]
    val = lambda j: rng[j % len(rng)] - 3.0 + (j * 7919 % 13) / 13
    coef = [np.array([val(3 * j + 1) for j in range(F.n)]), np.array([val(5 * j + 2) for j in range(F.n)])]
    for k in shared:
        (d0, e0), (d1, e1) = pair[0].entities[k], pair[1].entities[k]
        i0, i1 = ids[d0][e0], ids[d1][e1]
        require(len(i0) == len(i1), "entities %s and %s carry %s and %s", (d0, e0), (d1, e1), i0, i1)
        coef[1][i1] = coef[0][i0]
    d0, e0 = pair[0].entities[facets[0]]
    sub = g.sub_name(d0)
    ref = [g.map_entity(d0, e0, x) for x in cells.points(sub, case["p"][sub])]
    phys = [pair[0].J @ x + pair[0].b for x in ref]
    V = np.array([v for l, v in zip(pair[0].labels, pair[0].verts) if l in facets[0]])
    T = V[1:] - V[0]
    if len(T):
        T = np.linalg.svd(T)[2][:F.sd - 1]
    out, scale = [], 1.0
    for P, c in zip(pair, coef):
        X = fem.as_points([P.pull(x) for x in phys])
        u = push(mk, F.tab(X), P.J)
        scale = max(scale, np.abs(u).max() * np.abs(c).max() * math.sqrt(F.n))
        out.append(np.tensordot(c, trace(kind, u, T), (0, 0)))
    close(out[0], out[1], scale, 1e-8, "%s trace from both sides" % kind)
    if (d0, e0) != pair[1].entities[facets[0]]:
        labels.add("different local facets")
    if np.linalg.det(pair[0].J) * np.linalg.det(pair[1].J) < 0:
        labels.add("opposite orientations")
    return labels | {"glued"} if np.abs(out[0]).max() > 1e-9 else labels


def strategy(cfg, glue):
    name = catalog.cell_of(cfg)
    g = cells.geo(name)
    subs = sorted({g.sub_name(d) for d, e in g.entities() if cells.tsum(d) == g.sd - 1})
    d = {"facet": st.integers(0, 5), "p": st.fixed_dictionaries({s: cells.points_strategy(s, 1, 3) for s in subs})}
    if glue:
        fs = cells.factor_names(name)
        d["axis"] = st.integers(0, len(fs) - 1)
        d["x"] = st.tuples(*[st.lists(st.integers(-4, 4), min_size=(cells.geo(f).sd + 2) * cells.geo(f).sd,
                                      max_size=(cells.geo(f).sd + 2) * cells.geo(f).sd) for f in fs])
        d["perm"] = st.tuples(*[st.permutations(list(range(cells.geo(f).sd + 2))) for f in fs])
        d["v"] = st.lists(st.integers(0, 6), min_size=3, max_size=7)
    return st.fixed_dictionaries(d)


def configs(tier):
    q = tier == "quick"
    out = []

    def add(kind, glue, *cs):
        out.extend((c, kind, glue) for c in cs)
    cap = {"I": 6 if q else 12, "T": 5 if q else 8, "K": 4 if q else 5}
    for c in "ITK":
        add("value", True, *[["Lagrange", c, k] for k in range(1, cap[c] + 1)])
        add("value", True, *[["Bernstein", c, k] for k in range(1, cap[c] + 1)])
    add("value", True, *[["GLL", "I", k] for k in range(1, 7)])
    add("value", True, *[["KMV", "T", k] for k in range(1, 6)], *[["KMV", "K", k] for k in range(1, 4)])
    add("value", True, *[["Bubble", "T", k] for k in (3, 4)], ["Bubble", "K", 4], ["Bubble", "I", 2], ["FacetBubble", "T", 2], ["FacetBubble", "T", 3],
        ["FacetBubble", "K", 3], ["Nodal", ["Lagrange", "T", 2], ["Bubble", "T", 3]], ["Enriched", ["Lagrange", "T", 1], ["Bubble", "T", 3]],
        ["Nodal", ["Lagrange", "K", 1], ["FacetBubble", "K", 3], ["Bubble", "K", 4]], ["Restr", ["Lagrange", "T", 3], "facet"],
        ["Restr", ["Lagrange", "K", 3], "edge"])
    for c, m in (("T", 4 if q else 6), ("K", 3 if q else 4)):
        for k in range(1, m + 1):
            for v in ("point", "integral", "integral(%d)" % (k + 4)):
                lo = k <= m - 1 or c == "T"
                add("normal", True, ["RT", c, k, v])
                add("tangential", True, ["N1", c, k, v])
                if lo:
                    add("normal", True, ["BDM", c, k, v])
                    add("tangential", True, ["N2", c, k, v])
        for k in range(0, m - 1):
            add("tt", True, ["Regge", c, k])
            if c == "T":
                add("nn", True, ["HHJ", c, k])
    add("normal", True, ["BDFM", "T", 2])
    add("normal", False, ["MTW", "T", 3])
    add("sigma n", False, ["AW", "T", 3])
    add("nn", False, ["AW", "T", 3])
    for c in ("T", "dT", "iT"):
        add(["value", "normal derivative"], False, ["Argyris", c, 5], ["QArgyris", c, 5], ["Bell", c, 5])
        add("value", False, ["Hermite", c, 3])
    add(["value", "normal derivative"], False, ["Argyris", "T", 6], ["Hermite", "I", 3], *([] if q else [["Argyris", "T", 7], ["Argyris", "T", 8]]))
    add("value", False, ["Hermite", "K", 3], ["Hermite", "dK", 3])
    # other reference geometries: the vanishing traces
    for c in ("dT", "iT", "dK", "iK"):
        for k in (1, 2) if q and "K" in c else (1, 2, 3):
            add("value", False, ["Lagrange", c, k])
            add("value", False, ["Bernstein", c, k])
            for v in ("point", "integral"):
                add("normal", False, ["RT", c, k, v])
                add("tangential", False, ["N1", c, k, v])
                if k < 3:
                    add("normal", False, ["BDM", c, k, v])
                    if k < 2 or "K" not in c:
                        add("tangential", False, ["N2", c, k, v])
            if k < 3:
                add("tt", False, ["Regge", c, k - 1])
                if "T" in c:
                    add("nn", False, ["HHJ", c, k - 1])
    L = lambda k, c="I": ["Lagrange", c, k]
    D = lambda k, c="I": ["DG", c, k]
    T = lambda a, b: ["TPE", a, b]
    add("value", True, T(L(1), L(2)), T(L(2, "T"), L(2)), T(L(2), L(1, "T")), T(T(L(1), L(2)), L(2)), ["Flat", T(L(3), L(2))], ["Flat", T(T(L(2), L(1)), L(2))],
        T(["GLL", "I", 3], ["GLL", "I", 2]), ["Flat", T(L(2), T(L(2), L(1)))])
    add("value", True, *[["S", "Q", k] for k in range(1, 5 if q else 8)], *[["S", "H", k] for k in range(1, 4 if q else 6)])
    hd = lambda a, b: ["Hdiv", T(a, b)]
    hc = lambda a, b: ["Hcurl", T(a, b)]
    rtcf = lambda k: ["Enriched", hd(L(k), D(k - 1)), hd(D(k - 1), L(k))]
    rtce = lambda k: ["Enriched", hc(L(k), D(k - 1)), hc(D(k - 1), L(k))]
    add("normal", True, hd(L(1), D(0)), hd(D(1), L(2)), rtcf(1), rtcf(2), ["Flat", rtcf(2)], hd(["RT", "T", 1, "point"], D(0)), hd(["RT", "T", 2, "integral"], D(1)),
        hd(["BDM", "T", 1, "point"], D(1)), hd(["DG", "T", 0], L(1)), hd(["DG", "T", 1], L(2)), hd(rtcf(1), D(0)), ["Flat", hd(rtcf(2), D(1))],
        ["Enriched", hd(["RT", "T", 2, "point"], D(1)), hd(["DG", "T", 1], L(2))], hd(["N1", "T", 2, "point"], D(1)), hd(T(D(1), D(0)), L(2)),
        hd(L(2), D(1, "T")), hd(["GLL", "I", 2], ["GL", "I", 1]))
    add("tangential", True, hc(L(1), D(0)), hc(D(1), L(2)), rtce(1), rtce(2), ["Flat", rtce(2)], hc(["N1", "T", 1, "point"], L(1)), hc(["N1", "T", 2, "integral"], L(2)),
        hc(L(2, "T"), D(1)), hc(["RT", "T", 1, "point"], L(1)), hc(["RT", "T", 2, "integral"], L(2)), hc(rtce(1), L(1)), hc(rtcf(1), L(1)),
        ["Flat", hc(rtce(2), L(2))], ["Enriched", hc(["N1", "T", 2, "point"], L(2)), hc(L(2, "T"), D(1))], hc(T(L(1), L(2)), D(1)), hc(D(1), L(2, "T")),
        hc(["BDM", "T", 1, "point"], L(2)), hc(["N2", "T", 2, "integral"], L(2)))
    seen, res = set(), []
    for c, k, gl in out:
        key = (catalog.key(c), str(k))
        if key not in seen:
            seen.add(key)
            res.append((c, k, gl))
    return res


def strata(tier):
    return [Stratum("%s %s" % (catalog.label(c), k if isinstance(k, str) else "+".join(k)), lambda c=c, gl=gl: strategy(c, gl),
                    lambda case, c=c, k=k, gl=gl: check(c, k, gl, case), n=(16, 80), cost=fem.cost(c)) for c, k, gl in configs(tier)]
