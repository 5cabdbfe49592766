"""P16: functionals evaluate the quantity they document and match their matrix form."""
import itertools

import numpy as np
from hypothesis import strategies as st

import cells
import polys
from core import Stratum
from fem import close, require

RULE = ("One stratum per kind of functional and reference cell, and one per cell for sets of functionals. Each case draws an entity, the points, directions, "
        "test functions and quadrature degree the functional takes, a polynomial field (sparse integer combination of monomials) and a "
        "polynomial set degree. The documented quantity is computed by the harness (its own quadrature, normals and tangents); the functional "
        "applied through its published dictionaries, its Riesz array contracted with the field's coefficients in the expansion set, the array "
        "of a dual set made of several functionals and, where it exists, the direct call must all give it. Non-trivial: every case with a "
        "non-zero field.")
ASSUMPTIONS = ["facet moments are integrals over the reference facet (unit measure of the rule), with the scaled normal, as in the code's own comments",
               "the face-tangential moment (whose documentation is ambiguous) is judged as the product of v x n and p x n, n scaled"]


def normal(g, e):
    """Unit normal in the convention of the cell (compare P09)."""
    v = g.verts[list(g.topo[g.sd - 1][e])]
    if g.name == "T":
        t = v[1] - v[0]
        return np.array([t[1], -t[0]]) / np.linalg.norm(t)
    if g.name == "K":
        w = np.cross(v[1] - v[0], v[2] - v[0])
        return -2 * w / np.linalg.norm(w)
    return g.normal_outward(g.sd - 1, e)


def scaled_normal(g, e):
    return normal(g, e) * g.measure(g.sd - 1, e)


class Field:
    """Polynomial field with components of a given shape."""

    def __init__(self, cell, shape, k, comps, sym=False):
        self.shape, self.k = shape, k
        ex = polys.total_degree_exponents(cells.geo(cell).sd, k)
        idx = list(itertools.product(*[range(n) for n in shape]))
        self.p = {}
        for r, c in enumerate(idx):
            if sym and c[0] > c[1]:
                self.p[c] = self.p[c[::-1]]
                continue
            self.p[c] = polys.Poly(cell, [(a, ex[i % len(ex)]) for i, a in comps[r % len(comps)]] or [(0, ex[0])])
        self.idx = idx

    def __call__(self, x, alpha=None):
        out = [self.p[c](x, alpha) for c in self.idx]
        return np.array(out).reshape(self.shape + np.asarray(x).shape[:-1])


def apply(f, F):
    s, m = 0.0, 0.0
    for pt, wcs in f.get_point_dict().items():
        for w, c in wcs:
            y = w * F.p[tuple(c)](np.array(pt, dtype=float))
            s, m = s + y, m + abs(y)
    for pt, wacs in f.deriv_dict.items():
        for w, a, c in wacs:
            y = w * F.p[tuple(c)](np.array(pt, dtype=float), tuple(a))
            s, m = s + y, m + abs(y)
    return s, m


_cache = {}


def poly_sets(cell, k, shape):
    key = cell, k, shape
    if key not in _cache:
        from FIAT.polynomial_set import ONPolynomialSet, ONSymTensorPolynomialSet
        c = cells.geo(cell).make()
        sets = [ONPolynomialSet(c, k, shape) if shape else ONPolynomialSet(c, k)]
        if len(shape) == 2 and k > 0 and shape[0] == shape[1]:
            sets.append(ONSymTensorPolynomialSet(c, k, shape[0]))
        basis = polys.total_basis(cell, k)
        x = polys.fit_nodes(cell, basis)
        A = sets[0].get_expansion_set().tabulate(k, [tuple(p) for p in x]).T
        _cache[key] = sets, x, A
    return _cache[key]


def coefficients(cell, k, F):
    sets, x, A = poly_sets(cell, k, F.shape)
    v = F(x)
    flat = v.reshape(-1, len(x)).T
    c, *_ = np.linalg.lstsq(A, flat, rcond=None)
    s = max(1.0, np.abs(flat).max())
    close(A @ c, flat, s, 1e-9, "polynomials of degree %d expanded in the set of degree %d" % (F.k, k))
    return sets, c.T.reshape(F.shape + (A.shape[1],))


def verify(cell, f, F, want, tol_scale, k, what):
    got, mag = apply(f, F)
    s = max(1.0, tol_scale, mag)
    close(got, want, s, 1e-10, what)
    require(tuple(f.target_shape) == F.shape, "%s: target shape %s, expected %s", what, f.target_shape, F.shape)
    sets, c = coefficients(cell, k, F)
    for S in sets:
        R = f.to_riesz(S)
        require(R.shape == c.shape, "%s: Riesz array of shape %s, expected %s", what, R.shape, c.shape)
        close((R * c).sum(), want, s * max(1.0, np.abs(R).max(), np.abs(c).max()), 1e-9, what + " through the Riesz array")
    return sets, c


# ------------------------------------------------------------------ kinds
#
# Each kind: (shape, sym, build(fn, g, c, case, F) -> functional, want(...) -> value); written as functions returning (functional, want, scale).

def rule(g, d, e, deg):
    """Harness quadrature on entity (d, e) in the reference measure of its own cell: (reference points, mapped points, weights)."""
    x, w = polys.cell_rule(g.sub_name(d), deg) if d else (np.zeros((1, 0)), np.ones(1))
    y = np.array([g.map_entity(d, e, p) for p in x])
    return x, y, w


def fiat_rule(c, d, deg):
    import FIAT
    return FIAT.create_quadrature(c.construct_subelement(d), deg)


def test_fn(g, d, case, j=0):
    sub = g.sub_name(d)
    ex = polys.total_degree_exponents(d, case["pk"])
    return polys.Poly(sub, [(a, ex[(i + j) % len(ex)]) for i, a in case["p"][j % len(case["p"])]])


def at(p, Q):
    return np.array([float(p(np.array(x, dtype=float))) for x in Q.get_points()])


def facet_moment(cls, field):
    """Facet moments sum_q w_q p(x_q) (field . direction): `field(F, g, e, y)` gives the integrand's scalar field at mapped points."""
    def make(g, c, case, F):
        import FIAT.functional as fn
        d = g.sd - 1
        e = case["ent"] % len(g.topo[d])
        p = test_fn(g, d, case)
        Q = fiat_rule(c, d, F.k + case["pk"] + case["extra"])
        f = (getattr(fn, cls)(c, e, Q, at(p, Q)) if cls == "IntegralMomentOfNormalDerivative" else getattr(fn, cls)(c, Q, at(p, Q), e))
        x, y, w = rule(g, d, e, F.k + case["pk"])
        v = field(F, g, e, y)
        return f, (w * v * p(x)).sum(), np.abs(w * v * p(x)).sum()
    return make


def grad(F, y):
    sd = y.shape[1]
    return np.array([F(y, tuple(int(i == j) for i in range(sd))) for j in range(sd)])


def edge(g, e):
    v = g.verts[list(g.topo[1][e])]
    return v[1] - v[0]


def edge_moment(g, c, case, F):
    import FIAT.functional as fn
    e = case["ent"] % len(g.topo[1])
    p = test_fn(g, 1, case)
    Q = fiat_rule(c, 1, F.k + case["pk"] + case["extra"])
    f = fn.IntegralMomentOfEdgeTangentEvaluation(c, Q, at(p, Q), e)
    x, y, w = rule(g, 1, e, F.k + case["pk"])
    v = edge(g, e) @ F(y)
    return f, (w * v * p(x)).sum(), np.abs(w * v * p(x)).sum()


def vector_face_moment(cls):
    def make(g, c, case, F):
        import FIAT.functional as fn
        d = g.sd - 1
        e = case["ent"] % len(g.topo[d])
        ps = [test_fn(g, d, case, j) for j in range(g.sd)]
        Q = fiat_rule(c, d, F.k + case["pk"] + case["extra"])
        P = np.array([at(p, Q) for p in ps])
        x, y, w = rule(g, d, e, F.k + case["pk"])
        pv = np.array([p(x) for p in ps])
        V = F(y)
        if cls == "MonkIntegralMoment":
            f = fn.MonkIntegralMoment(c, Q, P.T, e)
            v = (V * pv).sum(axis=0)
        else:
            f = fn.IntegralMomentOfFaceTangentEvaluation(c, Q, P, e)
            n = scaled_normal(g, e)
            v = (np.cross(V.T, n) * np.cross(pv.T, n)).sum(axis=1)
        return f, (w * v).sum(), np.abs(w * v).sum()
    return make


def direction(case, n, j=0):
    return np.array([case["dir"][(i + j) % len(case["dir"])] / 4 for i in range(n)])


def legendre(cls):
    def make(g, c, case, F):
        import FIAT.functional as fn
        e = case["ent"] % 3
        m = case["pk"]
        comp = max(0, (F.k + m) // 2) + case["extra"]
        t = edge(g, e)
        L = np.linalg.norm(t)
        n = normal(g, e)
        x, w = polys.gauss01((F.k + m) // 2 + 1)
        y = g.verts[g.topo[1][e][0]] + x[:, None] * t
        leg = np.polynomial.legendre.legval(2 * x - 1, [0] * m + [1])
        V = F(y)
        if cls == "IntegralLegendreDirectionalMoment":
            s = direction(case, 2)
            f = fn.IntegralLegendreDirectionalMoment(c, s, e, m, comp)
            v = s @ V
        elif cls == "IntegralLegendreBidirectionalMoment":
            s1, s2 = direction(case, 2), direction(case, 2, 1)
            f = fn.IntegralLegendreBidirectionalMoment(c, s1, s2, e, m, comp)
            v = L * L * np.einsum("i,ijq,j->q", s1, V, s2)
        else:
            f = getattr(fn, cls)(c, e, m, comp)
            v = {"IntegralLegendreNormalMoment": lambda: L * n @ V, "IntegralLegendreTangentialMoment": lambda: t @ V,
                 "IntegralLegendreNormalNormalMoment": lambda: L * L * np.einsum("i,ijq,j->q", n, V, n),
                 "IntegralLegendreNormalTangentialMoment": lambda: L * np.einsum("i,ijq,j->q", n, V, t)}[cls]()
        return f, (w * v * leg).sum(), np.abs(w * v * leg).sum()
    return make


def pt(g, case, d=None, e=None):
    if d is None:
        return cells.points(g.name, [case["x"]])[0]
    w = case["x"][0][:d + 1]
    w = w if sum(w) else [1] * (d + 1)
    v = g.verts[list(g.topo[d][e])]
    return tuple(float(a) for a in np.array(w, dtype=float) @ v / sum(w))


def pointwise(cls):
    def make(g, c, case, F):
        import FIAT.functional as fn
        sd = g.sd
        if cls in ("PointEvaluation", "ComponentPointEvaluation", "PointDerivative", "PointwiseInnerProductEvaluation"):
            x = pt(g, case)
            y = np.array(x)
            if cls == "PointEvaluation":
                f = fn.PointEvaluation(c, x)
                require(f(lambda z: float(F(np.array(z)))) == float(F(y)), "direct call of a point evaluation")
                return f, F(y), 1
            if cls == "ComponentPointEvaluation":
                k = case["ent"] % F.shape[0]
                return fn.ComponentPointEvaluation(c, k, F.shape, x), F(y)[k], 1
            if cls == "PointwiseInnerProductEvaluation":
                v, w = direction(case, sd), direction(case, sd, 1)
                return fn.PointwiseInnerProductEvaluation(c, v, w, x), v @ F(y) @ w, np.abs(v).sum() * np.abs(w).sum() * np.abs(F(y)).max()
            a = tuple(case["alpha"][i % len(case["alpha"])] for i in range(sd))
            while sum(a) > 4:
                a = tuple(max(0, i - 1) for i in a)
            f = fn.PointDerivative(c, x, a)
            if sum(a) <= F.k:
                P = F.p[()]

                def sym(X):
                    s = 0
                    for co, ex in P.terms:
                        t = co
                        for i in range(sd):
                            t = t * ((X[i] - float(P.c[i])) / float(P.h[i])) ** ex[i]
                        s = s + t
                    return s
                close(float(f(sym)), F(y, a), max(1.0, np.abs(F(y, a)) * 10), 1e-8, "direct call of a partial derivative")
            return f, F(y, a), np.abs(F(y, a))
        d = 1 if cls == "PointEdgeTangentEvaluation" else sd - 1
        e = case["ent"] % len(g.topo[d])
        x = pt(g, case, d, e)
        y = np.array(x)
        n = normal(g, e) if d == sd - 1 else None
        if cls == "PointNormalDerivative":
            return fn.PointNormalDerivative(c, e, x), n @ grad(F, y[None])[:, 0], 10
        if cls == "PointNormalSecondDerivative":
            H = np.array([[F(y, tuple(int(r == i) + int(r == j) for r in range(sd))) for j in range(sd)] for i in range(sd)])
            return fn.PointNormalSecondDerivative(c, e, x), n @ H @ n, 10 + np.abs(H).sum()
        if cls == "PointNormalEvaluation":
            return fn.PointNormalEvaluation(c, e, x), n @ F(y), 10
        if cls == "PointScaledNormalEvaluation":
            return fn.PointScaledNormalEvaluation(c, e, x), scaled_normal(g, e) @ F(y), 10
        if cls == "PointEdgeTangentEvaluation":
            return fn.PointEdgeTangentEvaluation(c, e, x), edge(g, e) @ F(y), 10
        v = g.verts[list(g.topo[2][e])]
        k = case["pk"] % 2
        return fn.PointFaceTangentEvaluation(c, e, k, x), (v[k + 1] - v[0]) @ F(y), 10
    return make


def cell_moment(cls, comp=False):
    def make(g, c, case, F):
        import FIAT.functional as fn
        sd = g.sd
        Q = fiat_rule(c, sd, F.k + case["pk"] + case["extra"])
        x, w = polys.cell_rule(g.name, F.k + case["pk"])
        p = test_fn(g, sd, case)
        V = F(x)
        if cls == "IntegralMoment":
            k = (case["ent"] % F.shape[0],) if comp else ()
            f = fn.IntegralMoment(c, Q, at(p, Q), k, F.shape) if comp else fn.IntegralMoment(c, Q, at(p, Q))
            t = w * V[k] * p(x)
            direct = f(lambda z: F(np.array(z)))
            close(direct, t.sum(), max(1.0, np.abs(t).sum()), 1e-10, "direct call of an integral moment")
            if not comp and case["ent"] % 2:       # a moment without component integrates each component of what it is given
                direct = fn.IntegralMoment(c, Q, at(p, Q), shp=())(lambda z: np.array([F(np.array(z)), 2 * F(np.array(z))]))
                close(direct, np.array([1, 2]) * t.sum(), max(1.0, np.abs(t).sum()), 1e-10, "direct call of an integral moment on a pair")
            return f, t.sum(), np.abs(t).sum()
        if cls == "FrobeniusIntegralMoment":
            idx = list(itertools.product(*[range(n) for n in F.shape]))
            ps = [test_fn(g, sd, case, j) for j in range(len(idx))]
            A = np.array([at(q, Q) for q in ps]).reshape(F.shape + (len(Q.get_points()),))
            f = fn.FrobeniusIntegralMoment(c, Q, A)
            try:
                fn.FrobeniusIntegralMoment(c, Q, A[..., :-1])
            except Exception:
                pass
            else:
                require(False, "a Frobenius moment accepted %d values for %d points", A.shape[-1] - 1, A.shape[-1])
            t = w * sum(V[i] * q(x) for i, q in zip(idx, ps))
            return f, t.sum(), np.abs(t).sum()
        if cls == "IntegralMomentOfDivergence":
            f = fn.IntegralMomentOfDivergence(c, Q, at(p, Q))
            t = w * p(x) * sum(grad(F, x)[i, i] for i in range(sd))
            return f, t.sum(), np.abs(t).sum()
        if cls == "IntegralMomentOfTensorDivergence":
            ps = [test_fn(g, sd, case, j) for j in range(2)]
            f = fn.IntegralMomentOfTensorDivergence(c, Q, np.array([at(q, Q) for q in ps]))
            G = grad(F, x)
            t = w * sum(ps[i](x) * G[j][i, j] for i in range(2) for j in range(2))
            return f, t.sum(), np.abs(t).sum()
        v, u = direction(case, sd), direction(case, sd, 1)
        A = np.tile(at(p, Q), (sd, sd, 1))
        f = fn.TensorBidirectionalMomentInnerProductEvaluation(c, v, u, Q, A, F.k + case["pk"])
        t = w * p(x) * np.einsum("i,ijq,j->q", v, V, u)
        return f, t.sum(), np.abs(t).sum()
    return make


KINDS = {  # name: (value shape as a function of sd, symmetric field, maker, dimensions)
    "PointEvaluation": ("s", 0, pointwise("PointEvaluation"), (1, 2, 3)),
    "ComponentPointEvaluation": ("n", 0, pointwise("ComponentPointEvaluation"), (1, 2, 3)),
    "PointDerivative": ("s", 0, pointwise("PointDerivative"), (1, 2, 3)),
    "PointNormalDerivative": ("s", 0, pointwise("PointNormalDerivative"), (2, 3)),
    "PointNormalSecondDerivative": ("s", 0, pointwise("PointNormalSecondDerivative"), (2, 3)),
    "PointNormalEvaluation": ("v", 0, pointwise("PointNormalEvaluation"), (2, 3)),
    "PointScaledNormalEvaluation": ("v", 0, pointwise("PointScaledNormalEvaluation"), (2, 3)),
    "PointEdgeTangentEvaluation": ("v", 0, pointwise("PointEdgeTangentEvaluation"), (2, 3)),
    "PointFaceTangentEvaluation": ("v", 0, pointwise("PointFaceTangentEvaluation"), (3,)),
    "PointwiseInnerProductEvaluation": ("t", 1, pointwise("PointwiseInnerProductEvaluation"), (2, 3)),
    "IntegralMoment": ("s", 0, cell_moment("IntegralMoment"), (1, 2, 3)),
    "IntegralMoment of a component": ("n", 0, cell_moment("IntegralMoment", True), (1, 2, 3)),
    "FrobeniusIntegralMoment": ("n", 0, cell_moment("FrobeniusIntegralMoment"), (1, 2, 3)),
    "FrobeniusIntegralMoment of tensors": ("t", 0, cell_moment("FrobeniusIntegralMoment"), (2, 3)),
    "IntegralMomentOfDivergence": ("v", 0, cell_moment("IntegralMomentOfDivergence"), (2, 3)),
    "IntegralMomentOfTensorDivergence": ("t", 1, cell_moment("IntegralMomentOfTensorDivergence"), (2,)),
    "TensorBidirectionalMoment": ("t", 1, cell_moment("TensorBidirectionalMomentInnerProductEvaluation"), (2, 3)),
    "IntegralMomentOfNormalDerivative": ("s", 0, facet_moment("IntegralMomentOfNormalDerivative", lambda F, g, e, y: normal(g, e) @ grad(F, y)), (2, 3)),
    "IntegralMomentOfScaledNormalEvaluation": ("v", 0, facet_moment("IntegralMomentOfScaledNormalEvaluation", lambda F, g, e, y: scaled_normal(g, e) @ F(y)), (2, 3)),
    "IntegralMomentOfNormalEvaluation": ("v", 0, facet_moment("IntegralMomentOfNormalEvaluation", lambda F, g, e, y: scaled_normal(g, e) @ F(y)), (2, 3)),
    "IntegralMomentOfTangentialEvaluation": ("v", 0, facet_moment("IntegralMomentOfTangentialEvaluation", lambda F, g, e, y: edge(g, e) @ F(y)), (2,)),
    "IntegralMomentOfNormalNormalEvaluation": ("t", 0, facet_moment("IntegralMomentOfNormalNormalEvaluation", lambda F, g, e, y: np.einsum(
        "i,ijq,j->q", scaled_normal(g, e), F(y), normal(g, e) / np.linalg.norm(normal(g, e)))), (2, 3)),
    "IntegralMomentOfEdgeTangentEvaluation": ("v", 0, edge_moment, (2, 3)),
    "IntegralMomentOfFaceTangentEvaluation": ("v", 0, vector_face_moment("IntegralMomentOfFaceTangentEvaluation"), (3,)),
    "MonkIntegralMoment": ("v", 0, vector_face_moment("MonkIntegralMoment"), (2, 3)),
    "IntegralLegendreDirectionalMoment": ("v", 0, legendre("IntegralLegendreDirectionalMoment"), (2,)),
    "IntegralLegendreNormalMoment": ("v", 0, legendre("IntegralLegendreNormalMoment"), (2,)),
    "IntegralLegendreTangentialMoment": ("v", 0, legendre("IntegralLegendreTangentialMoment"), (2,)),
    "IntegralLegendreBidirectionalMoment": ("t", 0, legendre("IntegralLegendreBidirectionalMoment"), (2,)),
    "IntegralLegendreNormalNormalMoment": ("t", 0, legendre("IntegralLegendreNormalNormalMoment"), (2,)),
    "IntegralLegendreNormalTangentialMoment": ("t", 0, legendre("IntegralLegendreNormalTangentialMoment"), (2,)),
}


def field(g, case, shape, sym):
    n = case["n"]
    shp = {"s": (), "n": (n,), "v": (g.sd,), "t": (g.sd, g.sd)}[shape]
    return Field(g.name, shp, case["k"], case["v"], sym)


def check(kind, cell, case):
    g = cells.geo(cell)
    shape, sym, make, _ = KINDS[kind]
    F = field(g, case, shape, sym)
    c = g.make()
    f, want, s = make(g, c, case, F)
    verify(cell, f, F, want, s, case["k"] + case["up"], kind)
    require(f.get_reference_element() is c, "%s: reference element", kind)
    require(isinstance(f.tostr(), str) and isinstance(f.get_type_tag(), str), "%s: no description", kind)
    return {kind} if any(np.any(np.array([t[0] for t in p.terms])) for p in F.p.values()) else None


GROUP = {s: [k for k, v in KINDS.items() if v[0] == s or (s == "v" and v[0] == "n")] for s in "svt"}


def check_set(cell, case):
    """Several functionals of one value shape, as a dual set."""
    from FIAT.dual_set import DualSet
    g = cells.geo(cell)
    shape = "svt"[case["group"] % (3 if g.sd > 1 else 2)]
    kinds = [k for k in GROUP[shape] if g.sd in KINDS[k][3]]
    case["n"] = g.sd
    F = field(g, case, shape, shape == "t")
    c = g.make()
    fs, wants, scale = [], [], 1.0
    for i, sub in case["items"]:
        f, want, s = KINDS[kinds[i % len(kinds)]][2](g, c, {**case, **sub}, F)
        fs.append(f)
        wants.append(float(want))
        scale = max(scale, float(s), apply(f, F)[1])
    ids = {d: {e: [] for e in range(len(g.topo[d]))} for d in g.topo}
    ids[g.sd][0] = list(range(len(fs)))
    D = DualSet(fs, c, ids)
    sets, co = coefficients(cell, case["k"] + case["up"], F)
    for S in sets:
        R = D.to_riesz(S)
        require(R.shape == (len(fs),) + co.shape, "array of the dual set of shape %s, expected %s", R.shape, (len(fs),) + co.shape)
        got = (R * co).reshape(len(fs), -1).sum(axis=1)
        close(got, np.array(wants), scale * max(1.0, np.abs(R).max(), np.abs(co).max()), 1e-9, "dual set of %s applied through its array" % (
            [type(f).__name__ for f in fs],))
        for r, f in zip(R, fs):
            close(r, f.to_riesz(S), max(1.0, np.abs(R).max()), 1e-11, "array of %s alone and in the dual set" % type(f).__name__)
    return {"derivatives" if any(f.deriv_dict for f in fs) else "values only", shape}


def pieces(g):
    nz = st.integers(-6, 6).filter(bool)
    terms = st.lists(st.tuples(st.integers(0, 60), nz), min_size=1, max_size=4)
    return {"ent": st.integers(0, 11), "x": cells.point_strategy(g.name, False), "p": st.lists(terms, min_size=1, max_size=3), "pk": st.integers(0, 3),
            "dir": st.lists(st.integers(-9, 9), min_size=2, max_size=4).filter(any), "alpha": st.lists(st.integers(0, 3), min_size=1, max_size=3),
            "extra": st.integers(0, 2)}, terms


def strategy(kind, cell, tier):
    g = cells.geo(cell)
    d, terms = pieces(g)
    cap = {1: 6, 2: 4, 3: 3 if tier == "quick" else 4}[g.sd]
    return st.fixed_dictionaries({**d, "k": st.integers(0, cap), "up": st.integers(0, 1), "v": st.lists(terms, min_size=1, max_size=6), "n": st.integers(1, 4)})


def set_strategy(cell, tier):
    g = cells.geo(cell)
    d, terms = pieces(g)
    return st.fixed_dictionaries({"group": st.integers(0, 2), "items": st.lists(st.tuples(st.integers(0, 40), st.fixed_dictionaries(d)), min_size=1, max_size=5),
                                  "k": st.integers(1 if g.sd > 1 else 0, {1: 6, 2: 4, 3: 2 if tier == "quick" else 3}[g.sd]), "up": st.integers(0, 1),
                                  "v": st.lists(terms, min_size=1, max_size=6)})


def DERIV(kind):
    return "Deriv" in kind or "Div" in kind


def strata(tier):
    out = []
    for cell in ("I", "dI", "T", "dT", "iT", "K", "dK", "iK"):
        sd = cells.geo(cell).sd
        for kind, (_, _, _, dims) in KINDS.items():
            if sd not in dims:
                continue
            out.append(Stratum("%s on %s" % (kind, cell), lambda k=kind, c=cell: strategy(k, c, tier), lambda case, k=kind, c=cell: check(k, c, case),
                               n=((40, 40, 20)[sd - 1] if not DERIV(kind) else (30, 20, 12)[sd - 1], 300), cost=sd * (3 if DERIV(kind) else 1)))
        out.append(Stratum("dual sets on %s" % cell, lambda c=cell: set_strategy(c, tier), lambda case, c=cell: check_set(c, case), n=(40, 400), cost=4 * sd))
    return out
