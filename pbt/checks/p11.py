"""P11: subsets, unions, projections, multi-indices and derivative tables of polynomial sets."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import cells
import fem
import polys
from core import Stratum
from fem import close, require

RULE = ("One stratum per reference simplex and value shape for subsets, unions (of random members and of random integer combinations, overlapping or not) and their derivative tables; "
        "per cell for projections of random functions of the set with random sufficient rules; one for multi-index enumeration and matrix products. "
        "Oracle: linear algebra on values tabulated from the original orthonormal set, exact polynomial arithmetic. Non-trivial: subset non-empty, union with overlapping spans, "
        "non-zero projected function.")
ASSUMPTIONS = ["the sets united share reference element, embedded degree and value shape, as the code requires", "projection is defined for scalar sets"]


def onset(cell, k, shape, sym):
    from FIAT import polynomial_set as PS
    ref = cells.geo(cell).make()
    if sym:
        return PS.ONSymTensorPolynomialSet(ref, k)
    return PS.ONPolynomialSet(ref, k, tuple(shape)) if shape else PS.ONPolynomialSet(ref, k)


_sets = {}


def original(cell, k, shape, sym):
    key = (cell, k, tuple(shape), sym)
    if key not in _sets:
        _sets[key] = onset(*key)
    return _sets[key]


def combine(P, case_comb):
    """A set of integer combinations of members, through the public constructor; returns it and the combination matrix."""
    from FIAT import polynomial_set as PS
    n = P.get_num_members()
    C = np.zeros((len(case_comb), n))
    for r, terms in enumerate(case_comb):
        for i, c in terms:
            C[r, i % n] += c
    co = np.tensordot(C, P.get_coeffs(), (1, 0))
    return PS.PolynomialSet(P.get_reference_element(), P.get_degree(), P.get_embedded_degree(), P.get_expansion_set(), co, P.get_dmats()), C


def check_take(cell, shape, sym, case):
    P = original(cell, case["k"], shape, sym)
    n = P.get_num_members()
    A, C = combine(P, case["c"]) if case["general"] else (P, np.eye(n))
    m = A.get_num_members()
    items = [i % m for i in case["items"]]
    B = A.take(items if case["how"] == 0 else np.array(items, dtype=int) if case["how"] == 1 else tuple(items))
    before = [np.array(A.get_coeffs())] + [np.array(d) for d in A.get_dmats()]
    require(B.get_num_members() == len(items), "%d members taken, expected %d", B.get_num_members(), len(items))
    require(tuple(B.get_shape()) == tuple(shape), "shape %s", B.get_shape())
    require((B.get_degree(), B.get_embedded_degree()) == (A.get_degree(), A.get_embedded_degree()), "degree changed to %s", B.get_degree())
    pts = cells.points(cell, case["p"])
    ta, tb = A.tabulate(pts, case["r"]), B.tabulate(pts, case["r"])
    require(set(ta) == set(tb) == set(fem.multi(cells.geo(cell).sd, case["r"])), "tables %s", sorted(tb))
    for a in ta:
        close(tb[a], ta[a][items], max(1.0, np.abs(ta[a]).max()), 1e-12, "members %s, derivative %s" % (items, a))
    after = [A.get_coeffs()] + list(A.get_dmats())
    require(all(np.array_equal(x, y) for x, y in zip(before, after)), "taking a subset changed the original set")
    return {"subset of %s" % ("general" if case["general"] else "orthonormal"), "%d taken" % len(items)} if items else None


def check_union(cell, shape, sym, case):
    from FIAT import polynomial_set as PS
    P = original(cell, case["k"], shape, sym)
    n = P.get_num_members()
    (A, CA), (B, CB) = combine(P, case["a"]), combine(P, case["b"])
    if not np.any(CA) and not np.any(CB):
        return None
    C = np.concatenate([CA, CB])
    s = np.linalg.svd(C)[1]
    rank = np.linalg.matrix_rank(C)
    if s[rank - 1] < 1e-6:
        return None
    U = PS.polynomial_set_union_normalized(A, B)
    require(U.get_num_members() == rank, "union of sets of ranks %d and %d has %d members, expected %d", np.linalg.matrix_rank(CA), np.linalg.matrix_rank(CB),
            U.get_num_members(), rank)
    require(tuple(U.get_shape()) == tuple(shape), "shape %s", U.get_shape())
    require((U.get_degree(), U.get_embedded_degree()) == (A.get_degree(), A.get_embedded_degree()), "degree changed to %s", U.get_degree())
    co = U.get_coeffs().reshape(rank, -1)
    close(co @ co.T, np.eye(rank), 1.0, 1e-10, "Gram matrix of the coefficients of the union")
    # same span, by values: coefficients of U's members in the original set from its tables
    nodes = fem.as_points(polys.fit_nodes(cell, polys.total_basis(cell, case["k"])))
    d = cells.geo(cell).sd
    z = (0,) * d
    T = P.tabulate(nodes)[z].reshape(n, -1)
    TU = U.tabulate(nodes)[z].reshape(rank, -1)
    X, *_ = np.linalg.lstsq(T.T, TU.T, rcond=None)
    X = X.T
    close(X @ T, TU, max(1.0, np.abs(TU).max()), 1e-8, "members of the union in the original set")
    Q = np.linalg.svd(C)[2][:rank]
    close(X - (X @ Q.T) @ Q, 0 * X, 1.0, 1e-7, "part of the union's members outside the sum of the spans")
    require(np.linalg.matrix_rank(X, tol=1e-6) == rank, "members of the union are dependent")
    # derivatives of the members
    pts = cells.points(cell, case["p"])
    tp, tu = P.tabulate(pts, case["r"]), U.tabulate(pts, case["r"])
    for a in tp:
        close(tu[a], np.tensordot(X, tp[a], (1, 0)), max(1.0, np.abs(tp[a]).max()) * n, 1e-8, "derivative %s of the union's members" % (a,))
    ra, rb = np.linalg.matrix_rank(CA), np.linalg.matrix_rank(CB)
    return {"overlapping spans" if rank < ra + rb else "disjoint spans", "rank %d" % rank}


def check_project(cell, case):
    import FIAT
    from FIAT import polynomial_set as PS
    from FIAT.quadrature import QuadratureRule
    k = case["k"]
    P = original(cell, k, (), False)
    U = P if case["how"] == 0 else P.take(sorted({i % P.get_num_members() for i in case["items"]})) if case["how"] == 1 else None
    if U is None:
        U, C = combine(P, case["c"])
        if np.linalg.matrix_rank(C) < len(C) or np.linalg.cond(C @ C.T) > 1e4:
            return None
    g = cells.geo(cell)
    m = U.get_num_members()
    co = np.array([case["f"][i % len(case["f"])] + (i % 3) for i in range(m)], dtype=float)
    basis = polys.total_basis(cell, k)
    nodes = polys.fit_nodes(cell, basis)
    z = (0,) * g.sd
    fc, _ = polys.fit(basis, nodes, co @ U.tabulate(fem.as_points(nodes))[z])
    f = lambda x: float((fc @ basis.tab(np.array([x])))[0])
    deg = 2 * k + case["extra"]
    if case["rule"]:
        Q = FIAT.create_quadrature(g.make(), deg)
    else:
        x, w = polys.cell_rule(cell, deg)
        Q = QuadratureRule(g.make(), [tuple(p) for p in x], w)
    got = np.asarray(PS.project(f, U, Q), dtype=float)
    close(got, co, max(1.0, np.abs(co).max()) * 10, 1e-8, "coefficients of a member of the set")
    return {"projection onto %s" % ["the whole set", "a subset", "combinations"][case["how"]]} if np.any(co) else None


def check_mis(case):
    from FIAT.polynomial_set import form_matrix_product, mis
    m, n = case["m"], case["n"]
    got = mis(m, n)
    want = sorted((a for a in itertools.product(range(n + 1), repeat=m) if sum(a) == n), reverse=True)
    require([tuple(a) for a in got] == want, "mis(%d, %d) = %s", m, n, got[:20])
    require(len(want) == math.comb(n + m - 1, m - 1), "harness")
    mats = [np.array(case["mats"][i * 4:(i + 1) * 4], dtype=float).reshape(2, 2) for i in range(m)]
    a = want[case["pick"] % len(want)]
    prod = np.eye(2)
    for i in range(m):
        for _ in range(a[i]):
            prod = mats[i] @ prod
    keep = [x.copy() for x in mats]
    close(form_matrix_product(mats, a), prod, max(1.0, np.abs(prod).max()), 1e-12, "form_matrix_product for %s" % (a,))
    require(all(np.array_equal(x, y) for x, y in zip(keep, mats)), "form_matrix_product changed its arguments")
    return {"%d-tuples of sum %d" % (m, n)} if m > 1 and n else None


def strata(tier):
    q = tier == "quick"
    out = []
    weight = st.one_of(st.integers(-3, 3).filter(bool), st.integers(-3, 3).filter(bool), st.sampled_from([1e-2, -1e-3, 1e-4, 1e-5, 1e3]))  # nearly parallel members
    comb = st.lists(st.lists(st.tuples(st.integers(0, 400), weight), min_size=1, max_size=3), min_size=1, max_size=5)
    for c in ("I", "dI", "T", "dT", "iT", "K", "dK", "iK"):
        d = cells.geo(c).sd
        top = {1: 6 if q else 10, 2: 4 if q else 6, 3: 3 if q else 4}[d]
        shapes = {str(s): s for s in [((), False), ((d,), False), ((d, d), False), ((2, 3), False), ((d, d), True)]}.values()
        for shape, sym in shapes:
            name = "%s %s%s" % (c, shape, " symmetric" if sym else "")
            cost = d * d * (1 + len(shape))
            base = {"k": st.integers(0 if not sym else 0, top), "p": cells.points_strategy(c, 1, 4), "r": st.integers(0, 2)}
            out.append(Stratum("subset " + name, lambda base=base: st.fixed_dictionaries({
                **base, "items": st.lists(st.integers(0, 400), max_size=6), "c": comb, "general": st.booleans(), "how": st.integers(0, 2)}),
                lambda case, c=c, s=shape, y=sym: check_take(c, s, y, case), n=(40, 300), cost=cost))
            out.append(Stratum("union " + name, lambda base=base: st.fixed_dictionaries({**base, "a": comb, "b": comb}),
                               lambda case, c=c, s=shape, y=sym: check_union(c, s, y, case), n=(40, 300), cost=cost))
            if not sym:    # unions that overlap by construction
                out.append(Stratum("overlapping union " + name, lambda base=base: st.fixed_dictionaries({**base, "a": comb, "b": comb}).map(overlap),
                                   lambda case, c=c, s=shape, y=sym: check_union(c, s, y, case), n=(30, 200), cost=cost))
        out.append(Stratum("projection " + c, lambda c=c, top=top: st.fixed_dictionaries({
            "k": st.integers(0, top), "how": st.integers(0, 2), "items": st.lists(st.integers(0, 100), min_size=1, max_size=5), "c": comb,
            "f": st.lists(st.integers(-5, 5), min_size=1, max_size=4), "extra": st.integers(0, 3), "rule": st.booleans()}),
            lambda case, c=c: check_project(c, case), n=(60, 400), cost=4))
    out.append(Stratum("multi-indices", lambda: st.fixed_dictionaries({
        "m": st.integers(1, 5), "n": st.integers(0, 7), "mats": st.lists(st.integers(-2, 2), min_size=20, max_size=20), "pick": st.integers(0, 500)}),
        check_mis, n=(200, 1000)))
    return out


def overlap(case):
    """The second set repeats a member of the first and contains a sum of both sets' members."""
    a, b = case["a"], case["b"]
    return {**case, "b": b + [a[0], [tuple(t) for t in a[-1]] + [tuple(t) for t in b[0]]]}
