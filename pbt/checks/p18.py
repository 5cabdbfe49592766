"""P18: elements form the discrete de Rham complex and moment-based interpolation commutes."""
import itertools

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
import polys
from checks.p01 import active, node_matrix
from core import Stratum
from fem import close, require

RULE = ("One stratum per complex (sequence of element configurations with grad, curl, rot or div between them) and per commuting diagram. Each case "
        "of a complex draws a member and a random function of it (integer combination of tabulated basis functions, or of the kernel of the outgoing map): its "
        "derivative must lie in the next space and, when that element is nodal, be reproduced by its published degrees of freedom; a kernel "
        "function must be the derivative of a function of the previous space. Ranks of all maps are checked per complex. Each case of "
        "a diagram draws a polynomial field, interpolates it with the published degrees of freedom, and compares derivative of interpolant with "
        "interpolant (or L2 projection) of derivative at generated points. Non-trivial: the derivative does not vanish, or the kernel function is not zero.")


def perm(v, alphas):
    return [v(a) for a in alphas]


def unit(i, sd):
    return tuple(int(i == j) for j in range(sd))


def grad(v, sd):
    """v(alpha) -> (m, npts); returns (m, sd, npts)."""
    return np.stack([v(unit(i, sd)) for i in range(sd)], axis=1)


def curl2(v, sd):
    g = grad(v, 2)
    return np.stack([g[:, 1], -g[:, 0]], axis=1)


def rot(v, sd):
    return v((1, 0))[:, 1] - v((0, 1))[:, 0]


def curl3(v, sd):
    D = [v(unit(i, 3)) for i in range(3)]
    return np.stack([D[1][:, 2] - D[2][:, 1], D[2][:, 0] - D[0][:, 2], D[0][:, 1] - D[1][:, 0]], axis=1)


def div(v, sd):
    return sum(v(unit(i, sd))[:, i] for i in range(sd))


OPS = {"grad": grad, "curl2": curl2, "rot": rot, "curl3": curl3, "div": div}


def mat(T):
    return T.reshape(len(T), -1)


class Complex:
    def __init__(self, seq, ops):
        self.F = [fem.fe(c) for c in seq]
        self.ops = ops
        self.sd = sd = self.F[0].sd
        cell = self.F[0].cell
        big = max(self.F, key=lambda F: F.basis.n)
        self.x = polys.fit_nodes(cell, big.basis, 3)
        self.V = [F.vals(self.x) for F in self.F]
        self.D = [OPS[o](lambda a, F=F: F.vals(self.x, a), sd) for o, F in zip(ops, self.F)]
        self.nodes = []
        ranks = []
        for i, D in enumerate(self.D):
            A, B = mat(self.V[i + 1]), mat(D)
            require(A.shape[1] == B.shape[1], "values of %s %s and of %s have different shapes", ops[i], self.F[i].cfg, self.F[i + 1].cfg)
            res = B.T - A.T @ np.linalg.lstsq(A.T, B.T, rcond=None)[0]
            close(res, np.zeros_like(res), max(1.0, np.abs(B).max()), 1e-7, "%s of %s in the span of %s" % (ops[i], catalog.label(self.F[i].cfg), catalog.label(self.F[i + 1].cfg)))
            s = np.linalg.svd(B, compute_uv=False)
            r = int((s > 1e-8 * s[0]).sum())
            ranks.append(r)
            require(np.linalg.matrix_rank(A, tol=1e-8 * np.linalg.norm(A, 2)) == self.F[i + 1].n, "basis of %s is dependent", catalog.label(self.F[i + 1].cfg))
        dims = [F.n for F in self.F]
        require(ranks[0] == dims[0] - 1, "the kernel of %s on %s has dimension %d, not 1", ops[0], catalog.label(seq[0]), dims[0] - ranks[0])
        for i in range(1, len(ranks)):
            require(ranks[i] == dims[i] - ranks[i - 1], "kernel of %s on %s has dimension %d, image of %s has %d", ops[i], catalog.label(seq[i]),
                    dims[i] - ranks[i], ops[i - 1], ranks[i - 1])
        require(ranks[-1] == dims[-1], "%s of %s has dimension %d, not all of %s (%d)", ops[-1], catalog.label(seq[-2]), ranks[-1], catalog.label(seq[-1]), dims[-1])
        self.kernel = []
        for i, D in enumerate(self.D):
            u, s, vt = np.linalg.svd(mat(D).T)
            self.kernel.append(vt[ranks[i]:])

    def interpolate(self, i, values_at):
        """Apply the published degrees of freedom of element i to a field."""
        F = self.F[i]
        if not fem.nodal(F.cfg):
            return None
        terms = [active(n) for n in F.element.dual_basis()]
        if any(n.get_type_tag() == "Undefined" for n in F.element.dual_basis()):
            return None
        zero = (0,) * self.sd
        if any(t[1] not in (None, zero) for ts in terms for t in ts):
            return None
        return node_matrix(F, terms, lambda pts, a: values_at(np.array(pts)))[:, 0]


_cache = {}


def cx(seq, ops):
    k = catalog.key([seq, ops])
    if k not in _cache:
        _cache.clear()
        _cache[k] = Complex(seq, ops)
    return _cache[k]


def check(seq, ops, case):
    C = cx(seq, ops)
    i = case["i"] % len(ops)
    F, G = C.F[i], C.F[i + 1]
    pts = np.array(cells.points(F.cell, case["p"]))
    label = "%s %s" % (ops[i], F.cfg[0])
    if case["kernel"] and len(C.kernel[i]) and i > 0:
        c = np.zeros(F.n)
        for j, a in case["f"]:
            c = c + a * C.kernel[i][j % len(C.kernel[i])]
        if not np.abs(c).max() > 1e-9:
            return None
        v = np.tensordot(c, C.V[i], (0, 0))
        D = C.D[i - 1]
        b = np.linalg.lstsq(mat(D).T, v.ravel(), rcond=1e-11)[0]
        at = np.tensordot(c, F.vals(pts), (0, 0))
        prev = np.tensordot(b, OPS[ops[i - 1]](lambda a: C.F[i - 1].vals(pts, a), C.sd), (0, 0))
        close(prev, at, max(1.0, np.abs(at).max(), np.abs(v).max()), 1e-6, "kernel function of %s on %s as %s of %s" % (
            ops[i], catalog.label(F.cfg), ops[i - 1], catalog.label(C.F[i - 1].cfg)))
        return "kernel of " + label
    c = np.zeros(F.n)
    for j, a in case["f"]:
        c[j % F.n] += a

    def deriv(x):
        return np.tensordot(c, OPS[ops[i]](lambda a: F.vals(x, a), C.sd), (0, 0))
    want = deriv(pts)
    big = max(1.0, np.abs(np.tensordot(c, C.D[i], (0, 0))).max(), np.abs(want).max())
    d = C.interpolate(i + 1, lambda x: deriv(x)[None])
    if d is None:
        d = np.linalg.lstsq(mat(C.V[i + 1]).T, np.tensordot(c, C.D[i], (0, 0)).ravel(), rcond=None)[0]
    T = G.tab(pts)
    close(np.tensordot(d, T, (0, 0)), want, big * max(1.0, np.abs(T).max()) * np.sqrt(G.n), 1e-7, "%s of %s interpolated in %s" % (
        ops[i], catalog.label(F.cfg), catalog.label(G.cfg)))
    return label if np.abs(want).max() > 1e-9 else None


# ------------------------------------------------------------------ commuting diagrams

class Diagram:
    def __init__(self, V, op, W, k):
        self.F = fem.fe(V)
        self.sd = self.F.sd
        self.op = op
        self.k = k
        self.W = fem.fe(W) if W[0] != "L2" else None
        self.terms = [active(n) for n in self.F.element.dual_basis()]
        if self.W:
            self.wterms = [active(n) for n in self.W.element.dual_basis()]
        else:
            self.P = polys.total_basis(self.F.cell, W[1])
            self.rule = polys.cell_rule(self.F.cell, W[1] + k)
            T = self.P.tab(self.rule[0])
            self.Ginv = np.linalg.inv((T * self.rule[1]) @ T.T)


def dg(V, op, W, k):
    key = catalog.key([V, op, W, k])
    if key not in _cache:
        _cache.clear()
        _cache[key] = Diagram(V, op, W, k)
    return _cache[key]


def commute(V, op, W, k, low, case):
    """k: degree of the fields; low: full degree contained in the space."""
    D = dg(V, op, W, k)
    F, sd = D.F, D.sd
    deg = low if case["low"] else k
    ex = polys.total_degree_exponents(sd, deg)
    comps = [polys.Poly(F.cell, [(a, ex[j % len(ex)]) for c, j, a in case["f"] if c % sd == r] or [(0, ex[0])]) for r in range(sd)]
    f = lambda x, a=None: np.array([p(np.asarray(x, dtype=float), a) for p in comps])[None]
    d = node_matrix(F, D.terms, lambda pts, a: f(pts, a))[:, 0]
    pts = np.array(cells.points(F.cell, case["p"]))
    mag = max(1.0, np.abs(d).max(), np.abs(f(pts)).max())
    if case["low"]:
        T = F.tab(pts)
        close(np.tensordot(d, T, (0, 0)), f(pts)[0], mag * max(1.0, np.abs(T).max()) * np.sqrt(F.n), 1e-7, "interpolant in %s of a field of degree %d" % (catalog.label(V), deg))
        return "low degree" if np.abs(f(pts)).max() > 1e-9 else None
    O = OPS[op]
    tabs = {unit(i, sd): F.tab(pts, unit(i, sd), order=1) for i in range(sd)}
    got = np.tensordot(d, O(lambda a: tabs[a], sd), (0, 0))
    df = lambda x: O(lambda a: f(x, a), sd)
    if D.W:
        w = node_matrix(D.W, D.wterms, lambda p, a: df(np.array(p)))[:, 0]
        T = D.W.tab(pts)
        want = np.tensordot(w, T, (0, 0))
        s = max(1.0, np.abs(w).max()) * max(1.0, np.abs(T).max())
    else:
        x, q = D.rule
        want = (D.Ginv @ ((D.P.tab(x) * q) @ df(x)[0])) @ D.P.tab(pts)
        s = 1.0
    scale = max(s, mag * max(1.0, max(np.abs(t).max() for t in tabs.values())), np.abs(want).max()) * np.sqrt(F.n)
    close(got, want, scale, 1e-7, "%s of the interpolant in %s against %s of the %s" % (op, catalog.label(V), W[0], op))
    return "commuting" if np.abs(df(pts)).max() > 1e-9 else None


def complexes(tier):
    q = tier == "quick"
    out = []
    for c in ("T", "dT", "iT"):
        for k in range(1, (4 if c == "T" else 3) if q else 6):
            for var in ("point", "integral"):
                out.append(([["Lagrange", c, k], ["N1", c, k, var], ["DG", c, k - 1]], ["grad", "rot"]))
                out.append(([["Lagrange", c, k], ["RT", c, k, var], ["DG", c, k - 1]], ["curl2", "div"]))
                out.append(([["Lagrange", c, k + 1], ["N2", c, k, var], ["DG", c, k - 1]], ["grad", "rot"]))
                out.append(([["Lagrange", c, k + 1], ["BDM", c, k, var], ["DG", c, k - 1]], ["curl2", "div"]))
            out.append(([["Lagrange", c, k], ["DRT", c, k], ["DG", c, k - 1]], ["curl2", "div"]))
    for c in ("K", "dK", "iK"):
        for k in range(1, (3 if c == "K" else 2) if q else 4):
            for var in ("point", "integral"):
                out.append(([["Lagrange", c, k], ["N1", c, k, var], ["RT", c, k, var], ["DG", c, k - 1]], ["grad", "curl3", "div"]))
                if c == "K" or k == 1:
                    out.append(([["Lagrange", c, k + 1], ["N2", c, k, var], ["RT", c, k, var], ["DG", c, k - 1]], ["grad", "curl3", "div"]))
                if c == "K" and k < (2 if q else 3):
                    out.append(([["Lagrange", c, k + 2], ["N2", c, k + 1, var], ["BDM", c, k, var], ["DG", c, k - 1]], ["grad", "curl3", "div"]))
    if q:
        out.append(([["Lagrange", "K", 3], ["N1", "K", 3, "point"], ["RT", "K", 3, "point"], ["DG", "K", 2]], ["grad", "curl3", "div"]))
    # products
    for k in range(1, 3 if q else 4):
        L, D = ["Lagrange", "I", k], ["DG", "I", k - 1]
        if k == 2:
            L, D = ["GLL", "I", k], ["GL", "I", k - 1]
        t = lambda a, b: ["TPE", a, b]
        rtcf = ["Enriched", ["Hdiv", t(L, D)], ["Hdiv", t(D, L)]]
        rtce = ["Enriched", ["Hcurl", t(L, D)], ["Hcurl", t(D, L)]]
        for wrap in (lambda e: e, lambda e: ["Flat", e]):
            out.append(([wrap(t(L, L)), wrap(rtce), wrap(t(D, D))], ["grad", "rot"]))
            out.append(([wrap(t(L, L)), wrap(rtcf), wrap(t(D, D))], ["curl2", "div"]))
        ncf = ["Enriched", ["Hdiv", t(rtcf, D)], ["Hdiv", t(t(D, D), L)]]
        nce = ["Enriched", ["Hcurl", t(rtce, L)], ["Hcurl", t(t(L, L), D)]]
        ncf2 = ["Enriched", ["Hdiv", t(rtce, D)], ["Hdiv", t(t(D, D), L)]]
        nce2 = ["Enriched", ["Hcurl", t(rtcf, L)], ["Hcurl", t(t(L, L), D)]]
        out.append(([t(t(L, L), L), nce, ncf, t(t(D, D), D)], ["grad", "curl3", "div"]))
        out.append(([["Flat", t(t(L, L), L)], ["Flat", nce], ["Flat", ncf], ["Flat", t(t(D, D), D)]], ["grad", "curl3", "div"]))
        out.append(([t(t(L, L), L), nce2, ncf2, t(t(D, D), D)], ["grad", "curl3", "div"]))
        for var in ("point", "integral"):
            for h, c in (("N1", "RT"), ("RT", "N1")):
                out.append(([t(["Lagrange", "T", k], L),
                             ["Enriched", ["Hcurl", t([h, "T", k, var], L)], ["Hcurl", t(["Lagrange", "T", k], D)]],
                             ["Enriched", ["Hdiv", t([c, "T", k, var], D)], ["Hdiv", t(["DG", "T", k - 1], L)]],
                             t(["DG", "T", k - 1], D)], ["grad", "curl3", "div"]))
    return out


def diagrams(tier):
    """(V, op, W, degree of fields, degree contained)"""
    q = tier == "quick"
    out = []
    for c in ("T", "dT", "iT"):
        for k in range(1, (4 if c == "T" else 3) if q else 6):
            for f, op, low in (("RT", "div", k - 1), ("N1", "rot", k - 1), ("BDM", "div", k), ("N2", "rot", k)):
                out.append(([f, c, k, "integral"], op, ["L2", k - 1], k + 2, low))
                n = k + 1 if f in ("RT", "N1") else k + 2
                out.append(([f, c, k, "integral(%d)" % (2 * n)], op, ["L2", k - 1], n, low))
    for c in ("K", "dK", "iK"):
        for k in range(1, (3 if c == "K" else 2) if q else 4):
            out.append((["RT", c, k, "integral"], "div", ["L2", k - 1], k + 1, k - 1))
            if c == "K" or not q or k == 1:
                out.append((["BDM", c, k, "integral"], "div", ["L2", k - 1], k + 1, k))
            out.append((["N1", c, k, "integral"], "curl3", ["RT", c, k, "integral"], k + 1, k - 1))
            if k > 1 and c == "K" and (not q or k == 2):
                out.append((["N2", c, k, "integral"], "curl3", ["BDM", c, k - 1, "integral"], k + 1, k))
            if k == 1:
                out.append((["N2", c, k, "integral"], "curl3", ["RT", c, k, "integral"], k + 1, k))
    return out


def strategy(cell):
    return st.fixed_dictionaries({"i": st.integers(0, 5), "kernel": st.booleans(), "p": cells.points_strategy(cell, 1, 4),
                                  "f": st.lists(st.tuples(st.integers(0, 300), st.integers(-9, 9).filter(bool)), min_size=1, max_size=6)})


def strategy2(cell):
    return st.fixed_dictionaries({"low": st.sampled_from([False, False, True]), "p": cells.points_strategy(cell, 1, 4),
                                  "f": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 100), st.integers(-9, 9).filter(bool)), min_size=1, max_size=6)})


def strata(tier):
    out = []
    for seq, ops in complexes(tier):
        cell = catalog.cell_of(seq[0])
        out.append(Stratum(" -> ".join(catalog.label(c) for c in seq), lambda cell=cell: strategy(cell), lambda case, s=seq, o=ops: check(s, o, case),
                           n=(25, 150), cost=sum(fem.cost(c) for c in seq)))
    for V, op, W, k, low in diagrams(tier):
        cell = catalog.cell_of(V)
        out.append(Stratum("%s of %s vs %s" % (op, catalog.label(V), "L2" if W[0] == "L2" else catalog.label(W)), lambda cell=cell: strategy2(cell),
                           lambda case, a=(V, op, W, k, low): commute(*a, case), n=(25, 150), cost=fem.cost(V) + (fem.cost(W) if W[0] != "L2" else 0)))
    return out
