"""P17: degrees of freedom measure the quantities their family defines."""
import itertools

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
import polys
from checks.p01 import active
from checks.p16 import edge, normal
from core import Stratum
from fem import close, require

RULE = ("One stratum per element configuration. Each case draws an entity carrying degrees of freedom and a polynomial field: either a sparse integer "
        "combination of fields whose relevant trace on the entity vanishes by construction (multiplied by the barycentric coordinates of vertices off "
        "the entity, or pointing in a direction the trace ignores), on which every degree of freedom of the entity must be zero; or an arbitrary field, on "
        "which the degrees of freedom of the entity must be the fixed invertible combination of the moments or nodal values that the family states "
        "(computed by the harness). Node positions of point families are compared with their definitions. Non-trivial: the field is not zero and the "
        "entity is not the only one (or the quantities are stated).")
ASSUMPTIONS = ["nodes documented only as 'point evaluation' (point variants of RT, BDM, Nedelec, BDFM, HHJ, Regge) are required to lie in their entity, "
               "not at particular points"]


# ------------------------------------------------------------------ traces that families define

def ignored_directions(cfg, g, d, e):
    """Constant vectors or tensors whose trace on the entity vanishes, or None if the family's trace is the full value."""
    fam = cfg[0]
    v = g.verts[list(g.topo[d][e])]
    T = v[1:] - v[0]
    sd = g.sd
    I = np.eye(sd)
    if fam in ("RT", "BDM", "BDFM"):
        return list(T) if d == sd - 1 else []
    if fam in ("N1", "N2"):
        return list(np.linalg.svd(T)[2][d:]) if d < sd else []
    sym = lambda a, b: np.outer(a, b) + np.outer(b, a)
    if fam == "Regge":
        return [sym(n, x) for n in np.linalg.svd(T)[2][d:] for x in I] if d < sd else []
    if fam == "HHJ":
        return [sym(t, x) for t in T for x in I] if d == 1 else []
    if fam in ("AW", "AWnc"):
        return [sym(T[0], T[0])] if d == 1 else []
    return []


# ------------------------------------------------------------------ quantities that families state

def lattice(g, d, e, n):
    """Points of the interior of entity (d, e) at the barycentric lattice of order n."""
    v = g.verts[list(g.topo[d][e])]
    return [np.array(w, dtype=float) @ v / n for w in itertools.product(range(1, n + 1), repeat=d + 1) if sum(w) == n] if d else [v[0]]


def lobatto(n):
    """n Gauss-Lobatto points on [-1, 1]."""
    return np.concatenate([[-1], np.polynomial.legendre.Legendre.basis(n - 1).deriv().roots(), [1]]) if n > 2 else np.array([-1., 1.])


def radau(n):
    """n Radau points on [-1, 1] including the right end."""
    P = np.polynomial.legendre.Legendre
    return np.sort(-(P.basis(n) + P.basis(n - 1)).roots()) if n > 1 else np.array([1.])


def line_points(g, x):
    a, b = g.verts[0, 0], g.verts[1, 0]
    return [np.array([a + (b - a) * (t + 1) / 2]) for t in x]


def stated_nodes(cfg, g, d, e):
    """Positions of the point values attached to entity (d, e), or None when not stated."""
    fam = cfg[0]
    sd = g.sd
    k = cfg[2] if len(cfg) > 2 else None
    if fam == "Lagrange":
        return lattice(g, d, e, k)
    if fam == "Bubble":
        return lattice(g, d, e, k) if d == sd else []
    if fam == "FacetBubble":
        return lattice(g, d, e, k) if d == sd - 1 else []
    if fam in ("DG", "P0") or (fam == "DTaylor" and k == 0):      # the Taylor element of degree 0 is P0
        if d < sd:
            return []
        if fam == "P0" or k == 0:
            return [g.verts.mean(axis=0)]
        return [p for dd, ee in g.entities() for p in lattice(g, dd, ee, k)]
    if fam == "CR":
        return [g.verts[list(g.topo[d][e])].mean(axis=0)] if d == sd - 1 else []
    if fam == "GL":
        return line_points(g, np.polynomial.legendre.leggauss(k + 1)[0]) if d == 1 else []
    if fam == "GR":
        return line_points(g, radau(k + 1)) if d == 1 else []
    if fam == "GLL":
        return [g.verts[e]] if d == 0 else line_points(g, lobatto(k + 1)[1:-1])
    if fam == "KMV":
        import FIAT
        lam = polys.barycentric(g.name, FIAT.create_quadrature(g.make(), k, "KMV").get_points())
        on = [set(np.nonzero(np.abs(l) > 1e-10)[0]) == set(g.topo[d][e]) for l in lam]
        return [l @ g.verts for l, o in zip(lam, on) if o]
    return None


class Rows:
    """Linear functionals on fields given by coefficients in a scalar harness basis."""

    def __init__(self, B, vs):
        self.B, self.vs, self.rows = B, vs, []

    def add(self, terms):
        """terms: (point, alpha or None, direction array of the value shape, weight)"""
        r = np.zeros(self.vs + (self.B.n,))
        for p, a, D, w in terms:
            r = r + w * np.multiply.outer(np.asarray(D, dtype=float), self.B.tab(np.array([p]), a)[:, 0])
        self.rows.append(r)

    def moment(self, x, w, D):
        """integral of field : D over points x with weights w; D constant or one per point."""
        D = np.asarray(D, dtype=float)
        T = self.B.tab(x)
        if D.shape == self.vs:
            self.rows.append(np.multiply.outer(D, T @ w))
        else:
            self.rows.append(np.einsum("q...,q,iq->...i", D, w, T))

    def array(self):
        A = np.array(self.rows)
        if len(self.vs) == 2:
            A = (A + np.swapaxes(A, 1, 2)) / 2
        return A


def unit(al, sd):
    return tuple(int(i == al) for i in range(sd))


def scalar_tests(name, k, x):
    """Scalar polynomials of degree k on a reference cell, at points x: (m, nq)."""
    if k < 0:
        return np.zeros((0, len(x)))
    if cells.geo(name).sd == 0:
        return np.ones((1, len(x)))
    return polys.total_basis(name, k).tab(x)


def entity_rule(g, d, e, deg):
    x, w = polys.cell_rule(g.sub_name(d), deg) if d else (np.zeros((1, 0)), np.ones(1))
    return x, np.array([g.map_entity(d, e, p) for p in x]), w


def stated(cfg, g, d, e, B, K):
    """Rows of the quantities the family states on entity (d, e), or None."""
    fam = cfg[0]
    sd = g.sd
    k = cfg[2] if len(cfg) > 2 and isinstance(cfg[2], int) else None
    variant = cfg[3] if len(cfg) > 3 else None
    vs = (sd,) * catalog.RANK.get(fam, 0)
    R = Rows(B, vs)
    zero = None
    n = normal(g, e) if d == sd - 1 and sd > 1 else None

    def moments(tests, deg, D):
        x, y, w = entity_rule(g, d, e, K + deg)
        for p in tests(x):
            R.moment(y, w * p, D)

    nodes = stated_nodes(cfg, g, d, e)
    if nodes is not None:
        for p in nodes:
            R.add([(p, zero, 1.0, 1.0)])
        return R.array()
    v = g.verts[list(g.topo[d][e])]
    if fam in ("Hermite", "Argyris", "QArgyris", "Bell", "Morley") and d == 0:
        order = {"Hermite": 1, "Morley": 0}.get(fam, 2)
        for a in fem.multi(sd, order):
            R.add([(v[0], a, 1.0, 1.0)])
        return R.array()
    if fam == "Hermite":
        if d == 2:
            R.add([(v.mean(axis=0), zero, 1.0, 1.0)])
        return R.array() if R.rows else None
    if fam in ("Argyris", "QArgyris", "Morley"):
        kk = k if fam == "Argyris" else 5
        if d == 1:
            for p in lattice(g, 1, e, kk - 3):
                R.add([(p, unit(i, sd), 1.0, n[i]) for i in range(sd)])
            for p in lattice(g, 1, e, kk - 4) if kk > 5 else []:
                R.add([(p, zero, 1.0, 1.0)])
        else:
            for p in lattice(g, 2, 0, kk - 3) if kk > 5 else []:
                R.add([(p, zero, 1.0, 1.0)])
        return R.array() if R.rows else None
    if fam == "Bell" and d == 1:
        x, w = polys.gauss01(8)
        y = v[0] + x[:, None] * (v[1] - v[0])
        leg = np.polynomial.legendre.legval(2 * x - 1, [0, 0, 0, 0, 1])
        R.add([(p, unit(i, sd), 1.0, n[i] * a * b) for p, a, b in zip(y, w, leg) for i in range(sd)])
        return R.array()
    if fam == "DTaylor" and d == sd:
        x, w = polys.cell_rule(g.name, K)
        R.moment(x, w, 1.0)
        for a in fem.multi(sd, k)[1:]:
            R.add([(g.verts.mean(axis=0), a, 1.0, 1.0)])
        return R.array()
    integral = variant is not None and variant.startswith("integral")
    I = np.eye(sd)
    sub = g.sub_name(d)
    if fam == "RT" and integral:
        if d == sd - 1:
            moments(lambda x: scalar_tests(sub, k - 1, x), k - 1, n)
        elif d == sd:
            for i in range(sd):
                moments(lambda x: scalar_tests(sub, k - 2, x), k - 2, I[i])
        return R.array() if R.rows else None
    if fam == "BDM" and (integral or d == sd):
        if d == sd - 1:
            moments(lambda x: scalar_tests(sub, k, x), k, n)
        elif d == sd and k > 1:
            x, w = polys.cell_rule(g.name, K + k - 1)
            for p in independent(fem.span(["N1", g.name, k - 1, "point"], x)):
                R.moment(x, w, p.T)
        return R.array() if R.rows else None
    if fam == "N1" and (integral or d == sd):
        if d == 1:
            moments(lambda x: scalar_tests(sub, k - 1, x), k - 1, edge(g, e))
        elif d == 2 and sd == 3:
            for t in v[1:] - v[0]:
                moments(lambda x: scalar_tests(sub, k - 2, x), k - 2, t)
        else:
            for i in range(sd):
                moments(lambda x: scalar_tests(sub, k - sd, x), k - sd, I[i])
        return R.array() if R.rows else None
    if fam == "N2" and (integral or d > 1):
        if d == 1:
            moments(lambda x: scalar_tests(sub, k, x), k, edge(g, e))
        elif k - d + 1 > 0:          # moments against first-kind Raviart-Thomas fields of the entity, mapped with its tangents
            x, y, w = entity_rule(g, d, e, K + k)
            J = np.array([g.map_entity(d, e, p) - g.map_entity(d, e, np.zeros(d)) for p in np.eye(d)]).T
            for p in independent(fem.span(["RT", sub, k - d + 1, "point"], x)):
                R.moment(y, w, (J @ p).T)
        return R.array() if R.rows else None
    if fam == "MTW":
        if d == 1:
            moments(lambda x: scalar_tests(sub, 3, x), 3, n)
            moments(lambda x: scalar_tests(sub, 0, x), 0, edge(g, e))
        elif d == 2:
            x, w = polys.cell_rule(g.name, K + 2)
            q = scalar_tests(g.name, 2, x)
            q = q - (q @ w / w.sum())[:, None]
            for p in independent(q):
                R.add([(y, unit(i, 2), I[i], a * b) for y, a, b in zip(x, w, p) for i in range(2)])
        return R.array() if R.rows else None
    if fam in ("AW", "AWnc"):
        if d == 0 and fam == "AW":
            for i, j in ((0, 0), (0, 1), (1, 1)):
                R.add([(v[0], zero, np.outer(I[i], I[j]), 1.0)])
        elif d == 1:
            m = 1 if fam == "AW" else 2
            moments(lambda x: scalar_tests(sub, m, x), m, np.outer(n, n))
            moments(lambda x: scalar_tests(sub, 1, x), 1, np.outer(n, edge(g, e)))
        elif d == 2:
            for i, j in ((0, 0), (0, 1), (1, 1)):
                moments(lambda x: scalar_tests(sub, 0, x), 0, np.outer(I[i], I[j]))
            if fam == "AW":
                x, w = polys.cell_rule(g.name, K + 4)
                lin = scalar_tests(g.name, 1, x)
                q = scalar_tests(g.name, 2, x)
                G = (lin * w) @ lin.T
                q = q - (np.linalg.solve(G, (lin * w) @ q.T)).T @ lin
                for p in independent(q):
                    for i in range(2):
                        R.add([(y, unit(j, 2), np.outer(I[i], I[j]), a * b) for y, a, b in zip(x, w, p) for j in range(2)])
        return R.array() if R.rows else None
    return None


def independent(S):
    """Orthonormal combinations of the rows of S spanning the same space of functions (values at points)."""
    u, s, vt = np.linalg.svd(S.reshape(len(S), -1), full_matrices=False)
    r = int((s > 1e-9 * s[0]).sum()) if len(s) else 0
    return vt[:r].reshape((r,) + S.shape[1:])


def quad_degree(cfg):
    """Degree up to which the stated quadrature is exact, or None when it is chosen generously."""
    import re
    m = re.match(r"integral\((\d+)\)", cfg[3]) if len(cfg) > 3 and cfg[3] else None
    return int(m.group(1)) if m else None


class Meaning:
    def __init__(self, cfg):
        self.cfg = cfg
        self.cell = catalog.cell_of(cfg)
        self.g = g = cells.geo(self.cell)
        e = catalog.element(cfg)
        self.vs = tuple(e.value_shape())
        self.nodes = e.dual_basis()
        self.terms = [active(n) for n in self.nodes]
        ids = e.entity_dofs()
        self.ents = [(d, i, list(ids[d][i])) for d in sorted(ids) for i in sorted(ids[d]) if ids[d][i]]
        k = fem.FIXED.get(cfg[0]) or fem.total_degree(cfg)
        self.K = max(k, 1) + (1 if g.sd < 3 or k < 3 else 0)
        q = quad_degree(cfg)
        if q is not None:
            self.K = min(self.K, q - k)
        self.B = polys.total_basis(self.cell, self.K) if self.K >= 0 else None
        order = max([sum(t[1]) for ts in self.terms for t in ts if t[1]] + [0])
        self.rel = {}
        for d, i, dofs in self.ents:
            want = stated_nodes(cfg, g, d, i)
            if want is not None:
                got = []
                for j in dofs:
                    require(len(self.terms[j]) == 1 and self.terms[j][0][1] is None and abs(self.terms[j][0][3] - 1) < 1e-14,
                            "degree of freedom %d of entity %s is not a point value", j, (d, i))
                    got.append(self.terms[j][0][0])
                require(len(got) == len(want), "%d nodes on entity %s, expected %d", len(got), (d, i), len(want))
                close(sort(got), sort(want), 1.0, 1e-12, "node positions on entity %s" % ((d, i),))
            for j in dofs:       # all points in the closed entity
                P = np.array([t[0] for t in self.terms[j]], dtype=float)
                lam = polys.barycentric(self.cell, P)
                off = [a for a in range(len(g.verts)) if a not in g.topo[d][i]]
                require(np.abs(lam[:, off]).max(initial=0) <= 1e-10 and lam.min() >= -1e-10,
                        "degree of freedom %d of entity %s uses points outside it: %s", j, (d, i), P[:3])
            if self.B is None:
                continue
            H = stated(cfg, g, d, i, self.B, self.K)
            if H is None:
                continue
            R = Rows(self.B, self.vs)
            for j in dofs:
                R.add([(p, a, one(c, self.vs), w) for p, a, c, w in self.terms[j]])
            D = R.array()
            require(len(D) == len(H), "%d degrees of freedom on entity %s, %d quantities stated", len(D), (d, i), len(H))
            fD, fH = D.reshape(len(D), -1), H.reshape(len(H), -1)
            rank = np.linalg.matrix_rank(fH, tol=1e-9 * np.abs(fH).max())
            A = np.linalg.lstsq(fH.T, fD.T, rcond=1e-11)[0].T
            if rank == len(H):
                s = np.linalg.svd(A / np.abs(A).max(axis=1, keepdims=True), compute_uv=False)
                require(s[-1] > 1e-7 * s[0], "degrees of freedom of entity %s are dependent combinations of the stated quantities", (d, i))
            self.rel[d, i] = D, H, A, 10 ** order


def one(c, vs):
    D = np.zeros(vs)
    D[c] = 1
    return D


def sort(P):
    P = np.round(np.asarray(P, dtype=float), 9)
    return P[np.lexsort(P.T)] if P.ndim == 2 and P.shape[1] else P


_cache = {}


def meaning(cfg):
    k = catalog.key(cfg)
    if k not in _cache:
        _cache.clear()
        _cache[k] = Meaning(cfg)
    return _cache[k]


def check(cfg, case):
    M = meaning(cfg)
    g, sd = M.g, M.g.sd
    d, i, dofs = M.ents[case["ent"] % len(M.ents)]
    labels = set()
    if case["kind"] == "any":
        if (d, i) not in M.rel:
            return None
        D, H, A, scale = M.rel[d, i]
        c = np.zeros(M.vs + (M.B.n,))
        flat = c.reshape(-1, M.B.n)
        for comp, b, a in case["f"]:
            flat[comp % len(flat), b % M.B.n] += a
        if len(M.vs) == 2:
            c = c + np.swapaxes(c, 0, 1)
        if not c.any():
            return None
        axes = tuple(range(c.ndim))
        x = np.tensordot(D, c, (tuple(a + 1 for a in axes), axes))
        h = np.tensordot(H, c, (tuple(a + 1 for a in axes), axes))
        s = max(1.0, np.abs(c).max()) * max(1.0, np.abs(D).max())
        close(x, A @ h, s, 1e-9, "degrees of freedom of entity %s against the quantities stated" % ((d, i),))
        return {"stated quantities", "entity dim %d" % d}
    # field with vanishing trace
    off = [a for a in range(len(g.verts)) if a not in g.topo[d][i]]
    dirs = ignored_directions(cfg, g, d, i)
    full = [one(c, M.vs) for c in itertools.product(*[range(n) for n in M.vs])]
    if len(M.vs) == 2:
        full = [D + D.T for D in full]
    gens = [(a, D) for a in off for D in full] + [(None, D) for D in dirs for _ in range(3)]
    if not gens:
        return None
    use = [(gens[a % len(gens)], b, c) for a, b, c in case["f"]]
    ex = polys.total_degree_exponents(sd, 3)
    scale = 1.0
    for j in dofs:
        if any(t[1] for t in M.terms[j]):
            continue
        P = np.array([t[0] for t in M.terms[j]], dtype=float)
        lam = polys.barycentric(M.cell, P)
        y = 2 * lam[:, 1:] - 1
        tot = np.zeros(M.vs + (len(P),))
        for (a, Dr), b, co in use:
            f = co * np.prod(y ** np.array(ex[b % len(ex)]), axis=1) * (lam[:, a] if a is not None else 1.0)
            tot = tot + np.multiply.outer(Dr, f)
        terms = [t[3] * tot[t[2] + (q,)] for q, t in enumerate(M.terms[j])]
        close(sum(terms), 0.0, max(1.0, sum(map(abs, terms)), sum(abs(t[3]) for t in M.terms[j])), 1e-10,
              "degree of freedom %d of entity %s on a field whose trace there vanishes" % (j, (d, i)))
        labels |= {"vanishing trace", "entity dim %d" % d}
        if dirs and any(a is None for (a, _), _, _ in use):
            labels.add("ignored direction")
    return labels


def strategy(cfg):
    coef = st.integers(-9, 9).filter(bool)
    item = st.tuples(st.integers(0, 60), st.integers(0, 200), coef)
    return st.fixed_dictionaries({"kind": st.sampled_from(["any", "zero"]), "ent": st.integers(0, 30), "f": st.lists(item, min_size=1, max_size=6)})


def strata(tier):
    out = []
    for c in catalog.basic(tier):
        if c[0] in ("Bernstein", "S", "DPC", "DRT"):
            continue
        out.append(Stratum(catalog.label(c), lambda c=c: strategy(c), lambda case, c=c: check(c, case), n=(30, 200), cost=fem.cost(c)))
    return out
