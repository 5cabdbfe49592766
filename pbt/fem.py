"""Independent descriptions of the elements' function spaces, and harness-side evaluation of tabulated bases."""
import functools
import itertools
import json
import math

import numpy as np

import catalog
import cells
import polys
from core import Violation

KMV_DEG = {2: {1: 1, 2: 3, 3: 4, 4: 5, 5: 7}, 3: {1: 1, 2: 4, 3: 5}}


def total_degree(cfg):
    """Polynomial degree of the largest full space containing a simplicial (or DPC) family."""
    fam = cfg[0]
    if fam in ("P0", "Quadrature"):
        return 0
    if fam == "KMV":
        return KMV_DEG[catalog.sd[cfg[1]]][cfg[2]]
    if fam == "DRT":
        return cfg[2]
    return cfg[2]


FIXED = {"Hermite": 3, "Morley": 2, "QArgyris": 5, "Bell": 5, "CR": 1}


def exps(cfg):
    """Exponents of a scalar polynomial space containing every component of every basis function."""
    fam = cfg[0]
    if fam == "TPE":
        return [a + b for a in exps(cfg[1]) for b in exps(cfg[2])]
    if fam in ("Flat", "Hdiv", "Hcurl", "Broken", "Restr", "RestrIdx", "Form"):
        return exps(cfg[1])
    if fam in ("Enriched", "Nodal", "Mixed"):
        out = {}
        for c in cfg[1:]:
            out.update(dict.fromkeys(exps(c)))
        return list(out)
    cell = cfg[1]
    sdim = cells.geo(cell).sd
    if fam == "S":
        return polys.box_degree_exponents(sdim, cfg[2])
    k = FIXED.get(fam) or total_degree(cfg)
    return polys.total_degree_exponents(sdim, k)


class FE:
    """An element under test with its zero-order basis fitted in a harness polynomial basis."""

    def __init__(self, cfg, fit=True):
        self.cfg = cfg
        self.element = e = catalog.element(cfg)
        self.cell = catalog.cell_of(cfg)
        self.geo = cells.geo(self.cell)
        self.sd = self.geo.sd
        self.zero = (0,) * self.sd
        self.vs = tuple(e.value_shape())
        self.n = e.space_dimension()
        if fit:
            self.fit()

    def fit(self):
        self.basis = polys.Basis(self.cell, exps(self.cfg))
        nodes = polys.fit_nodes(self.cell, self.basis)
        tab = self.tab(nodes)
        self.coef, res = polys.fit(self.basis, nodes, tab)
        self.scale = max(1.0, np.abs(tab).max())
        self.fit_residual = res
        if not res <= 1e-7 * self.scale:
            raise Violation("basis functions are not polynomials of the advertised degree: residual %.2e" % res)

    def tab(self, pts, alpha=None, entity=None, order=None):
        alpha = alpha or self.zero
        t = self.element.tabulate(sum(alpha) if order is None else order, as_points(pts), *([] if entity is None else [entity]))
        return np.asarray(t[alpha], dtype=float)

    def vals(self, pts, alpha=None):
        """(n, *vs, npts): basis functions (or derivatives) evaluated by the harness."""
        return self.coef @ self.basis.tab(pts, alpha)

    def field(self, coefs):
        """Harness function of the advertised space: combination of its spanning functions (or, for elements whose space is only
        defined through others, of the basis) with the given (index, integer) pairs.  Returns coefficients in self.basis."""
        if not hasattr(self, "span_coef"):
            nodes = polys.fit_nodes(self.cell, self.basis, 1)
            try:
                S = span(self.cfg, nodes)
            except KeyError:
                self.span_coef = self.coef
            else:
                self.span_coef, res = polys.fit(self.basis, nodes, S)
                assert res <= 1e-8 * max(1.0, np.abs(S).max()), (self.cfg, res)
                norm = np.sqrt((self.span_coef ** 2).sum(axis=tuple(range(1, self.span_coef.ndim)), keepdims=True))
                self.span_coef = self.span_coef / np.where(norm == 0, 1, norm)
        m = len(self.span_coef)
        return sum(c * self.span_coef[i % m] for i, c in coefs)


def as_points(pts):
    return [tuple(float(c) for c in p) for p in pts]


@functools.lru_cache(maxsize=32)
def _fe(key, fit):
    return FE(json.loads(key), fit)


def fe(cfg, fit=True):
    return _fe(catalog.key(cfg), fit)


def multi(sd, n):
    """All multi-indices of total order 0..n."""
    return [a for k in range(n + 1) for a in polys.multi_indices(sd, k)]


def close(a, b, scale, tol, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    d = np.abs(a - b)
    if not (d <= tol * scale).all():      # also catches NaN
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.size else ()
        raise Violation("%s: got %.15g, expected %.15g at index %s (tolerance %.1e)" % (what, a[i], b[i], tuple(map(int, i)), tol * scale))


def require(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


# ------------------------------------------------------------------ advertised spaces
#
# span(cfg, pts) -> (m, *value_shape, npts) values of functions whose span is the advertised space; m may exceed its dimension
# (the dimension is the numerical rank, which space_dim(cfg) states independently where a formula is known).

def scalar_basis(cell, ex):
    return polys.Basis(cell, ex)


def Pk(cell, k):
    return polys.total_degree_exponents(cells.geo(cell).sd, k)


def homogeneous(cell, k):
    return polys.multi_indices(cells.geo(cell).sd, k)


def vec(vals, d):
    """Scalar functions (m, npts) -> vector functions (m*d, d, npts)."""
    m, n = vals.shape
    out = np.zeros((m, d, d, n))
    for i in range(d):
        out[:, i, i, :] = vals
    return out.reshape(m * d, d, n)


def symten(vals, d):
    m, n = vals.shape
    out = []
    for i in range(d):
        for j in range(i, d):
            t = np.zeros((m, d, d, n))
            t[:, i, j, :] = vals
            t[:, j, i, :] = vals
            out.append(t)
    return np.concatenate(out)


def centred(cell, pts):
    g = cells.geo(cell)
    c = (g.verts.min(axis=0) + g.verts.max(axis=0)) / 2
    return np.asarray(pts, dtype=float) - c


def monomials(cell, ex, pts):
    """Monomials in coordinates centred on the cell: (m, npts)."""
    x = centred(cell, pts)
    return np.array([np.prod(x ** np.array(e), axis=1) for e in ex]).reshape(len(ex), len(x))


def superlinear_exponents(d, k):
    """Monomials of superlinear degree at most k (Arnold and Awanou): the degree ignoring variables that enter linearly."""
    return [e for e in itertools.product(range(k + 1), repeat=d) if sum(a for a in e if a > 1) <= k]


def span(cfg, pts):
    fam = cfg[0]
    pts = np.asarray(pts, dtype=float)
    if fam == "TPE":
        ga, gb = cells.geo(catalog.cell_of(cfg[1])), cells.geo(catalog.cell_of(cfg[2]))
        A, B = span(cfg[1], pts[:, :ga.sd]), span(cfg[2], pts[:, ga.sd:])
        return outer(A, B)
    if fam in ("Flat", "Broken", "Form"):
        return span(cfg[1], pts)
    if fam in ("Hdiv", "Hcurl"):
        return wrap(cfg, span(cfg[1], pts))
    if fam in ("Enriched", "Nodal"):
        return np.concatenate([span(c, pts) for c in cfg[1:]])
    if fam == "Mixed":
        return block([span(c, pts) for c in cfg[1:]])
    if fam in ("Restr", "RestrIdx"):        # defined through the original element: decided by P14
        raise KeyError(fam)
    cell = cfg[1]
    d = cells.geo(cell).sd
    if fam in ("Lagrange", "DG", "DTaylor", "GL", "GLL", "GR", "Bernstein", "Argyris", "Hermite", "Morley", "QArgyris", "Bell", "CR", "P0",
               "DPC"):
        return polys.Basis(cell, exps(cfg)).tab(pts)
    if fam == "Bubble":
        lam = polys.barycentric(cell, pts)
        return np.prod(lam, axis=1) * polys.Basis(cell, Pk(cell, cfg[2] - d - 1)).tab(pts)
    if fam == "FacetBubble":      # polynomials vanishing at the lattice nodes that are not interior to a facet
        k = cfg[2]
        B = polys.Basis(cell, Pk(cell, k))
        g = cells.geo(cell)
        lat = [a for a in itertools.product(range(k + 1), repeat=d + 1) if sum(a) == k and a.count(0) != 1]
        A = B.tab(np.array(lat, dtype=float) / k @ g.verts).T
        _, s, vt = np.linalg.svd(A, full_matrices=True)
        return vt[len(lat):] @ B.tab(pts)
    if fam == "KMV":
        return kmv(cell, cfg[2], pts)
    if fam == "S":
        return monomials(cell, superlinear_exponents(d, cfg[2]), pts)
    if fam in ("BDM", "N2"):
        return vec(polys.Basis(cell, Pk(cell, cfg[2])).tab(pts), d)
    if fam in ("RT", "DRT"):
        k = cfg[2]
        hom = monomials(cell, homogeneous(cell, k - 1), pts)
        x = centred(cell, pts).T
        return np.concatenate([vec(polys.Basis(cell, Pk(cell, k - 1)).tab(pts), d), hom[:, None, :] * x[None]])
    if fam == "N1":
        k = cfg[2]
        hom = monomials(cell, homogeneous(cell, k - 1), pts)
        x = centred(cell, pts).T
        if d == 2:
            extra = hom[:, None, :] * np.array([x[1], -x[0]])[None]
        else:
            v = vec(hom, 3)
            extra = np.cross(np.broadcast_to(x[None], v.shape), v, axis=1)
        return np.concatenate([vec(polys.Basis(cell, Pk(cell, k - 1)).tab(pts), d), extra])
    if fam == "BDFM":
        return bdfm(cell, pts)
    if fam == "MTW":
        return vec(polys.Basis(cell, Pk(cell, 3)).tab(pts), 2)
    if fam in ("AW", "AWnc", "Regge", "HHJ"):
        k = {"AW": 3, "AWnc": 2}.get(fam, cfg[2])
        return symten(polys.Basis(cell, Pk(cell, k)).tab(pts), d)
    raise KeyError(fam)


def kmv(cell, k, pts):
    d = cells.geo(cell).sd
    lam = polys.barycentric(cell, pts)
    out = [polys.Basis(cell, Pk(cell, k)).tab(pts)]
    if k > 1:
        m = KMV_DEG[d][k]
        out.append(np.prod(lam, axis=1) * polys.Basis(cell, Pk(cell, m - d - 1)).tab(pts))
        if d == 3:
            for f in range(4):
                b = np.prod(np.delete(lam, f, axis=1), axis=1)
                out.append(b * polys.Basis(cell, Pk(cell, k - 2)).tab(pts))
    return np.concatenate(out)


def bdfm(cell, pts):
    """Quadratic vector fields whose normal component is linear on every edge."""
    g = cells.geo(cell)
    B = polys.Basis(cell, Pk(cell, 2))
    full = lambda p: vec(B.tab(p), 2)
    cons = []
    for e in range(3):
        v = g.verts[list(g.topo[1][e])]
        n = g.normal_outward(1, e)
        p = [v[0], (v[0] + v[1]) / 2, v[1]]
        t = np.einsum("mcp,c->mp", full(p), n)
        cons.append(t[:, 0] - 2 * t[:, 1] + t[:, 2])
    C = np.array(cons)
    u, s, vt = np.linalg.svd(C)
    null = vt[3:]
    return np.einsum("rm,mcp->rcp", null, full(pts))


def outer(A, B):
    """Products of functions of two factors, first factor slowest; at most one factor vector-valued."""
    if A.ndim == 2 and B.ndim == 2:
        return np.einsum("ip,jp->ijp", A, B).reshape(-1, A.shape[-1])
    if A.ndim == 3:
        return np.einsum("icp,jp->ijcp", A, B).reshape(-1, A.shape[1], A.shape[-1])
    return np.einsum("ip,jcp->ijcp", A, B).reshape(-1, B.shape[1], B.shape[-1])


FORM1 = {"RT": "con", "BDM": "con", "BDFM": "con", "DRT": "con", "N1": "cov", "N2": "cov"}
SD_FORM = {"DG", "P0", "GL", "GR", "DTaylor", "DPC", "Broken", "Quadrature"}
ZERO_FORM = {"Lagrange", "GLL", "Bernstein", "S", "KMV"}


def formdegree(cfg):
    fam = cfg[0]
    if fam == "Form":
        return cfg[2]
    if fam in ("TPE",):
        return formdegree(cfg[1]) + formdegree(cfg[2])
    if fam in ("Flat", "Hdiv", "Hcurl"):
        return formdegree(cfg[1])
    if fam in ("Enriched", "Nodal"):
        return max(formdegree(c) for c in cfg[1:])
    d = cells.geo(catalog.cell_of(cfg)).sd
    if fam in SD_FORM:
        return d
    if fam in ZERO_FORM:
        return 0
    if fam in ("RT", "BDM"):
        return d - 1
    if fam in ("N1", "N2"):
        return 1
    raise KeyError(fam)


def mapping_kind(cfg):
    """affine, con(travariant) or cov(ariant) piola."""
    fam = cfg[0]
    if fam == "Hdiv":
        return "con"
    if fam == "Hcurl":
        return "cov"
    if fam == "TPE":
        ks = {mapping_kind(cfg[1]), mapping_kind(cfg[2])} - {"affine"}
        return ks.pop() if ks else "affine"
    if fam in ("Flat", "Broken", "Restr", "RestrIdx", "Form", "Enriched", "Nodal"):
        return mapping_kind(cfg[1])
    if fam in ("Regge",):
        return "double covariant piola"
    if fam == "HHJ":
        return "double contravariant piola"
    if fam in ("MTW",):
        return "con"
    if fam in ("AW", "AWnc"):
        return "double contravariant piola"
    return FORM1.get(fam, "affine")


def wrap(cfg, T):
    """Table of the H(div)/H(curl) wrapping of a product whose own table is T."""
    kind, inner = cfg
    a, b = inner[1], inner[2]
    asd, bsd = cells.geo(catalog.cell_of(a)).sd, cells.geo(catalog.cell_of(b)).sd
    sdim = asd + bsd
    npts = T.shape[-1]
    out = np.zeros((T.shape[0], sdim, npts))
    mk = mapping_kind(inner)
    if mk == "affine":
        special = 0 if kind == "Hdiv" else 1
        if formdegree(a) == special:
            out[:, 0] = -T if kind == "Hdiv" else T
        else:
            assert formdegree(b) == special
            out[:, -1] = T
        return out
    first = mapping_kind(a) != "affine"
    sl = slice(0, asd) if first else slice(asd, sdim)
    if (mk, kind) in (("con", "Hdiv"), ("cov", "Hcurl")):
        out[:, sl] = T
    elif kind == "Hdiv":
        out[:, sl] = np.stack([T[:, 1], -T[:, 0]], axis=1)
    else:
        out[:, sl] = np.stack([-T[:, 1], T[:, 0]], axis=1)
    return out


def block(tabs):
    """Mixed element: block-diagonal stacking of flattened components."""
    npts = tabs[0].shape[-1]
    flat = [t.reshape(t.shape[0], -1, npts) for t in tabs]
    n, c = sum(t.shape[0] for t in flat), sum(t.shape[1] for t in flat)
    out = np.zeros((n, c, npts))
    i = j = 0
    for t in flat:
        out[i:i + t.shape[0], j:j + t.shape[1]] = t
        i += t.shape[0]
        j += t.shape[1]
    return out


def space_dim(cfg):
    """Dimension of the advertised space by formula, or None."""
    fam = cfg[0]
    c = math.comb
    if fam == "TPE":
        a, b = space_dim(cfg[1]), space_dim(cfg[2])
        return None if a is None or b is None else a * b
    if fam in ("Flat", "Hdiv", "Hcurl", "Broken", "Form"):
        return space_dim(cfg[1])
    if fam in ("Enriched", "Nodal", "Mixed"):
        ds = [space_dim(x) for x in cfg[1:]]
        return None if None in ds else sum(ds)
    if fam == "RestrIdx":
        return len(cfg[2])
    if fam == "Restr":
        return None
    d = cells.geo(cfg[1]).sd
    if fam == "P0":
        return 1
    if fam in ("Hermite", "Morley", "QArgyris", "Bell", "CR"):
        return c(FIXED[fam] + d, d)
    k = cfg[2]
    P = lambda k: c(k + d, d) if k >= 0 else 0
    if fam in ("Lagrange", "DG", "DTaylor", "GL", "GLL", "GR", "Bernstein", "Argyris", "DPC"):
        return P(k)
    if fam == "Bubble":
        return P(k - d - 1)
    if fam == "FacetBubble":
        return (d + 1) * c(k - 1, d - 1)
    if fam == "KMV":
        n = catalog.dofs_per_entity(cfg)
        return sum(c(d + 1, i + 1) * v for i, v in n.items())
    if fam == "S":
        return len(superlinear_exponents(d, k))
    if fam in ("RT", "DRT"):
        return d * P(k - 1) + c(k - 1 + d - 1, d - 1)
    if fam == "N1":
        return k * (k + 2) if d == 2 else k * (k + 2) * (k + 3) // 2
    if fam in ("BDM", "N2"):
        return d * P(k)
    if fam == "BDFM":
        return 9
    if fam == "MTW":
        return 20
    if fam == "AW":
        return 30
    if fam == "AWnc":
        return 18
    if fam in ("Regge", "HHJ"):
        return d * (d + 1) // 2 * P(k)
    if fam == "Quadrature":
        return None
    raise KeyError(fam)


def value_shape(cfg):
    fam = cfg[0]
    if fam in ("Hdiv", "Hcurl"):
        return (cells.geo(catalog.cell_of(cfg)).sd,)
    if fam == "TPE":
        return value_shape(cfg[1]) or value_shape(cfg[2])
    if fam in ("Flat", "Broken", "Restr", "RestrIdx", "Form", "Enriched", "Nodal"):
        return value_shape(cfg[1])
    if fam == "Mixed":
        return (sum(int(np.prod(value_shape(c))) for c in cfg[1:]),)
    return (cells.geo(cfg[1]).sd,) * catalog.RANK.get(fam, 0)


def dependent(cfg):
    """Enriched elements whose parts are linearly dependent (FIAT documents no check): concatenations, not bases."""
    return cfg in DEPENDENT or (isinstance(cfg, list) and cfg and cfg[0] in ("Enriched", "Mixed", "Broken", "TPE", "Flat", "Hdiv", "Hcurl", "Form")
                                and any(dependent(c) for c in cfg[1:] if isinstance(c, list)))


DEPENDENT = [["Enriched", ["Lagrange", "I", 2], ["Bubble", "I", 4]], ["Enriched", ["DRT", "T", 1], ["DRT", "T", 2]],
             ["Enriched", ["Enriched", ["Lagrange", "T", 1], ["Bubble", "T", 3]], ["Bubble", "T", 4]]]


def contains(cfg, fams):
    return cfg[0] in fams or any(contains(c, fams) for c in cfg[1:] if isinstance(c, list) and c and isinstance(c[0], str))


def nodal(cfg):
    """Whether an element of this configuration is nodal by its documentation (Ciarlet elements and products of them)."""
    return not contains(cfg, ("Bernstein", "S", "Enriched", "Mixed"))


# relative cost of building the element (seconds, roughly), to schedule long strata first
def cost(cfg):
    fam = cfg[0]
    if fam in ("TPE", "Enriched", "Nodal", "Mixed"):
        return 0.3 + sum(cost(c) for c in cfg[1:])
    if fam in ("Flat", "Hdiv", "Hcurl", "Broken", "Restr", "RestrIdx", "Form"):
        return 0.1 + cost(cfg[1])
    d = cells.geo(cfg[1]).sd
    k = cfg[2] if len(cfg) > 2 and isinstance(cfg[2], int) else 1
    base = {1: 0.02, 2: 0.1, 3: 0.35}[d]
    mult = {"Argyris": 12, "Bell": 12, "QArgyris": 12, "KMV": 9, "AW": 6, "MTW": 6, "Bubble": 2, "FacetBubble": 2, "N2": 4, "BDM": 3, "S": 8}.get(fam, 1)
    return base * mult * (1 + k) ** (d / 1.5)
