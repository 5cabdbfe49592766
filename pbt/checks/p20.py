"""P20: invalid requests are rejected with an error; their valid neighbours are accepted."""
import json
import re
import warnings

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
from checks.p01 import active, node_matrix
from checks.p13 import admissible, placed
from core import Stratum, Violation
from fem import require

RULE = ("One stratum per element family (cell x degree x variant, valid and invalid together, decided by the documented domain of the family), and strata "
        "for generated variant strings, quadrature degrees and schemes, line rules, restrictions, enrichments, products, wrapped products, requests for "
        "entities, cell factories, degrees of freedom and expansion sets. An invalid request must raise; a valid one must return an object of "
        "the documented size that can be evaluated. Non-trivial: every case for which the documentation decides; both outcomes are counted.")
ASSUMPTIONS = ["requests whose status the documentation leaves open (vector families on a point, direct products of quadrilaterals, empty Gauss-Jacobi rules) are not generated",
               "variants are ASCII strings without line breaks"]

SIMPLICES = ["I", "dI", "T", "dT", "iT", "K", "dK", "iK"]
CELLS = SIMPLICES + ["P", "Q", "H", "I*I", "T*I", "Q*I"]
DIM = {"I": 1, "dI": 1, "T": 2, "dT": 2, "iT": 2, "K": 3, "dK": 3, "iK": 3}
CAP = {1: (9, 12), 2: (5, 7), 3: (3, 4)}
MIN = {"Lagrange": 1, "DG": 0, "Bernstein": 1, "DTaylor": 0, "GL": 0, "GLL": 1, "GR": 0, "RT": 1, "N1": 1, "BDM": 1, "N2": 1, "DRT": 1,
       "Regge": 0, "HHJ": 0, "Argyris": 5}
ONLY = {"CR": 1, "Hermite": 3, "BDFM": 2, "AW": 3, "AWnc": 2, "MTW": 3}
FLAT = ("Morley", "QArgyris", "Bell", "Argyris", "BDFM", "AW", "AWnc", "MTW", "HHJ")   # triangles only
DEGREELESS = ("Morley", "QArgyris", "Bell", "P0")
LINE = ("GL", "GLL", "GR")
VECTOR = ("RT", "N1", "BDM", "N2")


def domain(fam, cell, k, variant=None):
    """True / False: the documentation admits / excludes the request; None: it does not say."""
    if variant is not None:
        m = re.match(r"^integral(\((\d+)\))?$", variant)
        if not (variant == "point" or m):
            return False
    if fam == "HDivTrace":
        return k >= 0 if cell in ("T", "K", "Q", "I*I", "T*I") else None if cell == "Q*I" else False
    if fam in ("S", "DPC"):
        if cell in DIM:
            return False if DIM[cell] > 1 else k >= (1 if fam == "S" else 0)
        if cell in ("Q", "H"):
            return k >= (1 if fam == "S" else 0)
        return False if cell == "T*I" or k < 0 else None
    if cell == "P":
        if fam in LINE or fam in FLAT or fam in ("N1", "BDFM", "KMV", "CR"):
            return False
        return False if fam in ("Lagrange", "DG", "DTaylor") and k != 0 else None
    if cell not in DIM:
        return False
    d = DIM[cell]
    if fam in LINE and d != 1 or fam in FLAT and d != 2:
        return False
    if fam in ONLY:
        return k == ONLY[fam]
    if fam == "P0":
        return True
    if fam in ("Morley", "QArgyris", "Bell"):
        return True
    if fam == "KMV":
        return k >= 1 and k <= {"T": 5, "K": 3}.get(cell, 0)
    if fam == "Bubble":
        return k >= d + 1
    if fam == "FacetBubble":
        return k >= d
    if fam == "Regge" and d == 1:
        return False
    if fam in VECTOR and d == 1:
        return False if fam in ("N1", "N2") else None
    if fam == "N2" and d == 3 and cell != "K" and k > 1:
        return False
    if k < MIN[fam]:
        return False
    if variant is not None and m and m.group(2) is not None:
        return int(m.group(2)) >= (k if fam in ("RT", "N1") else k + 1)
    return True


def attempt(f):
    """(value, None) or (None, exception)."""
    with warnings.catch_warnings(record=True):
        try:
            return f(), None
        except Exception as e:
            return None, e


def rejected(f, what):
    v, e = attempt(f)
    if e is None:
        raise Violation("%s is accepted and returns %r" % (what, v))
    return "rejected"


def accepted(f, what):
    v, e = attempt(f)
    if e is not None:
        raise Violation("%s is rejected with %s: %s" % (what, type(e).__name__, e))
    return v


def name(cell):
    return cells.geo(cell).make()


def construct(fam, cell, k, variant):
    if fam == "P0":
        return catalog.build(["P0", cell])
    if fam in ("Morley", "QArgyris", "Bell"):
        return catalog.build([fam, cell, k])
    if fam == "Hermite":
        import FIAT
        return FIAT.CubicHermite(name(cell), k)
    return catalog.build([fam, cell, k, variant] if variant is not None else [fam, cell, k])


_ok = set()


def sane(e, cfg):
    """The accepted element has the documented size and can be evaluated."""
    cell = catalog.cell_of(cfg)
    g = cells.geo(cell)
    n, vs = fem.space_dim(cfg), tuple(fem.value_shape(cfg))
    require(n is None or e.space_dimension() == n, "%s has dimension %s instead of %s", catalog.label(cfg), e.space_dimension(), n)
    require(tuple(e.value_shape()) == vs, "%s has value shape %s", catalog.label(cfg), e.value_shape())
    pts = fem.as_points(cells.sample_points(cell, 2))
    t = accepted(lambda: e.tabulate(1, pts), "tabulating " + catalog.label(cfg))
    require(set(t) == set(fem.multi(g.sd, 1)) | set(fem.multi(g.sd, 0)), "tables %s", sorted(t))
    for al, v in t.items():
        require(np.shape(v) == (e.space_dimension(),) + vs + (2,) and np.all(np.isfinite(np.asarray(v, dtype=float))), "table %s of %s", al, catalog.label(cfg))


def check_family(fam, case):
    cell, k, v = case["cell"], case["k"], case.get("v")
    ok = domain(fam, cell, k, v)
    if ok is None:
        return None
    what = "%s(%s, %s%s)" % (fam, cell, k, "" if v is None else ", variant=%r" % v)
    key = (fam, cell, None if fam in DEGREELESS else k, v)
    if not ok:
        if key not in _ok:
            rejected(lambda: construct(fam, cell, k, v), what)
            _ok.add(key)
        return {"invalid", "invalid on " + cell}
    if key not in _ok:
        e = accepted(lambda: construct(fam, cell, k, v), what)
        if fam == "HDivTrace":
            require(e.space_dimension() > 0 and len(e.dual_basis()) == e.space_dimension(), "%s has dimension %s", what, e.space_dimension())
        else:
            sane(e, [fam, cell] if fam == "P0" else [fam, cell, k])
        _ok.add(key)
    return {"valid", "valid on " + cell}


def family_cases(fam, q):
    def cap(c):
        if c == "P":
            return 4
        d = DIM.get(c, 3)
        m = CAP[d][0 if q else 1]
        if d == 3 and fam in VECTOR + ("Regge", "DRT") and q:
            m -= 1
        if fam == "KMV":
            m = 9
        if fam == "Argyris" and d == 2:
            m = 7
        return m
    variants = [None]
    if fam in VECTOR:
        variants = [None, "point", "integral"] + ["integral(%d)" % i for i in range(0, 7)]
    opts = [{"cell": c, "k": k, "v": v} for c in CELLS for k in (range(-3, cap(c) + 1) if fam not in DEGREELESS else [5]) for v in variants]
    if fam in FLAT:
        opts = [o for o in opts if o["cell"] not in ("dK", "iK") and not (o["cell"] == "K" and o["k"] > 5)]
    sure = [o for o in opts if domain(fam, o["cell"], o["k"], o["v"])]
    bad = [o for o in opts if domain(fam, o["cell"], o["k"], o["v"]) is False]
    near = [o for o in bad if o["cell"] in DIM]      # the wrong degree or variant on a possible cell
    pools = [p for p in (sure, bad, near, near) if p]
    return st.one_of([st.sampled_from(p) for p in pools])


# ---------------------------------------------------------------- variants

def check_variant(fam, case):
    cell, k, v = case["cell"], case["k"], case["v"]
    return check_family(fam, {"cell": cell, "k": k, "v": v})


ALPHA = "integralpo()0123456789 -+._IPxX"


def variant_strings():
    return st.one_of(
        st.text(ALPHA, max_size=14),
        st.sampled_from(["point", "integral", "Point", "INTEGRAL", "integral()", "integral(", "integral)", "integral(3", "integral 3", "integral(-3)",
                         "integral(+3)", "integral(3.0)", "integral( 3)", "integral(3 )", "integral(3)(3)", "xintegral", "integral(3)x", "points", "point(3)",
                         "pointintegral", "", " ", "integral(3),point", "default", "None", "canonical", "moment", "integral(x)", "integral(1e1)"]),
        st.integers(0, 14).map(lambda n: "integral(%d)" % n), st.integers(0, 12).map(lambda n: "integral(%03d)" % n))


# ---------------------------------------------------------------- quadrature

SCHEMES = ["default", "canonical", "KMV"]


def quad_ok(cell, deg, scheme):
    g = cells.geo(cell)
    if cell == "P":
        return None
    if g.factors:
        sub = g.factors
        if isinstance(deg, list):
            if len(deg) != len(sub):
                return False
        else:
            deg = [deg] * len(sub)
        out = [quad_ok(f.name, x, scheme) for f, x in zip(sub, deg)]
        return False if False in out else None if None in out else True
    if isinstance(deg, list):
        return False
    if deg < 0 or scheme not in SCHEMES:
        return False
    if scheme == "KMV":
        return deg >= 1 and deg <= {1: 0, 2: 5, 3: 3}[g.sd]
    return True


def check_quadrature(case):
    import FIAT
    cell, deg, scheme = case["cell"], case["deg"], case["scheme"]
    ok = quad_ok(cell, deg, scheme)
    if ok is None:
        return None
    d = cells.totuple(deg) if isinstance(deg, list) else deg
    what = "create_quadrature(%s, %s, %r)" % (cell, d, scheme)

    def go():
        return FIAT.create_quadrature(name(cell), d) if scheme == "default" and case["short"] else FIAT.create_quadrature(name(cell), d, scheme)
    if not ok:
        rejected(go, what)
        return {"invalid", "quadrature invalid"}
    q = accepted(go, what)
    g = cells.geo(cell)
    p, w = np.asarray(q.get_points(), dtype=float), np.asarray(q.get_weights(), dtype=float)
    require(p.shape == (len(w), g.sd) and len(w) > 0, "%s has points of shape %s", what, p.shape)
    require(abs(w.sum() - g.volume) < 1e-10 * max(1, g.volume), "weights of %s sum to %r", what, w.sum())
    return {"valid", "quadrature valid"}


def quad_cases(q):
    m = 12 if q else 30

    def one(cell):
        g = cells.geo(cell)
        n = len(g.factors) if g.factors else 1
        lim = m if g.sd < 3 else 7
        ints = st.one_of(st.integers(-4, 8), st.integers(-2, lim))
        degs = ints if not g.factors else st.one_of(ints, st.lists(st.integers(0, 5), min_size=n, max_size=n),
                                                    st.lists(st.integers(-2, 5), min_size=1, max_size=n + 1))
        scheme = st.one_of(st.sampled_from(SCHEMES), st.sampled_from(["default", "Default", "KMV", "kmv", "", "gauss", "vertex", "canonica", "Canonical", "collapsed"]),
                           st.text("defaultcnoi KMV", max_size=9))
        return st.fixed_dictionaries({"cell": st.just(cell), "deg": degs, "scheme": scheme, "short": st.booleans()})
    return st.one_of([one(c) for c in SIMPLICES + ["Q", "H", "I*I", "T*I", "I*T", "(I*I)*I"]])


def check_rules(case):
    """Line rules, collapsed rules and explicit rules."""
    import FIAT
    from FIAT import quadrature as Q
    kind, m, cell = case["kind"], case["m"], case["cell"]
    if kind == "make":
        if cell == "P" or "*" in cell:
            return None
        ok, f = m >= 1, lambda: Q.make_quadrature(name(cell), m)
        want = {1: m, 2: m * m, 3: m ** 3}[cells.geo(cell).sd]
    elif kind == "lobatto":
        ok, f, want = m >= 2, lambda: Q.GaussLobattoLegendreQuadratureLineRule(name("I" if case["b"] else "dI"), m), m
    elif kind == "legendre":
        ok, f, want = m >= 1, lambda: Q.GaussLegendreQuadratureLineRule(name("I" if case["b"] else "dI"), m), m
    elif kind == "radau":
        ok, f, want = m >= 1, lambda: Q.RadauQuadratureLineRule(name("I" if case["b"] else "dI"), m, case["b"]), m
    elif kind == "rule":
        a, b = abs(m), case["n"]
        if a == 0 and b == 0:
            return None
        sd = cells.geo(cell).sd
        ok, f, want = a == b, lambda: Q.QuadratureRule(name(cell), [tuple([0.1] * sd)] * a, [1.0] * b), a
    else:
        raise KeyError(kind)
    what = "%s rule of %d points (%s)" % (kind, m, case)
    if not ok:
        rejected(f, what)
        return {"invalid", kind + " invalid"}
    r = accepted(f, what)
    require(len(r.get_points()) == len(r.get_weights()) == want, "%s has %d points", what, len(r.get_points()))
    return {"valid", kind + " valid"}


# ---------------------------------------------------------------- restriction

RESTRICTABLE = [["Lagrange", "T", 3], ["Lagrange", "K", 2], ["Lagrange", "I", 3], ["RT", "T", 2, "point"], ["N1", "K", 1, "point"], ["Hermite", "T", 3],
                ["Regge", "T", 1], ["BDM", "T", 2, "integral"], ["DG", "T", 2], ["Bubble", "T", 4], ["CR", "K", 1], ["Nodal", ["Lagrange", "T", 1], ["Bubble", "T", 3]]]
DOMAINS = ["interior", "facet", "face", "edge", "vertex"]


def check_restricted(case):
    import FIAT
    base = RESTRICTABLE[case["i"]]
    n = fem.space_dim(base)
    e = catalog.element(base)
    ids = e.entity_dofs()
    if "dom" in case:
        dom = case["dom"]
        d = cells.geo(catalog.cell_of(base)).sd
        if dom not in DOMAINS:
            ok, size = False, 0
        else:
            top = {"interior": None, "facet": d - 1, "face": 2, "edge": 1, "vertex": 0}[dom]
            if top is not None and top > d:
                return None
            dofs = list(ids[d][0]) if top is None else [i for x in range(top + 1) for v in ids[x].values() for i in v]
            ok, size = bool(dofs), len(dofs)
        f = lambda: FIAT.RestrictedElement(catalog.element(base), restriction_domain=dom)
        what = "restriction of %s to %r" % (catalog.label(base), dom)
    elif "none" in case:
        ok, size = False, 0
        f = [lambda: FIAT.RestrictedElement(catalog.element(base)), lambda: FIAT.RestrictedElement(catalog.element(base), indices=[]),
             lambda: FIAT.RestrictedElement(catalog.element(base), "interior")][case["none"]]
        what = "restriction of %s, call %d" % (catalog.label(base), case["none"])
    else:
        idx = [v % n if not raw else v for v, raw in case["idx"]]
        if case["dup"] and idx:
            idx = idx + [idx[case["dup"] % len(idx)]]
        if case["uniq"]:
            idx = sorted(set(idx), key=idx.index)
        ok = len(idx) > 0 and len(set(idx)) == len(idx) and all(0 <= i < n for i in idx)
        size = len(idx)
        f = lambda: FIAT.RestrictedElement(catalog.element(base), indices=list(idx))
        what = "restriction of %s (%d functions) to indices %s" % (catalog.label(base), n, idx)
    if not ok:
        rejected(f, what)
        return {"invalid", "restriction invalid"}
    r = accepted(f, what)
    require(r.space_dimension() == size == len(r.dual_basis()), "%s has dimension %s", what, r.space_dimension())
    return {"valid", "restriction valid"}


def restricted_cases():
    i = st.integers(0, len(RESTRICTABLE) - 1)
    return st.one_of(
        st.fixed_dictionaries({"i": i, "dom": st.one_of(st.sampled_from(DOMAINS), st.sampled_from(["Interior", "vertices", "cell", "all", "ridge", "facets", "Facet", "vertexx"]),
                                                        st.text("vertxfacdgino", min_size=1, max_size=8))}),
        st.fixed_dictionaries({"i": i, "none": st.integers(0, 2)}),
        st.fixed_dictionaries({"i": i, "idx": st.lists(st.tuples(st.integers(0, 60), st.just(False)), min_size=1, max_size=7), "dup": st.just(0), "uniq": st.just(True)}),
        st.fixed_dictionaries({"i": i, "idx": st.lists(st.tuples(st.integers(-3, 40), st.booleans()), min_size=1, max_size=6), "dup": st.integers(0, 3), "uniq": st.booleans()}))


# ---------------------------------------------------------------- combinations

PARTS = [["Lagrange", "T", 1], ["Lagrange", "T", 2], ["Bubble", "T", 3], ["Bubble", "T", 4], ["Lagrange", "dT", 1], ["Bubble", "dT", 3], ["Lagrange", "I", 1],
         ["Bubble", "I", 2], ["Lagrange", "K", 1], ["Bubble", "K", 4], ["RT", "T", 1, "point"], ["N1", "T", 1, "point"], ["RT", "T", 1, "integral"],
         ["BDM", "T", 1, "point"], ["Regge", "T", 0], ["HHJ", "T", 0], ["DRT", "T", 1], ["DG", "T", 0], ["DG", "T", 2], ["CR", "T", 1], ["P0", "T"],
         ["FacetBubble", "T", 2], ["FacetBubble", "T", 3], ["Lagrange", "iT", 1], ["Bubble", "iT", 3], ["Hermite", "T", 3], ["RT", "K", 1, "point"], ["N1", "K", 1, "point"],
         ["RT", "T", 2, "point"], ["DG", "I", 1], ["DG", "Q0", 0]]
PARTS = PARTS[:-1]
UNMAPPED = ("DRT",)


def mapping_class(c):
    return tuple(sorted(set(catalog.element(c).mapping())))


def compatible(parts):
    return (len({catalog.cell_of(c) for c in parts}) == 1 and len({tuple(fem.value_shape(c)) for c in parts}) == 1
            and len({mapping_class(c) for c in parts}) == 1)


def rank_ratio(parts):
    """(rank, smallest singular value / largest) of the concatenated bases."""
    cell = catalog.cell_of(parts[0])
    pts = cells.sample_points(cell, 60)
    rows = []
    for c in parts:
        t = fem.FE(c, fit=False).tab(pts)
        rows.append(t.reshape(len(t), -1) / max(1e-300, np.abs(t).max()))
    s = np.linalg.svd(np.concatenate(rows), compute_uv=False)
    return s[-1] / s[0], sum(map(len, rows))


def dual_condition(parts):
    """Smallest / largest singular value of the matrix of all degrees of freedom applied to all basis functions."""
    Fs = [fem.fe(c) for c in parts]
    M = np.concatenate([np.concatenate([np.asarray(node_matrix(F, [active(n) for n in F.element.dual_basis()], lambda pts, a, G=G: G.vals(np.array(pts), a))) for G in Fs], axis=1)
                        for F in Fs])
    s = np.linalg.svd(M, compute_uv=False)
    return s[-1] / s[0]


def check_enriched(case):
    import FIAT
    parts = [PARTS[i] for i in case["parts"]]
    kind = case["kind"]
    what = "%s of %s" % (kind, ", ".join(catalog.label(c) for c in parts))

    def f():
        es = [catalog.element(c) for c in parts]
        return FIAT.EnrichedElement(*es) if kind == "Enriched" else FIAT.NodalEnrichedElement(*es)
    if not compatible(parts):
        rejected(f, what)
        return {"invalid", kind + " incompatible"}
    if kind == "Nodal":
        r, n = rank_ratio(parts)
        if r < 1e-11:
            rejected(f, what)
            return {"invalid", "Nodal dependent"}
        if r < 1e-4:
            return None
        c = dual_condition(parts)
        if c < 1e-11:
            rejected(f, what)
            return {"invalid", "Nodal functionals dependent"}
        if c < 1e-5:
            return None
    e = accepted(f, what)
    n = sum(fem.space_dim(c) for c in parts)
    require(e.space_dimension() == n, "%s has dimension %s instead of %d", what, e.space_dimension(), n)
    pts = fem.as_points(cells.sample_points(catalog.cell_of(parts[0]), 2))
    t = accepted(lambda: e.tabulate(1, pts), "tabulating " + what)
    for v in t.values():
        require(np.shape(v)[0] == n, "%s tabulates %s", what, np.shape(v))
    return {"valid", kind + " valid"}


def enriched_cases():
    n = len(PARTS)
    same = [[i for i in range(n) if catalog.cell_of(PARTS[i]) == c] for c in ("T", "K", "I", "dT", "iT")]
    kind = st.sampled_from(["Enriched", "Nodal"])
    return st.one_of([st.fixed_dictionaries({"kind": kind, "parts": st.lists(st.integers(0, n - 1), min_size=2, max_size=3)})] +
                     [st.fixed_dictionaries({"kind": kind, "parts": st.lists(st.sampled_from(s), min_size=2, max_size=3, unique=True)}) for s in same if len(s) > 1])


FACTORS = [["Lagrange", "I", 1], ["DG", "I", 0], ["DG", "I", 1], ["Lagrange", "I", 2], ["GLL", "I", 2], ["Lagrange", "T", 1], ["DG", "T", 0], ["RT", "T", 1, "point"],
           ["N1", "T", 1, "integral"], ["BDM", "T", 1, "integral"], ["N2", "T", 1, "point"], ["DG", "T", 1], ["Lagrange", "dI", 1], ["DG", "dI", 1], ["RT", "K", 1, "point"],
           ["N1", "K", 1, "point"], ["CR", "T", 1], ["Regge", "T", 0], ["HHJ", "T", 0], ["RestrIdx", ["RT", "T", 2, "point"], [6, 7]]]


def check_product(case):
    import FIAT
    a, b = FACTORS[case["a"]], FACTORS[case["b"]]
    what = "%s of %s and %s" % (case["op"], catalog.label(a), catalog.label(b))
    ma, mb = mapping_class(a), mapping_class(b)
    both = ma != ("affine",) and mb != ("affine",)
    tpe = lambda: FIAT.TensorProductElement(catalog.build(a), catalog.build(b))
    if both:
        rejected(tpe, what)
        return {"invalid", "two Piola factors"}
    cfg = ["TPE", a, b]
    tensor = any(len(fem.value_shape(c)) > 1 for c in (a, b))
    if case["op"] == "TPE":
        if tensor or fem.value_shape(b) or fem.value_shape(a) and cells.geo(catalog.cell_of(b)).sd > 1:
            return None     # not stated which node types are supported
        e = accepted(tpe, what)
        sane(e, cfg)
        return {"valid", "product valid"}
    if tensor:
        return None
    e, err = attempt(tpe)
    if err is not None:
        return None
    kind = case["op"]
    f = lambda: getattr(FIAT, kind)(e)
    if not admissible(kind, a, b):
        rejected(f, what)
        return {"invalid", kind + " invalid"}
    vs = tuple(fem.value_shape(cfg))
    if placed(kind, a, b, np.zeros((1,) + vs + (1,))) is None:
        return None
    w = accepted(f, what)
    sane(w, [kind, cfg])
    return {"valid", kind + " valid"}


# ---------------------------------------------------------------- requests to objects

TABULATED = [["Lagrange", "T", 2], ["DG", "K", 1], ["RT", "T", 1, "point"], ["N1", "K", 1, "integral"], ["Regge", "T", 0], ["Bernstein", "T", 2], ["Bernstein", "K", 1],
             ["Hermite", "T", 3], ["CR", "dT", 1], ["Lagrange", "I", 2], ["GLL", "dI", 3], ["GL", "I", 1], ["Bubble", "iT", 3], ["DTaylor", "T", 1], ["AWnc", "T", 2], ["KMV", "T", 2],
             ["TPE", ["Lagrange", "I", 1], ["DG", "I", 1]], ["TPE", ["Lagrange", "T", 1], ["Lagrange", "I", 2]], ["Flat", ["TPE", ["Lagrange", "I", 1], ["Lagrange", "I", 2]]],
             ["Hdiv", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]], ["Hcurl", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]], ["Enriched", ["Lagrange", "T", 1], ["Bubble", "T", 3]],
             ["Mixed", ["Lagrange", "T", 1], ["DG", "T", 0]], ["Broken", ["Lagrange", "T", 2]], ["S", "Q", 2], ["S", "H", 1], ["DPC", "Q", 1], ["DPC", "H", 1], ["P0", "K"],
             ["Restr", ["Lagrange", "T", 3], "facet"], ["Nodal", ["Lagrange", "T", 1], ["Bubble", "T", 3]], ["Broken", ["TPE", ["DG", "I", 1], ["Lagrange", "I", 1]]]]


def bad_entity(g, case):
    """An entity of the case: existing or not.  (entity, exists, decided)"""
    dims = list(g.topo)
    kind = case["kind"]
    d = dims[case["d"] % len(dims)]
    n = len(g.topo[d])
    if kind == "good":
        return (d, case["i"] % n), True
    if kind == "id":
        return (d, n + case["i"] % 4 if case["i"] % 2 else -1 - case["i"] % 4), False
    if isinstance(d, tuple):
        if not all(isinstance(v, int) for v in d):
            return None, None
        x = [(d[0] + 5,) + d[1:], d[:-1] + (d[-1] + 4,), d + (0,), tuple(-1 - v for v in d), sum(map(cells.tsum, d)) + 7, d[:-1]][case["i"] % 6]
        if isinstance(x, tuple) and (x in g.topo or len(x) == 0):
            return None, None
        return (x, 0), False
    return (g.dim + 1 + case["i"] % 3 if case["i"] % 2 else -1 - case["i"] % 3, 0), False


def check_entity(case):
    cfg = TABULATED[case["e"]]
    g = cells.geo(catalog.cell_of(cfg))
    ent, exists = bad_entity(g, case)
    if ent is None:
        return None
    e = catalog.element(cfg)
    sub = g.sub_name(ent[0]) if exists else None
    x = fem.as_points(cells.sample_points(sub, 2)) if exists else [tuple([0.25] * case["sd"])] * 2
    what = "tabulating %s on entity %s at %s" % (catalog.label(cfg), ent, x)
    f = lambda: e.tabulate(case["n"], x, ent)
    if not exists:
        rejected(f, what)
        return {"invalid", "entity invalid"}
    t = accepted(f, what)
    require(all(np.shape(v)[0] == e.space_dimension() for v in t.values()), "%s", what)
    return {"valid", "entity valid"}


def entity_case(extra):
    return st.fixed_dictionaries({"kind": st.sampled_from(["good", "id", "id", "dim"]), "d": st.integers(0, 30), "i": st.integers(0, 30), "n": st.integers(0, 1),
                                  "sd": st.integers(0, 3), **extra})


GEOMETRY = SIMPLICES + ["Q", "H", "I*I", "T*I", "dI*dI", "(I*I)*I"]


def check_geometry(case):
    cell = GEOMETRY[case["c"]]
    g = cells.geo(cell)
    ref = name(cell)
    ent, exists = bad_entity(g, case)
    if ent is None:
        return None
    call = case["call"]
    d, i = ent
    if call == "points":
        if cell not in cells.SIMPLEX:
            return None
        f = lambda: ref.make_points(d, i, case["n"] + 3)
    elif call == "transform":
        f = lambda: ref.get_entity_transform(d, i)(tuple([0.25] * (cells.tsum(d) if exists else case["sd"])))
    elif call == "measure":
        if cell not in cells.SIMPLEX:
            return None
        f = lambda: ref.volume_of_subcomplex(d, i)
    elif call == "normal":
        if cell not in cells.SIMPLEX or g.sd < 1 or exists and d != g.dim - 1:
            return None
        if not exists and case["kind"] != "id":
            return None
        if not exists:
            n = g.sd + 1
            i = n + case["i"] % 4
        f = lambda: ref.compute_normal(i)
    else:
        if g.sd < 2:
            return None
        fd = [x for x in g.topo if cells.tsum(x) == g.sd - 1]
        if exists and d not in fd:
            return None
        if not exists and (case["kind"] != "id"):
            return None
        if not exists:
            d = fd[case["d"] % len(fd)]
            i = len(g.topo[d]) + case["i"] % 3
        f = lambda: ref.compute_reference_normal(d, i)
    what = "%s of entity %s of %s" % (call, (d, i), cell)
    if not exists:
        rejected(f, what)
        return {"invalid", call + " invalid"}
    accepted(f, what)
    return {"valid", call + " valid"}


def check_cells(case):
    """Cell factories."""
    from FIAT import reference_element as R
    kind, x = case["kind"], case["x"]
    if kind == "ufc_simplex":
        ok, f, sd = 0 <= x <= 3, lambda: R.ufc_simplex(x), x
    elif kind == "default_simplex":
        ok, f, sd = 1 <= x <= 3, lambda: R.default_simplex(x), x
    else:
        names = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
        x = case["s"]
        parts = x.split(" * ")
        ok = all(p in names for p in parts)
        f, sd = lambda: R.ufc_cell(x), sum(names.get(p, 0) for p in parts)
    what = "%s(%r)" % (kind, x)
    if not ok:
        rejected(f, what)
        return {"invalid", kind + " invalid"}
    c = accepted(f, what)
    require(c.get_spatial_dimension() == sd, "%s has dimension %s", what, c.get_spatial_dimension())
    return {"valid", kind + " valid"}


def cells_cases():
    names = ["vertex", "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
    odd = ["Interval", "tri", "", "square", "cube", "pyramid", "prism", "interval*interval", "triangle *interval", "point", "simplex", "quadrilaterals", "hexahedro"]
    return st.fixed_dictionaries({"kind": st.sampled_from(["ufc_simplex", "default_simplex", "ufc_cell", "ufc_cell"]), "x": st.integers(-3, 6),
                                  "s": st.one_of(st.sampled_from(names), st.lists(st.sampled_from(names), min_size=2, max_size=3).map(" * ".join),
                                                 st.sampled_from(odd), st.lists(st.sampled_from(names + odd), min_size=2, max_size=3).map(" * ".join)).filter(
                                      lambda s: sum(s.count(n) * w for n, w in (("tri", 2), ("quad", 2), ("tetra", 3), ("hexa", 3), ("interval", 1))) <= 6)})


def check_trace_degrees(case):
    import FIAT
    cell, deg = case["cell"], case["deg"]
    g = cells.geo(cell)
    if isinstance(deg, list):
        ok = bool(g.factors) and not g.flat and len(deg) == len(g.factors) and min(deg) >= 0
        if g.factors and not g.flat and len(deg) == len(g.factors):
            ok = min(deg) >= 0
        d = tuple(deg)
    else:
        ok, d = deg >= 0, deg
    what = "HDivTrace(%s, %s)" % (cell, d)
    f = lambda: FIAT.HDivTrace(name(cell), d)
    if not ok:
        rejected(f, what)
        return {"invalid", "trace degree invalid"}
    e = accepted(f, what)
    require(e.space_dimension() == len(e.dual_basis()) > 0, "%s has dimension %s", what, e.space_dimension())
    return {"valid", "trace degree valid"}


def check_quadrature_element(case):
    import FIAT
    cell = case["cell"]
    g = cells.geo(cell)
    ref = name(cell)
    q = FIAT.create_quadrature(ref, case["deg"])
    pts = [tuple(float(c) for c in p) for p in q.get_points()]
    e = FIAT.QuadratureElement(ref, pts, q.get_weights())
    op = case["op"]
    n = len(pts)
    top = (g.dim, 0)
    if op == "own":
        t = accepted(lambda: e.tabulate(0, pts), "own points")
        require(list(t) == [(0,) * g.sd] and np.array_equal(t[(0,) * g.sd], np.eye(n)), "quadrature element of %s degree %d", cell, case["deg"])
        t = accepted(lambda: e.tabulate(0, pts, top), "own points on the cell entity")
        require(list(t) == [(0,) * g.sd] and np.array_equal(t[(0,) * g.sd], np.eye(n)), "quadrature element of %s degree %d", cell, case["deg"])
        return {"valid", "quadrature element"}
    if op == "derivative":
        f = lambda: e.tabulate(1 + case["i"] % 3, pts)
    elif op == "entity":
        ents = [x for x in g.entities(False)]
        f = lambda: e.tabulate(0, pts, ents[case["i"] % len(ents)])
    elif op == "moved":
        j, h = case["i"] % n, [1e-3, 1e-6, 1e-9, 0.5][case["i"] % 4]
        c = (case["i"] // 4) % g.sd
        other = [tuple(v + (h if (a, b) == (j, c) else 0.0) for b, v in enumerate(p)) for a, p in enumerate(pts)]
        f = lambda: e.tabulate(0, other)
    elif op == "permuted":
        if n < 2:
            return None
        s = 1 + case["i"] % (n - 1)
        f = lambda: e.tabulate(0, pts[s:] + pts[:s])
    else:
        other = pts + pts[:1] if case["i"] % 2 else pts[:-1]
        f = lambda: e.tabulate(0, other)
    rejected(f, "%s tabulation of the quadrature element of %s degree %d" % (op, cell, case["deg"]))
    return {"invalid", "quadrature element " + op}


def check_functionals(case):
    from FIAT import functional, expansions
    kind = case["kind"]
    cell = case["cell"]
    g = cells.geo(cell)
    ref = name(cell)
    pt = tuple([0.25] * g.sd)
    if kind == "component":
        shp = tuple(case["shape"])
        comp = case["comp"]
        ok = len(shp) == 1 and 0 <= comp < shp[0]
        f = lambda: functional.ComponentPointEvaluation(ref, comp, shp, pt)
        what = "component %d of shape %s" % (comp, shp)
    elif kind == "expansion":
        cls, sd = [(expansions.PointExpansionSet, 0), (expansions.LineExpansionSet, 1), (expansions.TriangleExpansionSet, 2), (expansions.TetrahedronExpansionSet, 3)][case["comp"] % 4]
        ok, f, what = g.sd == sd, lambda: cls(ref), "%s on %s" % (cls.__name__, cell)
    elif kind == "dimension":
        k = case["comp"]
        if k < 0 or g.sd:
            return None
        ok, f, what = k == 0, lambda: expansions.polynomial_dimension(ref, k), "polynomial dimension %d on a point" % k
    else:
        import FIAT
        q = FIAT.create_quadrature(ref, 2)
        n = len(q.get_points())
        m = max(1, n + case["comp"] - 1)
        ok, f, what = m == n, lambda: functional.FrobeniusIntegralMoment(ref, q, np.ones((2, m))), "moment with %d values at %d points" % (m, n)
    if not ok:
        rejected(f, what)
        return {"invalid", kind + " invalid"}
    accepted(f, what)
    return {"valid", kind + " valid"}


def strata(tier):
    q = tier == "quick"
    out = []
    heavy = {"RT", "N1", "BDM", "N2", "Regge", "DRT", "HHJ", "Argyris", "Bubble", "FacetBubble"}
    for fam in catalog.SIMPLE:
        out.append(Stratum("family " + fam, family_cases(fam, q), lambda c, fam=fam: check_family(fam, c), (150, 1500), cost=6.0 if fam in heavy else 2.0))
    for fam in VECTOR:
        s = st.fixed_dictionaries({"cell": st.sampled_from(["T", "T", "dT", "iT", "K"]), "k": st.sampled_from([1, 2, 3, 1, 2, 0]), "v": variant_strings()}).filter(
            lambda c: c["cell"] != "K" or c["k"] <= 2)
        out.append(Stratum("variants " + fam, s, lambda c, fam=fam: check_variant(fam, c), (150, 2000), cost=3.0))
    out.append(Stratum("quadrature", quad_cases(q), check_quadrature, (400, 4000)))
    for kind in ("make", "lobatto", "legendre", "radau", "rule"):
        s = st.fixed_dictionaries({"kind": st.just(kind), "m": st.integers(-4, 9 if kind == "make" else 24), "n": st.integers(0, 5), "b": st.booleans(),
                                   "cell": st.sampled_from(SIMPLICES + ["Q", "H"])})
        if kind == "rule":
            s = st.fixed_dictionaries({"kind": st.just(kind), "m": st.integers(0, 5), "n": st.integers(0, 5), "b": st.booleans(), "cell": st.sampled_from(SIMPLICES)})
        out.append(Stratum("rules " + kind, s, check_rules, (80, 600)))
    out.append(Stratum("restrictions", restricted_cases(), check_restricted, (300, 3000), cost=2.0))
    out.append(Stratum("enrichments", enriched_cases(), check_enriched, (300, 3000), cost=3.0))
    n = len(FACTORS)
    out.append(Stratum("products", st.fixed_dictionaries({"op": st.sampled_from(["TPE", "Hdiv", "Hcurl"]), "a": st.integers(0, n - 1), "b": st.integers(0, n - 1)}),
                       check_product, (250, 2500), cost=2.0))
    out.append(Stratum("entities", entity_case({"e": st.integers(0, len(TABULATED) - 1)}), check_entity, (500, 6000), cost=2.0))
    out.append(Stratum("geometry", entity_case({"c": st.integers(0, len(GEOMETRY) - 1), "call": st.sampled_from(["points", "transform", "measure", "normal", "refnormal"])}),
                       check_geometry, (500, 6000)))
    out.append(Stratum("cell factories", cells_cases(), check_cells, (200, 2000)))
    tr = st.one_of(
        st.fixed_dictionaries({"cell": st.sampled_from(["T", "K", "Q", "I*I", "T*I"]), "deg": st.integers(-3, 3)}),
        st.fixed_dictionaries({"cell": st.sampled_from(["I*I", "T*I"]), "deg": st.lists(st.integers(0, 3), min_size=2, max_size=2)}),
        st.fixed_dictionaries({"cell": st.sampled_from(["T", "K", "Q", "I*I", "T*I"]), "deg": st.lists(st.integers(-2, 3), min_size=1, max_size=3)}))
    out.append(Stratum("trace degrees", tr, check_trace_degrees, (150, 1000), cost=2.0))
    s = st.fixed_dictionaries({"cell": st.sampled_from(SIMPLICES + ["I*I", "T*I", "Q", "H"]), "deg": st.integers(0, 4), "i": st.integers(0, 60),
                               "op": st.sampled_from(["own", "derivative", "entity", "moved", "permuted", "count"])})
    out.append(Stratum("quadrature elements", s, check_quadrature_element, (250, 2500)))
    s = st.fixed_dictionaries({"kind": st.sampled_from(["component", "expansion", "dimension", "moment"]), "cell": st.sampled_from(SIMPLICES + ["P"]),
                               "shape": st.lists(st.integers(1, 3), min_size=0, max_size=2), "comp": st.integers(-2, 4)})
    out.append(Stratum("functionals", s, check_functionals, (250, 2500)))
    return out
