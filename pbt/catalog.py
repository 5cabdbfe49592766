"""Element configurations as JSON, and their construction through FIAT's public classes.

A configuration is [family, ...]:  ["Lagrange", cell, degree], ["BDM", cell, degree, variant], ["TPE", cfgA, cfgB],
["Flat", cfg], ["Hdiv", cfg], ["Hcurl", cfg], ["Enriched", cfg, ...], ["Nodal", cfg, ...], ["Mixed", cfg, ...], ["Broken", cfg],
["RestrIdx", cfg, [indices]], ["Restr", cfg, domain], ["Quadrature", cell, degree]."""
import functools
import json
import math

import cells

SIMPLE = {  # family -> FIAT class name; called with (cell, degree)
    "Lagrange": "Lagrange", "DG": "DiscontinuousLagrange", "P0": None, "Bernstein": "Bernstein", "CR": "CrouzeixRaviart",
    "Bubble": "Bubble", "FacetBubble": "FacetBubble", "Hermite": "CubicHermite", "Morley": "Morley", "Argyris": "Argyris",
    "QArgyris": "QuinticArgyris", "Bell": "Bell", "AW": "ArnoldWinther", "AWnc": "ArnoldWintherNC", "MTW": "MardalTaiWinther",
    "BDFM": "BrezziDouglasFortinMarini", "DTaylor": "DiscontinuousTaylor", "DPC": "DPC", "S": "Serendipity",
    "DRT": "DiscontinuousRaviartThomas", "Regge": "Regge", "HHJ": "HellanHerrmannJohnson", "KMV": "KongMulderVeldhuizen",
    "GL": "GaussLegendre", "GLL": "GaussLobattoLegendre", "GR": "GaussRadau", "RT": "RaviartThomas", "BDM": "BrezziDouglasMarini",
    "N1": "Nedelec", "N2": "NedelecSecondKind", "HDivTrace": "HDivTrace",
}


def build(cfg, pool=None):
    """Element of a configuration.  With a pool (dict), equal cells and equal parts are shared objects taken from it."""
    import FIAT
    fam = cfg[0]

    def part(c):
        if pool is None:
            return build(c)
        k = key(c)
        if k not in pool:
            pool[k] = build(c, pool)
        return pool[k]
    if fam == "TPE":
        return FIAT.TensorProductElement(part(cfg[1]), part(cfg[2]))
    if fam == "Flat":
        from FIAT.tensor_product import FlattenedDimensions
        return FlattenedDimensions(part(cfg[1]))
    if fam in ("Hdiv", "Hcurl"):
        return getattr(FIAT, fam)(part(cfg[1]))
    if fam == "Enriched":
        return FIAT.EnrichedElement(*[part(c) for c in cfg[1:]])
    if fam == "Nodal":
        return FIAT.NodalEnrichedElement(*[part(c) for c in cfg[1:]])
    if fam == "Mixed":
        return FIAT.MixedElement([part(c) for c in cfg[1:]])
    if fam == "Broken":
        return FIAT.DiscontinuousElement(part(cfg[1]))
    if fam == "RestrIdx":
        return FIAT.RestrictedElement(part(cfg[1]), indices=list(cfg[2]))
    if fam == "Restr":
        return FIAT.RestrictedElement(part(cfg[1]), restriction_domain=cfg[2])
    if fam == "Form":           # a user-made element that states its form degree
        e = build(cfg[1])
        e.formdegree = cfg[2]
        return e
    if pool is None:
        cell = cells.geo(cfg[1]).make()
    else:
        cell = pool.get("cell " + cfg[1])
        if cell is None:
            cell = pool["cell " + cfg[1]] = cells.geo(cfg[1]).make()
    if fam == "Quadrature":
        q = FIAT.create_quadrature(cell, cfg[2])
        return FIAT.QuadratureElement(cell, q.get_points(), q.get_weights())
    if fam == "P0":
        return __import__("FIAT.P0", fromlist=["P0"]).P0(cell)
    if fam == "Bell":
        return FIAT.Bell(cell)
    if fam == "Hermite":
        return FIAT.CubicHermite(cell)
    if fam == "Morley":
        return FIAT.Morley(cell)
    if fam == "QArgyris":
        return FIAT.QuinticArgyris(cell)
    cls = getattr(FIAT, SIMPLE[fam])
    deg = cells.totuple(cfg[2])
    if len(cfg) > 3 and cfg[3] is not None:
        return cls(cell, deg, variant=cfg[3])
    return cls(cell, deg)


def key(cfg):
    return json.dumps(cfg, sort_keys=True)


@functools.lru_cache(maxsize=64)
def _cached(k):
    return build(json.loads(k))


def element(cfg):
    """Element of a configuration, cached inside one stratum process."""
    return _cached(key(cfg))


def cell_of(cfg):
    """Name of the reference cell of a configuration, derived without FIAT."""
    fam = cfg[0]
    if fam == "TPE":
        return "*".join(cells.paren(cell_of(c)) for c in cfg[1:3])
    if fam == "Flat":
        return {2: "Q", 3: "H"}[cells.geo(cell_of(cfg[1])).sd]
    if fam in ("Hdiv", "Hcurl", "Broken", "RestrIdx", "Restr", "Enriched", "Nodal", "Mixed", "Form"):
        return cell_of(cfg[1])
    return cfg[1]


def label(cfg):
    fam = cfg[0]
    if fam in SIMPLE or fam == "Quadrature":
        return "%s(%s)" % (fam, ",".join(str(x) for x in cfg[1:] if x is not None))
    if fam in ("RestrIdx", "Restr", "Form"):
        return "%s(%s,%s)" % (fam, label(cfg[1]), cfg[2])
    return "%s(%s)" % (fam, ",".join(label(c) for c in cfg[1:]))


# value rank by family: 0 scalar, 1 vector, 2 tensor
RANK = {"RT": 1, "BDM": 1, "N1": 1, "N2": 1, "BDFM": 1, "DRT": 1, "MTW": 1, "AW": 2, "AWnc": 2, "Regge": 2, "HHJ": 2}
UFC = ["I", "T", "K"]
ALLS = ["I", "dI", "T", "dT", "iT", "K", "dK", "iK"]
sd = {"I": 1, "dI": 1, "T": 2, "dT": 2, "iT": 2, "K": 3, "dK": 3, "iK": 3}


def basic(tier, cellset=None):
    """Simplicial (and DPC/serendipity/trace-free) configurations with feasible degrees.  deg caps by cell dimension."""
    q = tier == "quick"
    out = []
    cap = {1: 8 if q else 14, 2: 4 if q else 7, 3: 3 if q else 4}
    for c in ALLS:
        d = sd[c]
        other = c not in UFC
        m = cap[d] - (1 if other and d > 1 else 0)
        for k in range(1, m + 1):
            out.append(["Lagrange", c, k])
        for k in range(0, m):
            out.append(["DG", c, k])
        out.append(["P0", c])
        if d > 1:
            out.append(["CR", c, 1])
        for k in range(d + 1, m + 2):
            out.append(["Bubble", c, k])
        if d > 1:
            for k in range(d, m + 1):
                out.append(["FacetBubble", c, k])
        out.append(["Hermite", c, 3])
        for k in range(0, min(m, 4)):
            out.append(["DTaylor", c, k])
        if d == 1:
            for k in range(0, m + 1):
                out.append(["GL", c, k])
                out.append(["GR", c, k])
                if k:
                    out.append(["GLL", c, k])
        if d == 2:
            out += [["Morley", c, 2], ["QArgyris", c, 5], ["Argyris", c, 5], ["Bell", c, 5]]
            if not q:
                out += [["Argyris", c, 6], ["Argyris", c, 7]]
            elif c == "T":
                out += [["Argyris", c, 6]]
        for k in range(1, m + 2):
            out.append(["Bernstein", c, k])
    for c in ["T", "dT", "iT", "K", "dK", "iK"]:
        d = sd[c]
        other = c not in UFC
        m = {2: 3 if q else 5, 3: 2 if q else 3}[d]
        for fam in ("RT", "N1", "BDM", "N2"):
            mm = m + (1 if not other and fam in ("RT", "N1") else 0)
            if other and q and d == 3:
                mm = 1 if fam in ("BDM", "N2") else 2
            for k in range(1, mm + 1):
                out.append([fam, c, k, "point"])
                out.append([fam, c, k, "integral"])
                out.append([fam, c, k, "integral(%d)" % (k + 1 + (k % 2) + (2 if fam in ("BDM", "N2") else 1))])
        for k in range(1, m + 1):
            out.append(["DRT", c, k])
        for k in range(0, (m if d == 2 else m) + (0 if other else 0)):
            out.append(["Regge", c, k])
        if d == 2:
            out.append(["BDFM", c, 2])
            for k in range(0, m + 1):
                out.append(["HHJ", c, k])
    out += [["AW", "T", 3], ["AWnc", "T", 2], ["MTW", "T", 3]]
    for k in range(1, 6):
        out.append(["KMV", "T", k])
    for k in range(1, 4):
        out.append(["KMV", "K", k])
    for k in range(1, (8 if q else 11)):
        out.append(["S", "Q", k])
    for k in range(1, (7 if q else 8)):
        out.append(["S", "H", k])
    for k in range(0, 5 if q else 8):
        out.append(["DPC", "Q", k])
    for k in range(0, 4 if q else 6):
        out.append(["DPC", "H", k])
        out.append(["DPC", "I", k])
    out += [c for c in tall(tier) if c not in out]
    return out


def extrapolates(cfg):
    """False where values outside the cell lose digits (barycentric interpolation of high degree)."""
    return not any(isinstance(a, int) and a > 8 for a in cfg)


def tall(tier):
    """Single configurations of high degree: constants, tolerances and recurrences that only matter there."""
    out = [["DTaylor", "I", 7], ["DTaylor", "dI", 5], ["DTaylor", "T", 6], ["DTaylor", "dT", 5], ["DTaylor", "K", 4],
           ["Lagrange", "T", 6], ["Lagrange", "dT", 5], ["Lagrange", "K", 4], ["DG", "T", 5], ["DG", "K", 4], ["Bernstein", "T", 7], ["Bernstein", "K", 5],
           ["Lagrange", "I", 12], ["GL", "I", 12], ["GLL", "dI", 12], ["GR", "I", 12], ["Regge", "T", 4], ["HHJ", "T", 4], ["Regge", "K", 2],
           ["DRT", "T", 4], ["DRT", "K", 3], ["RT", "T", 5, "integral"], ["RT", "T", 5, "point"], ["N1", "T", 5, "integral"], ["N1", "T", 5, "point"],
           ["BDM", "T", 4, "integral"], ["BDM", "T", 4, "point"], ["N2", "T", 4, "integral"], ["N2", "T", 4, "point"], ["N1", "K", 4, "point"], ["RT", "K", 4, "point"],
           ["N2", "K", 3, "point"], ["N2", "K", 3, "integral"], ["BDM", "K", 3, "point"]]
    if tier != "quick":
        out += [["DTaylor", "I", 10], ["DTaylor", "T", 8], ["DTaylor", "K", 6], ["Lagrange", "T", 9], ["Lagrange", "K", 6], ["Lagrange", "I", 20], ["GL", "dI", 20],
                ["GLL", "I", 20], ["GR", "dI", 20], ["Regge", "T", 6], ["HHJ", "T", 6], ["Regge", "K", 3], ["RT", "T", 7, "integral"], ["N1", "T", 7, "point"],
                ["BDM", "T", 6, "integral"], ["N2", "T", 6, "point"], ["N1", "K", 5, "integral"], ["RT", "K", 5, "integral"], ["N2", "K", 4, "integral"],
                ["BDM", "K", 4, "integral"], ["Bernstein", "T", 10], ["Bernstein", "K", 7], ["Argyris", "T", 8], ["Bubble", "T", 8], ["Bubble", "K", 6]]
    return out


def products(tier):
    """Tensor-product, flattened, H(div) and H(curl) configurations."""
    q = tier == "quick"
    L1, L2, L3, D0, D1, D2 = (["Lagrange", "I", 1], ["Lagrange", "I", 2], ["Lagrange", "I", 3], ["DG", "I", 0], ["DG", "I", 1],
                              ["DG", "I", 2])
    out = []

    def tpe(a, b):
        return ["TPE", a, b]
    HD = ["RestrIdx", ["Hermite", "I", 3], [1, 3]]
    scal1 = [L1, L2, D0, D1, ["GL", "I", 2], ["GLL", "I", 2], ["GR", "I", 1], ["Hermite", "I", 3], ["DTaylor", "I", 2],
             ["Bernstein", "I", 2], ["P0", "I"], ["Bubble", "I", 2], L3, D2, HD]
    pairs = [(0, 1), (1, 0), (1, 3), (3, 2), (4, 5), (6, 4), (7, 0), (0, 7), (8, 0), (10, 1), (11, 0), (12, 3), (13, 12), (14, 0)]
    if not q:
        pairs = [(i, j) for i in range(15) for j in range(15)]
    for i, j in pairs:
        if NODE_CLASH(scal1[i], scal1[j]):
            continue
        out.append(tpe(scal1[i], scal1[j]))
    out += [tpe(["Lagrange", "dI", 2], ["DG", "dI", 1]), tpe(["DG", "dI", 2], ["Lagrange", "I", 1])]
    tri = [["Lagrange", "T", 2], ["DG", "T", 1], ["CR", "T", 1], ["P0", "T"], ["Bubble", "T", 3], ["RT", "T", 1, "point"],
           ["RT", "T", 2, "integral"], ["N1", "T", 2, "point"], ["N1", "T", 1, "integral"], ["BDM", "T", 1, "point"],
           ["BDM", "T", 2, "integral"], ["N2", "T", 1, "point"], ["N2", "T", 2, "integral"], ["BDFM", "T", 2], ["DRT", "T", 1],
           ["Enriched", ["Lagrange", "T", 1], ["Bubble", "T", 3]], ["Lagrange", "iT", 1], ["RT", "dT", 1, "point"],
           ["Broken", ["Lagrange", "T", 2]], ["Hermite", "T", 3]]
    for i, t in enumerate(tri):
        for l in ([L1, D0, D1, L2][i % 4:i % 4 + 1] if q else [L1, D0, D1, L2]):
            out.append(tpe(t, l))
    out += [tpe(L1, ["Lagrange", "T", 2]), tpe(D1, ["DG", "T", 1]), tpe(L2, ["CR", "T", 1]),
            tpe(HD, ["RT", "T", 1, "point"]), tpe(HD, ["N1", "T", 2, "integral"])]
    out += [tpe(tpe(L1, L2), D1), tpe(tpe(L2, D0), L1), tpe(L1, tpe(L2, D1)), tpe(tpe(["Lagrange", "T", 1], L1), L2) if not q else
            tpe(tpe(L1, L1), tpe(D1, D0))]
    out += [["Flat", tpe(L1, L2)], ["Flat", tpe(L2, L2)], ["Flat", tpe(D1, D1)], ["Flat", tpe(["GL", "I", 1], ["GLL", "I", 2])],
            ["Flat", tpe(tpe(L1, L2), L1)], ["Flat", tpe(tpe(L2, L2), L2)], ["Flat", tpe(L1, tpe(L1, D1))], ["Flat", tpe(D0, D0)]]
    if not q:
        out += [["Flat", tpe(L3, L2)], ["Flat", tpe(tpe(L3, L3), L2)], ["Flat", tpe(tpe(D1, D2), D1)]]
    out += wrapped(tier)
    return out


def NODE_CLASH(a, b):
    """Products whose node types FIAT documents as unsupported (it raises NotImplementedError)."""
    pe = {"Lagrange", "DG", "GL", "GLL", "GR", "P0", "Bubble", "Quadrature"}
    if "Bernstein" in (a[0], b[0]):
        return True
    if b[0] in pe:
        return False
    if a[0] == "RestrIdx":
        return False
    return b[0] != "DTaylor" and b[0] != "Hermite" or a[0] not in pe


def wrapped(tier):
    q = tier == "quick"
    L1, L2, L3, D0, D1, D2 = (["Lagrange", "I", 1], ["Lagrange", "I", 2], ["Lagrange", "I", 3], ["DG", "I", 0], ["DG", "I", 1],
                              ["DG", "I", 2])
    B1 = ["Form", ["RestrIdx", ["Hermite", "I", 3], [1, 3]], 0]   # derivative nodes: its products with vector-valued elements are accepted
    bB = ["Broken", B1]

    def tpe(a, b):
        return ["TPE", a, b]
    div, curl = [], []
    for a, b in [(L1, D0), (D0, L1), (L2, D1), (D1, L2), (["GLL", "I", 2], ["GL", "I", 1]), (["Lagrange", "dI", 1], ["DG", "dI", 1])] + \
            ([] if q else [(L3, D2), (D2, L3), (D0, L3), (L2, D0)]):
        div.append(tpe(a, b))
        curl.append(tpe(a, b))
    div += [tpe(["RT", "T", 1, "point"], D0), tpe(["RT", "T", 2, "integral"], D1), tpe(["BDM", "T", 1, "point"], D0),
            tpe(["DG", "T", 0], L1), tpe(["DG", "T", 1], L2), tpe(["N1", "T", 1, "point"], D0), tpe(["N1", "T", 2, "integral"], D1),
            tpe(["N2", "T", 1, "point"], D1), tpe(L1, ["DG", "T", 1]), tpe(bB, ["RT", "T", 1, "point"]),
            tpe(bB, ["N1", "T", 2, "point"]), tpe(["RT", "dT", 1, "point"], ["DG", "dI", 1]), tpe(L1, tpe(D0, D1)), tpe(tpe(D1, D0), L2),
            tpe(["DTaylor", "I", 1], L1)]
    curl += [tpe(["N1", "T", 1, "point"], L1), tpe(["N1", "T", 2, "integral"], L2), tpe(["N2", "T", 1, "point"], L1),
             tpe(["Lagrange", "T", 1], D0), tpe(["Lagrange", "T", 2], D1), tpe(["RT", "T", 1, "point"], L1),
             tpe(["RT", "T", 2, "integral"], L2), tpe(["BDM", "T", 1, "point"], L1), tpe(D1, ["Lagrange", "T", 2]),
             tpe(B1, ["N1", "T", 1, "point"]), tpe(B1, ["RT", "T", 2, "point"]), tpe(["N1", "iT", 1, "point"], L1),
             tpe(D0, tpe(L1, L2)), tpe(tpe(L1, L1), D1), tpe(["DTaylor", "I", 1], L1)]
    rtcf = ["Enriched", ["Hdiv", tpe(L1, D0)], ["Hdiv", tpe(D0, L1)]]
    rtce = ["Enriched", ["Hcurl", tpe(L1, D0)], ["Hcurl", tpe(D0, L1)]]
    div += [tpe(rtcf, D0), tpe(rtce, D0)]
    curl += [tpe(rtce, L1), tpe(rtcf, L1)]
    out = [["Hdiv", e] for e in div] + [["Hcurl", e] for e in curl]
    out += [["Flat", ["Hdiv", tpe(L1, D0)]], ["Flat", ["Hcurl", tpe(D1, L2)]], ["Flat", rtcf], ["Flat", rtce],
            ["Flat", ["Hdiv", tpe(rtcf, D0)]], ["Flat", ["Hcurl", tpe(rtce, L1)]]]
    return out


def composites(tier):
    """Enriched, nodal-enriched, restricted, mixed and broken configurations."""
    q = tier == "quick"
    out = []
    P1, P2, P3 = ["Lagrange", "T", 1], ["Lagrange", "T", 2], ["Lagrange", "T", 3]
    B3, B4 = ["Bubble", "T", 3], ["Bubble", "T", 4]
    for kind in ("Enriched", "Nodal"):
        out += [[kind, P1, B3], [kind, P2, B3], [kind, P2, B4], [kind, ["Lagrange", "K", 1], ["Bubble", "K", 4]],
                [kind, ["Lagrange", "K", 1], ["FacetBubble", "K", 3], ["Bubble", "K", 4]],
                [kind, ["Lagrange", "I", 1], ["Bubble", "I", 2]], [kind, ["Lagrange", "I", 2], ["Bubble", "I", 4]] if kind == "Enriched"
                else [kind, ["Lagrange", "I", 1], ["Bubble", "I", 3]],
                [kind, ["Lagrange", "dT", 1], ["Bubble", "dT", 3]], [kind, ["RestrIdx", P2, [0, 1, 2]], ["RestrIdx", P2, [4, 3, 5]]],
                [kind, ["RT", "T", 1, "point"], ["Restr", ["RT", "T", 2, "point"], "interior"]],
                [kind, ["RT", "T", 1, "integral"], ["Restr", ["BDM", "T", 3, "integral"], "interior"]]]
    out += [["Enriched", ["Enriched", P1, B3], ["Bubble", "T", 4]], ["Enriched", ["Regge", "T", 0], ["RestrIdx", ["Regge", "T", 1], [0, 3, 8]]],
            ["Enriched", ["TPE", ["Lagrange", "I", 1], ["Lagrange", "I", 1]], ["TPE", ["Bubble", "I", 2], ["Bubble", "I", 2]]],
            ["Enriched", ["DRT", "T", 1], ["DRT", "T", 2]], ["Enriched", P1]]
    restr = [P3, ["Lagrange", "K", 3], ["Lagrange", "I", 3], ["RT", "T", 2, "point"], ["N1", "K", 2, "point"] if q else ["N1", "K", 3, "point"],
             ["N2", "T", 3, "integral"], ["Hermite", "T", 3], ["Hermite", "K", 3], ["Argyris", "T", 5], ["KMV", "T", 3], ["Regge", "T", 1],
             ["Regge", "K", 1], ["HHJ", "T", 2], ["BDM", "K", 2, "point"], ["Lagrange", "iT", 3], ["Lagrange", "dK", 3], ["DRT", "T", 1],
             ["BDFM", "T", 2], ["MTW", "T", 3], ["AW", "T", 3], ["CR", "T", 1], ["GLL", "I", 4], ["Broken", ["Lagrange", "T", 2]]]
    for e in restr:
        for dom in ("interior", "facet", "face", "edge", "vertex"):
            if restr_dofs(e, dom):
                out.append(["Restr", e, dom])
    out += [["RestrIdx", P3, [9, 0, 4]], ["RestrIdx", ["RT", "T", 2, "point"], [7, 2, 3, 0]], ["RestrIdx", ["Lagrange", "K", 2], [1, 5, 8]],
            ["RestrIdx", ["Regge", "T", 1], [8, 0, 4]], ["RestrIdx", ["Restr", P3, "facet"], [8, 0, 3]],
            ["Restr", ["Nodal", P2, B4], "interior"],
            ["Restr", ["Nodal", P2, B3], "facet"], ["RestrIdx", ["Bubble", "T", 4], [2, 1]]]
    out += [["Mixed", P2, P1], ["Mixed", ["RT", "T", 1, "point"], ["DG", "T", 0]], ["Mixed", ["DG", "T", 0], ["RT", "T", 1, "point"], P1],
            ["Mixed", ["N1", "K", 1, "point"], ["Lagrange", "K", 2]], ["Mixed", ["Regge", "T", 0], ["RT", "T", 1, "integral"], P1],
            ["Mixed", ["Lagrange", "I", 2], ["DG", "I", 0]], ["Mixed", ["Mixed", P2, P1], ["DG", "T", 1]], ["Mixed", P1],
            ["Mixed", ["TPE", ["Lagrange", "I", 1], ["Lagrange", "I", 2]], ["TPE", ["DG", "I", 1], ["DG", "I", 0]]],
            ["Mixed", ["Hdiv", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]], ["TPE", ["DG", "I", 1], ["DG", "I", 0]]],
            ["Mixed", ["HHJ", "T", 0], P1], ["Mixed", ["Enriched", P1, B3], P1], ["Mixed", ["Bernstein", "T", 2], P1]]
    out += [["Broken", P2], ["Broken", ["RT", "T", 2, "point"]], ["Broken", ["Regge", "K", 0]], ["Broken", ["N1", "K", 1, "integral"]],
            ["Broken", ["TPE", ["Lagrange", "I", 2], ["Lagrange", "I", 1]]], ["Broken", ["Hdiv", ["TPE", ["Lagrange", "I", 1], ["DG", "I", 0]]]],
            ["Broken", ["Enriched", P1, B3]], ["Broken", ["Bernstein", "T", 2]], ["Broken", ["Broken", ["Hermite", "T", 3]]],
            ["Broken", ["Flat", ["TPE", ["Lagrange", "I", 1], ["Lagrange", "I", 2]]]], ["Broken", ["S", "Q", 2]], ["Broken", ["KMV", "T", 2]]]
    return out


# ------------------------------------------------------------------ dofs per entity, derived without FIAT

def dofs_per_entity(cfg):
    """{entity dimension: number of dofs} of scalar-table families (only where needed to list restrictions)."""
    fam = cfg[0]
    c = math.comb
    if fam == "Lagrange" or fam == "Bernstein" or fam == "GLL":
        k = cfg[2]
        return {d: c(k - 1, d) for d in range(sd[cfg[1]] + 1)}
    if fam == "RT":
        k, d = cfg[2], sd[cfg[1]]
        n = c(k + d - 2, d - 1)
        return {0: 0, **{i: 0 for i in range(1, d - 1)}, d - 1: n, d: d * c(k + d - 2, d)}
    if fam == "BDM":
        k, d = cfg[2], sd[cfg[1]]
        n = c(k + d - 1, d - 1)
        return {**{i: 0 for i in range(d - 1)}, d - 1: n, d: d * c(k + d, d) - (d + 1) * n}
    if fam == "N1":
        k, d = cfg[2], sd[cfg[1]]
        out = {0: 0, 1: k, 2: k * (k - 1)}
        if d == 3:
            out[3] = k * (k - 1) * (k - 2) // 2
        return out
    if fam == "N2":
        k, d = cfg[2], sd[cfg[1]]
        out = {0: 0, 1: k + 1, 2: (k - 1) * (k + 1)}
        if d == 3:
            out[3] = (k - 2) * (k - 1) * (k + 1) // 2
        return out
    if fam == "Hermite":
        d = sd[cfg[1]]
        return {0: d + 1, 1: 0, **({2: 1} if d >= 2 else {}), **({3: 0} if d == 3 else {})}
    if fam in ("Argyris", "QArgyris"):
        return {0: 6, 1: 2 * cfg[2] - 9, 2: c(cfg[2] - 4, 2)}
    if fam == "KMV":
        return {2: {1: {0: 1, 1: 0, 2: 0}, 2: {0: 1, 1: 1, 2: 1}, 3: {0: 1, 1: 2, 2: 3}, 4: {0: 1, 1: 3, 2: 6}, 5: {0: 1, 1: 4, 2: 15}},
                3: {1: {0: 1, 1: 0, 2: 0, 3: 0}, 2: {0: 1, 1: 1, 2: 1, 3: 1}, 3: {0: 1, 1: 2, 2: 3, 3: 4}}}[sd[cfg[1]]][cfg[2]]
    if fam == "Regge":
        k, d = cfg[2], sd[cfg[1]]
        out = {0: 0}
        n = c(k + d, d) * d * (d + 1) // 2
        out[1] = k + 1
        out[2] = 3 * k * (k + 1) // 2
        if d == 3:
            out[3] = n - 6 * out[1] - 4 * out[2]
        return out
    if fam == "HHJ":
        k = cfg[2]
        return {0: 0, 1: k + 1, 2: 3 * k * (k + 1) // 2}
    if fam == "BDFM":
        return {0: 0, 1: 2, 2: 3}
    if fam == "MTW":
        return {0: 0, 1: 5, 2: 5}
    if fam == "AW":
        return {0: 3, 1: 4, 2: 9}
    if fam == "AWnc":
        return {0: 0, 1: 5, 2: 3}
    if fam == "Morley":
        return {0: 1, 1: 1, 2: 0}
    if fam == "Bell":
        return {0: 6, 1: 1, 2: 0}
    if fam == "CR":
        d = sd[cfg[1]]
        return {**{i: 0 for i in range(d + 1)}, d - 1: 1}
    if fam in ("DG", "DRT", "DTaylor", "P0", "GL", "GR", "DPC"):
        return {"interior": True}
    raise KeyError(fam)


def restr_dofs(cfg, dom):
    """Whether the restriction of the configuration to the domain is defined and not empty."""
    fam = cfg[0]
    if fam in ("DRT", "Broken"):
        return dom == "interior"
    n = dofs_per_entity(cfg)
    d = sd[cell_of(cfg)]
    if dom == "interior":
        return n[d] > 0
    top = {"facet": d - 1, "face": 2, "edge": 1, "vertex": 0}[dom]
    return top <= d and any(n[i] for i in range(top + 1))
