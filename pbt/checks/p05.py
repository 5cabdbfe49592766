"""P05: named quadrature families and orthogonal-polynomial routines."""
import math
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st

import cells
import fem
import polys
from checks.p04 import check_rule, make_poly
from core import Stratum, Violation
from fem import close, require

RULE = ("One stratum per rule family or routine. Each case draws the number of points (or degree), weight exponents, reference geometry and, for pointwise "
        "routines, evaluation points; number and position of the points, positivity, measure and exactness to the classical degree against closed-form "
        "moments (exact rational arithmetic or beta functions) are checked. Non-trivial: more than one point, or degree at least 1.")


def beta_moment(a, b, i, j):
    """Integral of (1-x)^(a+i) (1+x)^(b+j) over (-1, 1)."""
    p, q = a + i + 1, b + j + 1
    return math.exp((p + q - 1) * math.log(2) + math.lgamma(p) + math.lgamma(q) - math.lgamma(p + q))


def moments_ok(x, w, a, b, deg, tol, what):
    """Exactness of a rule for the Jacobi weight in the positive basis (1-x)^i (1+x)^(deg-i), which spans the polynomials of that degree."""
    x, w = np.asarray(x, dtype=float), np.asarray(w, dtype=float)
    for i in range(deg + 1):
        want = beta_moment(a, b, i, deg - i)
        got = float(np.sum(w * (1 - x) ** i * (1 + x) ** (deg - i)))
        require(abs(got - want) <= tol * want + 1e-16 * 2 ** deg, "%s: moment %d of degree %d is %.15g instead of %.15g", what, i, deg, got, want)


EXPONENT = st.one_of(st.integers(0, 6).map(float), st.integers(-18, 80).map(lambda k: k / 20 + 0.0))


def gauss_jacobi(case):
    from FIAT.quadrature import compute_gauss_jacobi_points, compute_gauss_jacobi_rule
    a, b, m = case["a"], case["b"], case["m"]
    x, w = compute_gauss_jacobi_rule(a, b, m)
    require(len(x) == len(w) == m, "%d points and %d weights for m = %d", len(x), len(w), m)
    require(all(-1 < t < 1 for t in x) and len(set(np.round(x, 9))) == m, "points %s are not distinct in (-1, 1)", x)
    require(min(w) > 0, "weight %s", min(w))
    close(x, compute_gauss_jacobi_points(a, b, m), 1.0, 1e-14, "points of the rule")
    moments_ok(x, w, a, b, 2 * m - 1, 1e-9, "Gauss-Jacobi")
    moments_ok(x, w, a, b, 0, 1e-9, "Gauss-Jacobi")
    return "m>1" if m > 1 else None


LINE = {"jacobi": ("GaussJacobiQuadratureLineRule", -1, 1), "legendre": ("GaussLegendreQuadratureLineRule", -1, 1),
        "lobatto": ("GaussLobattoLegendreQuadratureLineRule", -3, 2), "radau right": ("RadauQuadratureLineRule", -2, 1),
        "radau left": ("RadauQuadratureLineRule", -2, 1)}


def positive(q):
    w = np.asarray(q.get_weights())
    require((w > 0).all(), "weights %s", w)


def line(kind, case):
    import FIAT.quadrature as Q
    cls, off, lo = LINE[kind]
    m = case["m"] + lo - 1
    name = case["c"]
    ref = cells.geo(name).make()
    if kind.startswith("radau"):
        right = kind.endswith("right")
        q = Q.RadauQuadratureLineRule(ref, m, right) if not (right and case["m"] % 2) else Q.RadauQuadratureLineRule(ref, m)
    else:
        q = getattr(Q, cls)(ref, m)
    x = np.asarray(q.get_points())
    require(x.shape == (m, 1), "points of shape %s for m = %d", x.shape, m)
    check_rule(name, [2 * m + off], q)
    positive(q)
    v = cells.geo(name).verts[:, 0]
    ends = {"lobatto": [v[0], v[1]], "radau right": [v[1]], "radau left": [v[0]]}.get(kind, [])
    if m > 1 or kind == "radau left" or kind == "radau right":
        for e in ends:
            require(np.abs(x - e).min() <= 1e-14, "%s rule with %d points misses the endpoint %s", kind, m, e)
    require(len(set(np.round(x[:, 0], 12))) == m, "points repeat")
    return kind if m > 1 else None


def collapsed(case):
    import FIAT.quadrature as Q
    name, m = case["c"], case["m"]
    g = cells.geo(name)
    ref = g.make()
    if case["make"] or name in ("I", "dI", "Q", "H"):
        q = Q.make_quadrature(ref, m)
    else:
        q = (Q.CollapsedQuadratureTriangleRule if g.sd == 2 else Q.CollapsedQuadratureTetrahedronRule)(ref, m)
    require(len(q.get_points()) == m ** g.sd, "%d points for %d per direction", len(q.get_points()), m)
    positive(q)
    check_rule(name, [2 * m - 1] * len(cells.factor_names(name)), q)
    return name if m > 1 else None


def product(case):
    import FIAT.quadrature as Q
    names, ms = case["c"], case["m"]
    rules = [Q.make_quadrature(cells.geo(n).make(), m) for n, m in zip(names, ms)]
    q = Q.make_tensor_product_quadrature(*rules)
    name = "*".join(names)
    require(len(q.get_points()) == math.prod(len(r.get_points()) for r in rules), "%d points", len(q.get_points()))
    positive(q)
    check_rule(name, [2 * m - 1 for n, m in zip(names, ms)], q)
    k = 0
    import itertools
    for idx in itertools.product(*[range(len(r.get_points())) for r in rules]):
        p = np.concatenate([np.asarray(r.get_points()[i]) for r, i in zip(rules, idx)])
        w = math.prod(float(r.get_weights()[i]) for r, i in zip(rules, idx))
        close(q.get_points()[k], p, 1.0, 1e-15, "point %d of the product rule" % k)
        close(q.get_weights()[k], w, 1.0, 1e-14, "weight %d of the product rule" % k)
        k += 1
    return "product"


def face(case):
    from FIAT.quadrature import UFCTetrahedronFaceQuadratureRule
    f, m = case["f"], case["m"]
    q = UFCTetrahedronFaceQuadratureRule(f, m)
    g = cells.geo("K")
    V = g.verts[list(g.topo[2][f])]
    pts, w = np.asarray(q.get_points()), np.asarray(q.get_weights())
    require(len(pts) == len(w) == m * m, "%d points for %d per direction", len(pts), m)
    require((w > 0).all(), "weights %s", w)
    area = g.measure(2, f)
    close(w.sum(), area, 1.0, 1e-13, "sum of the weights and area of face %d" % f)
    lam = polys.barycentric("K", pts)
    require(np.abs(lam[:, f]).max() < 1e-14 and lam.min() > -1e-14, "points off face %d", f)
    J = (V[1:] - V[0]).T
    close(q.jacobian(), J, 1.0, 1e-15, "Jacobian of face %d" % f)
    rp = np.asarray(q.reference_rule().get_points())
    close(V[0] + rp @ J.T, pts, 1.0, 1e-14, "points against those of the reference rule")
    sx, sw = polys.simplex_rule(V, 2 * m - 1)
    B = polys.total_basis("K", 2 * m - 1)
    close(B.tab(pts) @ w, B.tab(sx) @ sw, 1.0, 1e-12, "integrals of polynomials over face %d" % f)
    # composed with the face map, integrals agree monomial by monomial in the face's own coordinates
    a = case["a"]
    v = float(np.sum(w * np.prod(lam[:, [i for i in range(4) if i != f]] ** np.array(a), axis=1)))
    if sum(a) <= 2 * m - 1:
        close(v, polys.simplex_monomial_integral(area, a), 1.0, 1e-13, "barycentric monomial on face %d" % f)
    return "face %d" % f


# classical exactness of the mass-lumping rules (Chin-Joe-Kong, Mulder and van Veldhuizen; Geevers, Mulder and van der Vegt): total degree,
# and products of the element's space with polynomials of degree k - 2
KMV_EXACT = {2: {1: 1, 2: 3, 3: 5, 4: 7, 5: 10}, 3: {1: 1, 2: 3, 3: 5}}
KMV_POINTS = {2: {1: 3, 2: 7, 3: 12, 4: 18, 5: 30}, 3: {1: 4, 2: 15, 3: 32}}


def kmv(case):
    from FIAT.quadrature_schemes import create_quadrature
    name = case["c"]
    g = cells.geo(name)
    k = min(case["k"], 5 if g.sd == 2 else 3)
    q = create_quadrature(g.make(), k, "KMV")
    require(len(q.get_points()) == KMV_POINTS[g.sd][k], "%d points for KMV %d", len(q.get_points()), k)
    positive(q)
    check_rule(name, [KMV_EXACT[g.sd][k]], q)
    pts = np.asarray(q.get_points())
    for v in g.verts:
        require(np.abs(pts - v).max(axis=1).min() < 1e-14, "the rule misses vertex %s", v)
    lam = polys.barycentric(name, pts)
    if k > 1:
        X, W = polys.cell_rule(name, 14)
        B = polys.total_basis(name, k - 2)
        both = [np.einsum("ip,jp,p->ij", fem.kmv(name, k, x), B.tab(x), w) for x, w in ((pts, np.asarray(q.get_weights())), (X, W))]
        close(both[0], both[1], 1.0, 1e-12, "integrals of the KMV space times polynomials of degree %d" % (k - 2))
    # invariant under the permutations of the vertices
    w = np.asarray(q.get_weights())
    for perm in ([1, 2, 0, 3], [1, 0, 2, 3], [0, 3, 1, 2], [3, 0, 1, 2]):
        p = [i for i in perm if i <= g.sd]
        for l, ww in zip(lam[:, p], w):
            d = np.abs(lam - l).max(axis=1)
            require(d.min() < 1e-13 and abs(w[d.argmin()] - ww) < 1e-15, "the rule is not symmetric at %s", l)
    return "KMV %d" % k if k > 1 else None


# ---------------------------------------------------------------- orthogonal polynomials

def binom(x, k):
    """Generalised binomial coefficient of a rational x."""
    out = Fr(1)
    for i in range(k):
        out = out * (x - i) / (i + 1)
    return out


def jacobi_exact(n, a, b, x):
    return sum(binom(n + a, n - s) * binom(n + b, s) * ((x - 1) / 2) ** s * ((x + 1) / 2) ** (n - s) for s in range(n + 1))


def jacobi_deriv_exact(n, a, b, x):
    return (n + a + b + 1) / Fr(2) * jacobi_exact(n - 1, a + 1, b + 1, x) if n else Fr(0)


def pointwise(case):
    from FIAT import jacobi as J, orthopoly as O
    a, b = Fr(case["a"], 10), Fr(case["b"], 10)
    n = case["n"]
    xs = [Fr(x, 64) for x in case["x"]]
    fa, fb = float(a), float(b)
    fx = np.array([float(x) for x in xs])
    P = np.array([[float(jacobi_exact(k, a, b, x)) for x in xs] for k in range(n + 1)])
    D = np.array([[float(jacobi_deriv_exact(k, a, b, x)) for x in xs] for k in range(n + 1)])
    sP, sD = np.abs(P).max(axis=0).max(), np.abs(D).max(axis=0).max()
    sP, sD = max(1.0, sP), max(1.0, sD)
    tol = 1e-11
    for j, x in enumerate(fx):
        close(J.eval_jacobi(fa, fb, n, x), P[n, j], sP, tol, "eval_jacobi at %s" % x)
        close(J.eval_jacobi_deriv(fa, fb, n, x), D[n, j], sD, tol, "eval_jacobi_deriv at %s" % x)
    close(J.eval_jacobi_batch(fa, fb, n, fx.reshape(-1, 1)), P, sP, tol, "eval_jacobi_batch")
    close(J.eval_jacobi_deriv_batch(fa, fb, n, fx.reshape(-1, 1)), D, sD, tol, "eval_jacobi_deriv_batch")
    whole = [j for j, x in enumerate(xs) if x.denominator == 1]
    if whole:
        ix = np.array([[int(xs[j])] for j in whole])
        close(J.eval_jacobi_batch(fa, fb, n, ix), P[:, whole], sP, tol, "eval_jacobi_batch at integers")
        close(J.eval_jacobi_deriv_batch(fa, fb, n, ix), D[:, whole], sD, tol, "eval_jacobi_deriv_batch at integers")
    close(O.jacobi(n, fa, fb, fx), P.T, sP, tol, "orthopoly.jacobi")
    close(O.jacobiD(n, fa, fb, fx), D.T, sD, tol, "orthopoly.jacobiD")
    norm = np.array([norm_jacobi(k, fa, fb) for k in range(n + 1)])
    close(O.jacobi(n, fa, fb, fx, 2) * norm, P.T, sP, 1e-10, "normalized orthopoly.jacobi")
    close(O.jacobiD(n, fa, fb, fx, 2) * norm, D.T, sD, 1e-10, "derivatives of normalized orthopoly.jacobi")
    return "degree>0" if n else None


def norm_jacobi(k, a, b):
    if k == 0:
        return math.sqrt(beta_moment(a, b, 0, 0))
    l = (a + b + 1) * math.log(2) + math.lgamma(k + a + 1) + math.lgamma(k + b + 1) - math.lgamma(k + 1) - math.lgamma(k + a + b + 1)
    return math.sqrt(math.exp(l) / (2 * k + a + b + 1))


def recurrence(case):
    from FIAT import orthopoly as O
    a, b, N = case["a"], case["b"], case["m"]
    alpha, beta = O.rec_jacobi(N, a, b)
    require(np.shape(alpha) == np.shape(beta) == (N,), "recurrence coefficients of shapes %s, %s", np.shape(alpha), np.shape(beta))
    x, w = O.gauss(alpha, beta)
    require(len(x) == len(w) == N and (np.abs(x) < 1).all() and (w > 0).all(), "Gauss rule %s %s", x, w)
    moments_ok(x, w, a, b, 2 * N - 1, 1e-9, "gauss(rec_jacobi)")
    moments_ok(x, w, a, b, 0, 1e-11, "gauss(rec_jacobi)")
    pts = np.array([p / 64 for p in case["x"]])
    P = O.polyval(alpha, beta, pts)
    fa, fb = Fr(round(a * 20), 20), Fr(round(b * 20), 20)
    require(P.shape == (len(pts), N + 1), "polyval of shape %s", P.shape)
    if a > -0.5 and b > -0.5:
        for k in range(min(N, 8) + 1):
            lead = binom(2 * k + fa + fb, k) / Fr(2) ** k
            want = [float(jacobi_exact(k, fa, fb, Fr(p, 64)) / lead) for p in case["x"]]
            close(P[:, k], want, max(1.0, np.abs(want).max()), 1e-9, "monic polynomial %d" % k)
    if N >= 3:
        a0, b0 = np.array(alpha), np.array(beta)
        xl, wl = O.lobatto(alpha, beta, -1.0, 1.0)
        require((np.array(alpha) == a0).all() and (np.array(beta) == b0).all(), "lobatto changed its arguments")
        require(len(xl) == N and abs(xl.min() + 1) < 1e-12 and abs(xl.max() - 1) < 1e-12 and (wl > -1e-14).all(), "Lobatto rule %s %s", xl, wl)
        moments_ok(xl, wl, a, b, 2 * N - 3, 1e-8, "lobatto(rec_jacobi)")
    a1, b1 = O.rec_jacobi01(N, a, b)
    x1, w1 = O.gauss(a1, b1)
    require(len(x1) == N and (x1 > 0).all() and (x1 < 1).all() and (w1 > 0).all(), "Gauss rule on (0,1): %s %s", x1, w1)
    moments_ok(2 * x1 - 1, w1 * 2 ** (a + b + 1), a, b, 2 * N - 1, 1e-9, "gauss(rec_jacobi01)")
    return "N>1" if N > 1 else None


def shifted_legendre(n):
    """Monomial coefficients of the monic shifted Legendre polynomial of degree n."""
    c = [Fr((-1) ** (n - j) * math.comb(n, j) * math.comb(n + j, j)) for j in range(n + 1)]
    return [x / c[-1] for x in c]


def logarithmic(case):
    from FIAT import orthopoly as O
    N = case["m"]
    num, den = case["a"]
    a = num if den == 1 else num / den
    if case["float"]:
        a = float(a)
    fa = Fr(num, den)
    mm = O.mm_log(2 * N, a)
    require(len(mm) == 2 * N, "%d modified moments", len(mm))
    for n in range(2 * N):
        want = float(sum(c / (fa + j + 1) ** 2 for j, c in enumerate(shifted_legendre(n))))
        close(mm[n], want, abs(want), 1e-8, "modified moment %d" % n)
    alpha, beta = O.rec_jaclog(N, a)
    x, w = O.gauss(alpha, beta)
    require(len(x) == N and (x > 0).all() and (x < 1).all() and (w > 0).all(), "Gauss rule %s %s for the logarithmic weight", x, w)
    for j in range(2 * N):
        want = 1 / (float(fa) + j + 1) ** 2
        close(np.sum(w * x ** j), want, want, 1e-8, "moment %d of the logarithmic weight" % j)
    extra = case["extra"]
    al, be = O.rec_jacobi01(2 * (N + extra), 0, 0)
    al2, be2, _ = O.mod_chebyshev(N, O.mm_log(2 * (N + extra), a), al, be)
    close(al2, alpha, 1.0, 1e-9, "mod_chebyshev with %d spare moments" % (2 * extra))
    close(be2, beta, 1.0, 1e-9, "mod_chebyshev with %d spare moments" % (2 * extra))
    return "logarithmic"


def strata(tier):
    q = tier == "quick"
    S = []
    d = st.fixed_dictionaries
    X = st.lists(st.one_of(st.integers(-64, 64), st.sampled_from([-64, 64, 0]), st.integers(-90, 90)), min_size=1, max_size=4)
    S.append(Stratum("Gauss-Jacobi", d({"a": EXPONENT, "b": EXPONENT, "m": st.integers(1, 16 if q else 30)}), gauss_jacobi, n=(300, 3000)))
    for kind in LINE:
        S.append(Stratum(kind, d({"m": st.integers(1, 40 if q else 80), "c": st.sampled_from(["I", "dI"])}), lambda c, k=kind: line(k, c), n=(100, 400)))
        S.append(Stratum(kind + " few points", d({"m": st.integers(1, 8), "c": st.sampled_from(["I", "dI"])}), lambda c, k=kind: line(k, c), n=(40, 100)))
    for c in ["I", "dI", "T", "dT", "iT", "K", "dK", "iK", "Q", "H"]:
        sd = cells.geo(c).sd
        mm = {1: 20, 2: 12, 3: 6}[sd] if q else {1: 40, 2: 22, 3: 10}[sd]
        S.append(Stratum("collapsed " + c, d({"c": st.just(c), "m": st.integers(1, mm), "make": st.booleans()}), collapsed, n=(40, 150)))
    two = st.lists(st.sampled_from(["I", "dI", "T", "dT", "iT"]), min_size=2, max_size=2)
    S.append(Stratum("product", d({"c": st.one_of(two, st.lists(st.sampled_from(["I", "dI"]), min_size=2, max_size=3), st.just(["K", "I"])),
                                   "m": st.lists(st.integers(1, 4), min_size=3, max_size=3)}), product, n=(60, 300)))
    for f in range(4):
        S.append(Stratum("face %d" % f, d({"f": st.just(f), "m": st.integers(1, 8 if q else 12), "a": st.lists(st.integers(0, 4), min_size=3, max_size=3)}),
                         face, n=(40, 200)))
    S.append(Stratum("KMV", d({"c": st.sampled_from(["T", "K", "dT", "iT", "dK", "iK"]), "k": st.integers(1, 5)}), kmv, n=(60, 120)))
    S.append(Stratum("Jacobi values", d({"a": st.integers(-9, 60), "b": st.integers(-9, 60), "n": st.integers(0, 14 if q else 24), "x": X}), pointwise, n=(400, 4000)))
    S.append(Stratum("Jacobi values, integer exponents", d({"a": st.integers(0, 8).map(lambda k: 10 * k), "b": st.integers(0, 8).map(lambda k: 10 * k),
                                                            "n": st.integers(0, 10), "x": X}), pointwise, n=(300, 2000)))
    S.append(Stratum("recurrence", d({"a": EXPONENT, "b": EXPONENT, "m": st.integers(1, 14 if q else 24), "x": X}), recurrence, n=(400, 4000)))
    A = st.one_of(st.tuples(st.integers(0, 5), st.just(1)), st.tuples(st.integers(-9, 30), st.just(10)))
    S.append(Stratum("logarithmic", d({"a": A, "m": st.integers(1, 8), "float": st.booleans(), "extra": st.integers(0, 2)}), logarithmic, n=(200, 1000)))
    return S
