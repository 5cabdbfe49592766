"""Independent description of the reference cells (written from their documentation), and point generators."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

# name -> (class name, vertices, {dim: [vertex tuples]})
_T = {0: [(0,), (1,), (2,)], 2: [(0, 1, 2)]}
_K = {0: [(0,), (1,), (2,), (3,)], 3: [(0, 1, 2, 3)]}
SIMPLEX = {
    "P": ("Point", [()], {0: [(0,)]}),
    "I": ("UFCInterval", [(0.,), (1.,)], {0: [(0,), (1,)], 1: [(0, 1)]}),
    "dI": ("DefaultLine", [(-1.,), (1.,)], {0: [(0,), (1,)], 1: [(0, 1)]}),
    "T": ("UFCTriangle", [(0., 0.), (1., 0.), (0., 1.)], {**_T, 1: [(1, 2), (0, 2), (0, 1)]}),
    "dT": ("DefaultTriangle", [(-1., -1.), (1., -1.), (-1., 1.)], {**_T, 1: [(1, 2), (2, 0), (0, 1)]}),
    "iT": ("IntrepidTriangle", [(0., 0.), (1., 0.), (0., 1.)], {**_T, 1: [(0, 1), (1, 2), (2, 0)]}),
    "K": ("UFCTetrahedron", [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)],
          {**_K, 1: [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)], 2: [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]}),
    "dK": ("DefaultTetrahedron", [(-1., -1., -1.), (1., -1., -1.), (-1., 1., -1.), (-1., -1., 1.)],
           {**_K, 1: [(1, 2), (2, 0), (0, 1), (0, 3), (1, 3), (2, 3)], 2: [(1, 3, 2), (2, 3, 0), (3, 1, 0), (0, 1, 2)]}),
    "iK": ("IntrepidTetrahedron", [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)],
           {**_K, 1: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)], 2: [(0, 1, 3), (1, 2, 3), (0, 3, 2), (0, 2, 1)]}),
}


# reference cells of the sub-entities of UFC, default and Intrepid simplices, by dimension
SUB = {"": ["P", "I", "T", "K"], "d": ["P", "dI", "dT", "dK"], "i": ["P", "I", "iT", "iK"]}


class Geo:
    """Geometry and topology of a reference cell, independent of the code under test.

    topo: {dim: [vertex tuples]}, dim a tuple for product cells.  factors: list of Geo for product cells."""

    def __init__(self, name):
        self.name = name
        self.flat = name in ("Q", "H")
        if name in SIMPLEX:
            self.cls, v, topo = SIMPLEX[name]
            self.verts = np.array(v, dtype=float).reshape(len(v), -1)
            self.topo = topo
            self.factors = None
            self.dim = max(topo)
            self.sd = self.verts.shape[1]
            self.volume = abs(np.linalg.det(self.verts[1:] - self.verts[0])) / math.factorial(self.sd) if self.sd else 1.0
            return
        names = {"Q": ["I", "I"], "H": ["I", "I", "I"]}.get(name) or split_product(name)
        self.factors = [Geo(n) for n in names]
        prod = list(itertools.product(*[range(len(f.verts)) for f in self.factors]))
        self.verts = np.array([np.concatenate([f.verts[i] for f, i in zip(self.factors, idx)]) for idx in prod])
        num = {idx: k for k, idx in enumerate(prod)}
        self.sd = self.verts.shape[1]
        self.volume = math.prod(f.volume for f in self.factors)
        topo = {}
        self.entity_factors = {}
        for dims in itertools.product(*[sorted_dims(f.topo) for f in self.factors]):
            ents = []
            for es in itertools.product(*[range(len(f.topo[d])) for f, d in zip(self.factors, dims)]):
                ents.append(tuple(num[idx] for idx in itertools.product(
                    *[f.topo[d][e] for f, d, e in zip(self.factors, dims, es)])))
                self.entity_factors[dims, len(ents) - 1] = list(zip(dims, es))
            topo[dims] = ents
        self.dim = tuple(f.dim for f in self.factors)
        self.topo = topo
        if self.flat:
            ftopo, self.unflat = {}, {}
            for dims in sorted(topo):
                for e, vs in enumerate(topo[dims]):
                    l = ftopo.setdefault(sum(dims), [])
                    self.unflat[sum(dims), len(l)] = (dims, e)
                    l.append(vs)
            self.topo = ftopo
            self.dim = len(self.factors)

    def make(self):
        import FIAT.reference_element as R
        if self.name in SIMPLEX:
            return getattr(R, self.cls)()
        if self.name == "Q":
            return R.UFCQuadrilateral()
        if self.name == "H":
            return R.UFCHexahedron()
        return R.TensorProductCell(*[f.make() for f in self.factors])

    # -- entities
    def entities(self, with_cell=True):
        return [(d, e) for d in self.topo for e in range(len(self.topo[d])) if with_cell or d != self.dim]

    def entity_dim(self, d):
        return tsum(d)

    def sub_name(self, d):
        """Reference cell of the entity's own coordinates."""
        if self.name in SIMPLEX:
            return self.name if d == self.dim else SUB[self.name[0] if len(self.name) > 1 else ""][d]
        if self.flat:
            return ["P", "I", "Q", "H"][d]
        return "*".join(paren(f.sub_name(x)) for f, x in zip(self.factors, d))

    def map_entity(self, d, e, x):
        """Image in the cell of point x given in the reference coordinates of entity (d, e)."""
        x = np.asarray(x, dtype=float)
        if self.name in SIMPLEX:
            if d == self.dim:
                return x
            v = self.verts[list(self.topo[d][e])]
            lo, h = (-1., 2.) if self.sub_name(d).startswith("d") else (0., 1.)
            return v[0] + sum(((v[i + 1] - v[0]) * ((x[i] - lo) / h) for i in range(d)), np.zeros(self.sd))
        if self.flat:
            pd, pe = self.unflat[d, e]
            parts = [(q, ee) for q, ee in Geo_product(self).entity_factors[pd, pe]]
        else:
            parts = self.entity_factors[d, e]
        out, pos = [], 0
        for f, (dd, ee) in zip(self.factors, parts):
            k = tsum(dd)
            out.append(f.map_entity(dd, ee, x[pos:pos + k]))
            pos += k
        return np.concatenate(out)

    def normal_outward(self, d, e):
        """Outward unit normal of a facet of a simplex."""
        vs = self.topo[d][e]
        off, = set(range(len(self.verts))) - set(vs)
        V = self.verts
        if self.sd == 1:
            n = V[vs[0]] - V[off]
        elif self.sd == 2:
            t = V[vs[1]] - V[vs[0]]
            n = np.array([t[1], -t[0]])
        else:
            n = np.cross(V[vs[1]] - V[vs[0]], V[vs[2]] - V[vs[0]])
        if n.dot(V[vs[0]] - V[off]) < 0:
            n = -n
        return n / np.linalg.norm(n)

    def measure(self, d, e):
        """Measure of a simplicial entity."""
        v = self.verts[list(self.topo[d][e])]
        if d == 0:
            return 1.0
        B = v[1:] - v[0]
        return math.sqrt(max(0.0, np.linalg.det(B @ B.T))) / math.factorial(d)

    def facet_dim(self):
        if isinstance(self.dim, tuple):
            raise ValueError
        return self.dim - 1


_geo_cache = {}


def geo(name):
    if name not in _geo_cache:
        _geo_cache[name] = Geo(name)
    return _geo_cache[name]


def Geo_product(g):
    return geo("*".join(f.name for f in g.factors))


def paren(n):
    return n if n in SIMPLEX or n in ("Q", "H") else "(%s)" % n


def split_product(name):
    parts, depth, cur = [], 0, ""
    for c in name:
        if c == "*" and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(c, 0)
        cur += c
    parts.append(cur)
    return [p[1:-1] if p.startswith("(") else p for p in parts]


def tsum(d):
    return sum(map(tsum, d)) if isinstance(d, (tuple, list)) else d


def totuple(d):
    return tuple(totuple(x) for x in d) if isinstance(d, (tuple, list)) else d


def sorted_dims(topo):
    return sorted(topo)


# ---------------------------------------------------------------- points
#
# A generated point is a list of integer barycentric weights (one list per simplex factor); its coordinates are computed
# from the vertices in floating point.  Zero weights put it on faces and vertices, negative ones outside the cell.

def factor_names(name):
    if name in SIMPLEX:
        return [name]
    if name == "Q":
        return ["I", "I"]
    if name == "H":
        return ["I", "I", "I"]
    return [x for n in split_product(name) for x in factor_names(n)]


def bary_strategy(nv, outside=True):
    """Weights for one simplex factor with nv vertices: interior / small rational / boundary / exterior."""
    if nv == 1:
        return st.just([1])
    inner = st.lists(st.integers(1, 997), min_size=nv, max_size=nv)
    small = st.lists(st.integers(0, 4), min_size=nv, max_size=nv).filter(lambda w: sum(w) > 0)
    opts = [inner, small, inner]
    if outside:
        opts.append(st.lists(st.integers(-3, 9), min_size=nv, max_size=nv).filter(lambda w: 3 * sum(w) > max(map(abs, w))))
    return st.one_of(*opts)


def point_strategy(name, outside=True):
    nvs = [len(SIMPLEX[f][1]) for f in factor_names(name)]
    return st.tuples(*[bary_strategy(nv, outside) for nv in nvs]).map(list)


def points_strategy(name, min_size=1, max_size=6, outside=True):
    return st.lists(point_strategy(name, outside), min_size=min_size, max_size=max_size)


def coords(name, w):
    out = []
    for f, ww in zip(factor_names(name), w):
        v = np.array(SIMPLEX[f][1], dtype=float).reshape(len(ww), -1)
        s = float(sum(ww))
        out.append(sum((float(a) / s) * x for a, x in zip(ww, v)))
    return np.concatenate(out) if out else np.zeros(0)


def points(name, ws):
    return [tuple(float(c) for c in coords(name, w)) for w in ws]


def point_classes(ws):
    labels = set()
    for w in ws:
        if any(a < 0 for ww in w for a in ww):
            labels.add("outside")
        elif any(a == 0 for ww in w for a in ww):
            labels.add("vertex" if all(sum(1 for a in ww if a) == 1 for ww in w) else "boundary")
        else:
            labels.add("interior")
    return labels


def sample_points(name, n, seed=0, spread=1.0):
    """Deterministic well-spread points in the cell (harness-internal fitting nodes, not test cases)."""
    rng = np.random.RandomState(12345 + seed)
    fs = factor_names(name)
    out = []
    for _ in range(n):
        c = []
        for f in fs:
            v = np.array(SIMPLEX[f][1], dtype=float).reshape(len(SIMPLEX[f][1]), -1)
            lam = rng.dirichlet(np.ones(len(v)) * 0.7)
            c.append(lam @ v)
        out.append(np.concatenate(c))
    return np.array(out).reshape(n, -1)
