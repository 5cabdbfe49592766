"""P19: results do not depend on call history, batching or the containers points come in."""
import json

import numpy as np
from hypothesis import strategies as st

import catalog
import cells
import fem
import pristine
from checks import p12, p14
from core import Stratum, Violation
from fem import require

RULE = ("Strata: one per catalogued element (together with the elements it is built from), and families of random worlds whose elements, cells, quadrature rules and "
        "polynomial sets are drawn per case from small pools so that cells, parts, families and degrees recur. A case is a history of 2 to 9 operations "
        "(construction, reconstruction, tabulation with drawn order, entity, points, container, pieces and later scribbling over the result, queries of numbering, "
        "closures, supports, nodes, coefficients, Riesz matrices, direct calls, cell geometry, quadrature) on objects sharing cells and parts. Every answer is compared with that of "
        "an object built alone in a new process and asked nothing else; arguments and earlier results must be unchanged at the end. "
        "Non-trivial: some answer is a non-zero table or a list and the history has at least two operations.")
ASSUMPTIONS = ["rounding-level differences (1e-11 of the table's magnitude) between pieces and whole are accepted",
               "returned tables belong to the caller, who may overwrite them; returned dictionaries and lists of the element are only read"]


# ------------------------------------------------------------------ objects and answers (run in forked processes)

class Raised:
    def __init__(self, e):
        self.kind = type(e).__name__


def key(spec):
    return json.dumps(spec, sort_keys=True)


def construct(spec, pool):
    import FIAT
    import FIAT.polynomial_set as P

    def cell(name):
        k = "cell " + name
        if k not in pool:
            pool[k] = cells.geo(name).make()
        return pool[k]
    kind = spec[0]
    if kind == "el":
        k = catalog.key(spec[1])
        e = catalog.build(spec[1], pool)
        if spec[1][0] != "Form":
            pool[k] = e
        return e
    if kind == "cell":
        return cell(spec[1])
    if kind == "rule":
        return FIAT.create_quadrature(cell(spec[1]), cells.totuple(spec[2]), *spec[3:])
    if kind == "set":
        c = cell(spec[1])
        if spec[3] == "sym":
            return P.ONSymTensorPolynomialSet(c, spec[2])
        return P.ONPolynomialSet(c, spec[2], tuple(spec[3]))
    raise KeyError(kind)


def make(spec):
    world = {"pool": {}, "objs": {}}
    for s in spec["eager"]:
        obtain(world, s)
    return world


def obtain(world, spec, again=False):
    k = key(spec)
    if again and spec[0] == "el":
        world["pool"].pop(catalog.key(spec[1]), None)
    if again or k not in world["objs"]:
        try:
            world["objs"][k] = construct(spec, world["pool"])
        except Exception as e:
            world["objs"][k] = Raised(e)
    return world["objs"][k]


def plain(x):
    """Containers and numbers as nested lists."""
    if isinstance(x, dict):
        try:
            items = sorted(x.items())
        except TypeError:
            items = sorted(x.items(), key=lambda i: repr(i[0]))
        return [[plain(k), plain(v)] for k, v in items]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return repr(type(x))


BOXES = ["tuples", "lists", "array", "tuple of arrays", "list of arrays", "tuple of lists", "fortran", "strided", "ints", "int array"]


def box(pts, how):
    """The points in the named containers; integer boxes only where every coordinate is an integer."""
    if how in ("ints", "int array"):
        if not all(float(c).is_integer() for p in pts for c in p):
            how = "lists" if how == "ints" else "array"
        else:
            q = [tuple(int(c) for c in p) for p in pts]
            return q if how == "ints" else np.array(q, dtype=int).reshape(len(pts), -1)
    a = np.array(pts, dtype=float).reshape(len(pts), -1)
    return {"tuples": lambda: [tuple(p) for p in pts], "lists": lambda: [list(p) for p in pts], "array": lambda: a, "tuple of arrays": lambda: tuple(a),
            "list of arrays": lambda: list(a.copy()), "tuple of lists": lambda: tuple(list(p) for p in pts), "fortran": lambda: np.asfortranarray(a),
            "strided": lambda: np.repeat(a, 2, axis=0)[::2]}[how]()


def frozen(x):
    """A value to compare an argument with later."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(y) for y in x])
    if isinstance(x, dict):
        return [(k, frozen(v)) for k, v in x.items()]
    return (type(x).__name__, x)


def tables(e, op, problems, live):
    pts = op["pts"]
    cuts = [0] + sorted(op.get("cuts") or []) + [len(pts)]
    parts = []
    for a, b in zip(cuts, cuts[1:]):
        if a == b:
            continue
        arg = box(pts[a:b], op.get("box", "tuples"))
        before = frozen(arg)
        ent = op.get("ent")
        t = e.tabulate(op["n"], arg) if ent is None else e.tabulate(op["n"], arg, (cells.totuple(ent[0]), ent[1]))
        if frozen(arg) != before:
            problems.append("tabulate changed the points it was given (%s)" % op.get("box"))
        live.append(t)
        parts.append({k: np.asarray(v, dtype=float).copy() for k, v in t.items()})
    for p in parts[1:]:
        if set(p) != set(parts[0]):
            problems.append("different tables for different pieces")
            return parts[0]
    return {k: np.concatenate([p[k] for p in parts], axis=-1) for k in parts[0]}


def call_nodes(e):
    vs = tuple(e.value_shape())

    def f(x):
        x = [float(c) for c in x]
        s = sum((i + 1) * c for i, c in enumerate(x)) + sum(c * c for c in x) / 3 + 0.25
        if not vs:
            return s
        return (np.arange(1, 1 + int(np.prod(vs))) * s).reshape(vs)
    out = []
    for n in e.dual_basis():
        try:
            out.append(plain(np.asarray(n(f), dtype=float).tolist()))
        except Exception as ex:
            out.append("raises " + type(ex).__name__)
    return out


def terms(d):
    """Points and weights of a node's dictionary as arrays, its derivative indices and components as text, in order."""
    if not d:
        return []
    num, txt = [], []
    for pt, ws in d.items():
        num.extend(pt)
        for w in ws:
            num.append(w[0])
            txt.append(w[1:])
    return [np.array(num, dtype=float), str(txt)]


def nodes(e):
    return [None if n is None else [n.get_type_tag(), terms(n.get_point_dict()), terms(n.deriv_dict), str(tuple(n.target_shape))] for n in e.dual_basis()]


def facts(e):
    out = []
    for m in ("entity_dofs", "entity_closure_dofs", "mapping", "value_shape", "space_dimension", "degree", "get_order", "get_formdegree", "is_nodal", "num_sub_elements"):
        try:
            out.append([m, plain(getattr(e, m)())])
        except Exception as ex:
            out.append([m, "raises " + type(ex).__name__])
    return out


def cell_facts(c):
    out = [plain(c.get_vertices()), plain(c.get_topology()), plain(c.connectivity), plain(c.sub_entities), plain(c.get_dimension()), plain(c.get_spatial_dimension()), plain(float(c.volume()))]
    return out


def run(x, op, problems, live):
    """Answer of object x to one operation, as plain data."""
    k = op["k"]
    if isinstance(x, Raised):
        return "construction raises " + x.kind
    try:
        if k == "tab":
            if hasattr(x, "expansion_set") or not hasattr(x, "space_dimension"):       # polynomial set
                arg = box(op["pts"], op.get("box", "tuples"))
                before = frozen(arg)
                t = x.tabulate(arg, op["n"])
                if frozen(arg) != before:
                    problems.append("tabulate changed the points it was given")
                live.append(t)
                return {a: np.asarray(v, dtype=float).copy() for a, v in t.items()}
            return tables(x, op, problems, live)
        if k == "facts":
            return facts(x)
        if k == "support":
            from FIAT.finite_element import entity_support_dofs
            r = entity_support_dofs(x, cells.totuple(op["d"]))
            live.append(r)
            return plain(r)
        if k == "nodes":
            return nodes(x)
        if k == "calls":
            return call_nodes(x)
        if k == "coeffs":
            r = x.get_coeffs()
            live.append(r)
            return np.array(r, dtype=float)
        if k == "basis":
            r = x.get_nodal_basis().tabulate(box(op["pts"], op.get("box", "tuples")), op["n"])
            live.append(r)
            return {a: np.asarray(v, dtype=float).copy() for a, v in r.items()}
        if k == "riesz":
            r = x.get_dual_set().to_riesz(x.get_nodal_basis())
            live.append(r)
            return np.array(r, dtype=float)
        if k == "on riesz":
            import FIAT.polynomial_set as P
            vs = tuple(x.value_shape())
            U = P.ONPolynomialSet(x.get_reference_element(), x.degree() + op["more"], vs)
            r = x.get_dual_set().to_riesz(U)
            live.append(r)
            return np.array(r, dtype=float)
        if k == "cell":
            return cell_facts(x)
        if k == "lattice":
            r = x.make_points(op["d"], op["e"], op["m"])
            live.append(r)
            return plain(r)
        if k == "normal":
            return [plain(np.asarray(getattr(x, m)(op["e"]), dtype=float)) for m in ("compute_normal", "compute_scaled_normal", "compute_reference_normal_", "compute_edge_tangent")
                    if hasattr(x, m)]
        if k == "map":
            arg = np.array(op["x"], dtype=float)
            before = arg.copy()
            r = x.get_entity_transform(cells.totuple(op["d"]), op["e"])(arg)
            if not np.array_equal(arg, before):
                problems.append("the entity transform changed its argument")
            return plain(np.asarray(r, dtype=float))
        if k == "rule":
            r = [x.get_points(), x.get_weights()]
            live.append(r)
            return [np.array(r[0], dtype=float), np.array(r[1], dtype=float)]
        if k == "integrate":
            arg = list(op["a"])
            return float(x.integrate(lambda p: sum(c * t for c, t in zip(arg, p)) + 1.0))
        if k == "take":
            idx = list(op["i"])
            r = x.take(idx).get_coeffs()
            if idx != list(op["i"]):
                problems.append("take() changed its index list")
            live.append(r)
            return np.array(r, dtype=float)
        if k == "set":
            live.append(x.get_coeffs())
            return [np.array(x.get_coeffs(), dtype=float), plain(x.get_num_members()), plain(x.get_degree()), plain(x.get_embedded_degree())]
        if k == "union":
            import FIAT.polynomial_set as P
            a, b = x.take(list(op["i"])), x.take(list(op["j"]))
            ca, cb = a.get_coeffs().copy(), b.get_coeffs().copy()
            r = P.polynomial_set_union_normalized(a, b).get_coeffs()
            if not (np.array_equal(ca, a.get_coeffs()) and np.array_equal(cb, b.get_coeffs())):
                problems.append("the union changed its operands")
            live.append(r)
            r = np.array(r, dtype=float)
            r = r.reshape(len(r), -1)
            return r.T @ r         # the projection onto the span
    except Exception as e:
        return "raises " + type(e).__name__
    raise KeyError(k)


def contents(x):
    if isinstance(x, np.ndarray):
        return x.copy() if x.dtype != object else plain(x)
    if isinstance(x, dict):
        return {k: contents(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [contents(v) for v in x]
    return x


def scribble(x):
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x.fill(-7)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)


def ask(world, query):
    """Run a history; [answers], [problems]."""
    out, problems, kept = [], [], []
    for op in query:
        x = obtain(world, op["on"], op.get("again", False))
        live = []
        out.append(run(x, op, problems, live))
        if op["k"] == "tab" and op.get("scribble"):
            scribble(live)
        else:
            kept += [(op["k"], r, contents(r)) for r in live]
    for k, r, c in kept:
        try:
            same(contents(r), c, 0.0, "")
        except Violation as v:
            problems.append("a result of '%s' returned earlier was changed by later operations: %s" % (k, v))
    return out, problems


# ------------------------------------------------------------------ comparison

def same(a, b, tol, what):
    if isinstance(b, np.ndarray):
        require(isinstance(a, np.ndarray) and a.shape == b.shape, "%s: shape %s instead of %s", what, getattr(a, "shape", type(a)), b.shape)
        with np.errstate(all="ignore"):
            s = np.nanmax(np.abs(b)) if b.size and not np.isnan(b).all() else 0.0
            ok = (np.abs(a - b) <= tol * max(1.0, s)) | (np.isnan(a) & np.isnan(b)) | (a == b)
        if not ok.all():
            i = tuple(int(t) for t in np.argwhere(~ok)[0])
            raise Violation("%s: %.15g instead of %.15g at index %s" % (what, a[i], b[i], i))
        return
    if isinstance(b, dict):
        require(isinstance(a, dict) and set(a) == set(b), "%s: %s instead of %s", what, sorted(map(str, a)) if isinstance(a, dict) else a, sorted(map(str, b)))
        for k in b:
            same(a[k], b[k], tol, "%s %s" % (what, k))
        return
    if isinstance(b, list):
        require(isinstance(a, list) and len(a) == len(b), "%s: %s instead of %s", what, str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, tol, what)
        return
    if isinstance(b, float) and isinstance(a, float):
        require(a == b or abs(a - b) <= tol * max(1.0, abs(b)) or (a != a and b != b), "%s: %.15g instead of %.15g", what, a, b)
        return
    require(a == b and type(a) == type(b), "%s: %s instead of %s", what, a, b)


def bare(op):
    """The operation as asked of a new object: plain containers, in one piece."""
    return {k: v for k, v in op.items() if k not in ("box", "cuts", "scribble", "again", "echo")}


def echoes(ops):
    """The history with some tabulations asked again at the same points: at once, at the end, with another order or entity, or of another element on the same cell."""
    out, late = [], []
    for op in ops:
        out.append(op)
        how = op.get("echo")
        if not how:
            continue
        new = dict(op, scribble=False, again=False, echo=None)
        if how == "order":
            new["n"] = (op["n"] + 1) % 3
        elif how == "entity":
            if op["ent"] is None:
                continue
            d, e = op["ent"]
            new["ent"] = [d, (e + 1) % len(cells.geo(catalog.cell_of(op["on"][1])).topo[cells.totuple(d)])]
        elif how == "other":
            c = catalog.cell_of(op["on"][1])
            more = [o for o in ops if o["k"] == "tab" and o["on"][0] == "el" and o["on"] != op["on"] and catalog.cell_of(o["on"][1]) == c
                    and o["on"][1][0] not in ("HDivTrace", "Quadrature")]
            if not more:
                continue
            new["on"] = more[0]["on"]
        (late if how in ("later", "order") else out).append(new)
    return out + late


class Check:
    def __init__(self, eager=(), alone=()):
        self.eager = [list(s) for s in eager]
        self.alone = [list(s) for s in alone]
        self.server = None

    def start(self):
        if self.server is None:
            pre = [{"eager": self.eager}] * bool(self.eager) + [{"eager": [s]} for s in self.alone if [s] != self.eager]
            self.server = pristine.Server(make, ask, pre)

    def __call__(self, case):
        self.start()
        ops = echoes([concrete(op) for op in case["ops"]])
        # everything touched is looked at once more at the end
        final = []
        for s in {key(op["on"]): op["on"] for op in ops}.values():
            final += closing(s)
        ops = ops + final
        (got, problems), = self.server.answers({"eager": self.eager}, [ops])
        by = {}
        for i, op in enumerate(ops):
            by.setdefault(key(op["on"]), []).append(i)
        lab = set()
        rich = False
        for ix in by.values():
            want = self.server.answers({"eager": [ops[ix[0]]["on"]]}, [[bare(ops[i])] for i in ix])
            for i, (w, _) in zip(ix, want):
                what = "operation %d of the history, '%s' on %s" % (i, ops[i]["k"], label(ops[i]["on"]))
                same(got[i], w[0], 1e-11, what)
                if i < len(ops) - len(final):
                    lab.add(ops[i]["k"] if not (isinstance(w[0], str) and "raises" in w[0]) else ops[i]["k"] + " refused")
                    if ops[i].get("cuts"):
                        lab.add("in pieces")
                    if ops[i].get("box"):
                        lab.add("box " + ops[i]["box"])
                    rich = rich or (isinstance(w[0], dict) and any(np.abs(t).max() > 0 for t in w[0].values() if t.size)) or (isinstance(w[0], list) and len(w[0]) > 0)
        require(not problems, "%s", "; ".join(problems[:3]))
        return lab if rich and len(case["ops"]) > 1 else None


def label(spec):
    return catalog.label(spec[1]) if spec[0] == "el" else " ".join(map(str, spec))


def concrete(op):
    """Weights of generated points turned into coordinates."""
    op = dict(op)
    if "w" in op:
        op["pts"] = [list(p) for p in cells.points(op.pop("at"), op.pop("w"))]
    return op


def closing(spec):
    if spec[0] == "el":
        c = spec[1]
        cell = catalog.cell_of(c)
        pts = [list(map(float, p)) for p in cells.sample_points(cell, 2)]
        out = [{"on": spec, "k": "facts"}, {"on": spec, "k": "nodes"}]
        if c[0] not in ("HDivTrace", "Quadrature"):
            # the same question twice, with the caller overwriting the first answer
            out += [{"on": spec, "k": "tab", "n": 1, "pts": pts, "scribble": True}, {"on": spec, "k": "tab", "n": 1, "pts": pts}]
        return out
    return {"cell": [{"on": spec, "k": "cell"}], "rule": [{"on": spec, "k": "rule"}], "set": [{"on": spec, "k": "set"}]}[spec[0]]


# ------------------------------------------------------------------ histories

def tab_op(spec, cell, ents=None, order=2, cuts=True, whole=True):
    g = cells.geo(cell)
    cheap = fem.cost(spec[1]) < 1.5
    ents = ents or g.entities()

    def of(i):
        d, e = ents[i]
        sub = g.sub_name(d)
        full = whole and cells.tsum(d) == g.sd
        small = cells.geo(sub).verts
        corner = st.tuples(*[st.sampled_from([[int(j == i) for j in range(len(cells.SIMPLEX[f][1]))] for i in range(len(cells.SIMPLEX[f][1]))])
                             for f in cells.factor_names(sub)]).map(list)
        # corners only (integer coordinates), or points of all kinds
        pts = st.one_of(cells.points_strategy(sub, 1, 5), st.lists(corner, min_size=1, max_size=4)) if len(small) else cells.points_strategy(sub, 1, 5)

        def rest(w):
            d2 = {"on": st.just(spec), "k": st.just("tab"), "n": st.integers(0, order), "w": st.just(w), "at": st.just(sub), "box": st.sampled_from(BOXES),
                  "scribble": st.booleans(), "again": st.sampled_from([False, False, False, True]) if cheap else st.just(False)}
            d2["ent"] = st.one_of(st.just([d, e]), st.none()) if full else st.just([d, e])
            special = spec[1][0] in ("HDivTrace", "Quadrature")
            d2["echo"] = st.sampled_from([None, None, None, "at once", "later"] + ([] if special else ["order", "entity", "other"]))
            d2["cuts"] = st.lists(st.integers(1, max(1, len(w) - 1)), max_size=3) if cuts and len(w) > 1 else st.just([])
            return st.fixed_dictionaries(d2)
        return pts.flatmap(rest)
    return st.integers(0, len(ents) - 1).flatmap(of)


def element_op(c):
    cell = catalog.cell_of(c)
    g = cells.geo(cell)
    spec = ["el", c]
    fixed = lambda **k: st.fixed_dictionaries({"on": st.just(spec), **{a: (b if hasattr(b, "filter") else st.just(b)) for a, b in k.items()}})
    simple = [fixed(k="facts"), fixed(k="nodes"), fixed(k="calls"), fixed(k="coeffs"),
              fixed(k="support", d=st.sampled_from(sorted(g.topo)))]
    if fem.cost(c) < 3:
        simple += [fixed(k="riesz"), fixed(k="on riesz", more=st.integers(0, 1 if g.sd < 3 else 0))]
    if c[0] == "HDivTrace":
        f = [(d, e) for d, e in g.entities() if cells.tsum(d) == g.sd - 1]
        return st.one_of(tab_op(spec, cell, f, 1), tab_op(spec, cell, f, 0), tab_op(spec, cell, None, 0, cuts=False), fixed(k="facts"), fixed(k="nodes"))
    if c[0] == "Quadrature":
        return st.one_of(fixed(k="facts"), fixed(k="nodes"), fixed(k="calls"), tab_op(spec, cell, None, 0, cuts=False))
    t = tab_op(spec, cell)
    more = simple + ([fixed(k="basis", n=st.integers(0, 1), w=cells.points_strategy(cell, 1, 3), at=cell, box=st.sampled_from(BOXES))] if "*" not in cell else [])
    return st.one_of(t, t, t, st.one_of(*more))


def cell_op(name):
    g = cells.geo(name)
    spec = ["cell", name]
    fixed = lambda **k: st.fixed_dictionaries({"on": st.just(spec), **{a: (b if hasattr(b, "filter") else st.just(b)) for a, b in k.items()}})
    ents = g.entities()
    m = st.integers(0, len(ents) - 1).flatmap(lambda i: fixed(k="map", d=ents[i][0], e=ents[i][1], x=st.lists(
        st.sampled_from([0.0, 0.25, 0.5, 1.0]), min_size=cells.tsum(ents[i][0]), max_size=cells.tsum(ents[i][0]))))
    out = [fixed(k="cell"), m]
    if name in cells.SIMPLEX:
        out.append(st.integers(0, len(ents) - 1).flatmap(lambda i: fixed(k="lattice", d=ents[i][0], e=ents[i][1], m=st.integers(1, 6))))
        out.append(fixed(k="normal", e=st.integers(0, len(g.topo[max(1, g.sd - 1)]) - 1)))
    return st.one_of(*out)


def rule_op(name):
    deg = st.integers(0, 8)
    scheme = st.sampled_from([[], ["default"], ["canonical"], ["KMV"]]) if name in ("T", "K") else st.just([])
    deg = st.one_of(deg, st.integers(1, 3)) if name in ("T", "K") else deg
    spec = st.tuples(deg, scheme).map(lambda t: ["rule", name, t[0]] + t[1])
    return spec.flatmap(lambda s: st.one_of(st.fixed_dictionaries({"on": st.just(s), "k": st.just("rule"), "again": st.booleans()}),
                                            st.fixed_dictionaries({"on": st.just(s), "k": st.just("integrate"), "a": st.lists(st.integers(-3, 3), min_size=1, max_size=3)})))


def set_op(name):
    d = catalog.sd[name]
    spec = st.tuples(st.integers(0, 3 if d < 3 else 2), st.sampled_from([[], [d], "sym"] if d > 1 else [[], [1]])).map(lambda t: ["set", name, t[0], t[1]])

    def ops(s):
        import math
        n = math.comb(s[2] + d, d) * (1 if s[3] == [] else d * (d + 1) // 2 if s[3] == "sym" else s[3][0])
        idx = st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)
        on = {"on": st.just(s), "again": st.booleans()}
        return st.one_of(st.fixed_dictionaries({**on, "k": st.just("tab"), "n": st.integers(0, 2), "w": cells.points_strategy(name, 1, 4), "at": st.just(name),
                                                "box": st.sampled_from(BOXES), "scribble": st.booleans()}),
                         st.fixed_dictionaries({**on, "k": st.just("take"), "i": idx}), st.fixed_dictionaries({**on, "k": st.just("union"), "i": idx, "j": idx}),
                         st.fixed_dictionaries({**on, "k": st.just("set")}))
    return spec.flatmap(ops)


def parts(c):
    """The configuration and the configurations it is built from."""
    yield c
    for x in c[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            yield from parts(x)


def history(c):
    subs = list({catalog.key(p): p for p in parts(c)}.values())
    one = element_op(c)
    if len(subs) > 1:
        one = st.one_of(one, one, st.sampled_from(subs[1:]).flatmap(element_op))
    cell = catalog.cell_of(c)
    opts = [one] * 6 + [cell_op(cell)]
    if cell in cells.SIMPLEX:
        opts += [rule_op(cell)]
    return st.lists(st.one_of(*opts), min_size=2, max_size=8).map(lambda l: {"ops": l})


def colliding(dim):
    """Elements of one dimension whose cells, families, degrees and variants recur."""
    cs = {1: ["I", "dI"], 2: ["T", "dT", "iT"], 3: ["K", "dK", "iK"]}[dim]
    cell = st.sampled_from(cs)
    top = {1: 4, 2: 3, 3: 2}[dim]
    opts = [st.tuples(st.sampled_from(["Lagrange", "Bernstein"]), cell, st.integers(1, top)), st.tuples(st.sampled_from(["DG", "DTaylor"]), cell, st.integers(0, top - 1)),
            st.tuples(st.just("P0"), cell)]
    if dim == 1:
        opts += [st.tuples(st.sampled_from(["GL", "GR", "GLL"]), cell, st.integers(1, top)), st.tuples(st.just("Hermite"), cell, st.just(3))]
    else:
        opts += [st.tuples(st.sampled_from(["RT", "BDM", "N1", "N2"]), cell, st.integers(1, 2 if dim == 2 else 1), st.sampled_from(["point", "integral", "integral(4)"])),
                 st.tuples(st.sampled_from(["RT", "BDM", "N1", "N2"]), cell, st.integers(1, 2 if dim == 2 else 1), st.sampled_from(["point", "integral"])),
                 st.tuples(st.just("CR"), cell, st.just(1)), st.tuples(st.just("Bubble"), cell, st.just(dim + 1)), st.tuples(st.just("Regge"), cell, st.integers(0, 1)),
                 st.tuples(st.just("Quadrature"), cell, st.integers(1, 3))]
        if dim == 2:
            opts += [st.tuples(st.just("HHJ"), cell, st.integers(0, 1)), st.tuples(st.just("HDivTrace"), st.sampled_from(["T"]), st.integers(0, 2)),
                     st.tuples(st.just("KMV"), st.just("T"), st.integers(1, 2)), st.tuples(st.sampled_from(["S"]), st.just("Q"), st.integers(1, 3)),
                     st.tuples(st.just("DPC"), st.just("Q"), st.integers(0, 2))]
    base = st.one_of(*opts).map(list)

    def derived(l):
        out = list(l)
        for c in l:
            cell = catalog.cell_of(c)
            if c[0] not in ("HDivTrace", "Quadrature"):
                out.append(["Broken", c])
                out.append(["Mixed", c, c])
                if c[0] not in ("Bernstein", "S", "DPC"):
                    out.append(["RestrIdx", c, [0]])
                    out.append(["Restr", c, "facet"])       # may be refused
            for d in l:
                if catalog.cell_of(d) == cell and d is not c and "Quadrature" not in (c[0], d[0]) and "HDivTrace" not in (c[0], d[0]):
                    out.append(["Mixed", c, d])
        return out
    return st.lists(base, min_size=1, max_size=3).map(derived)


def products(kind):
    L = st.sampled_from([["Lagrange", "I", 1], ["Lagrange", "I", 2], ["DG", "I", 0], ["DG", "I", 1], ["GLL", "I", 2], ["GL", "I", 1], ["Lagrange", "dI", 1], ["DG", "dI", 0]])
    if kind == "lines":
        t = st.tuples(st.just("TPE"), L, L).map(list)
    else:
        A = st.sampled_from([["Lagrange", "T", 1], ["DG", "T", 0], ["RT", "T", 1, "point"], ["N1", "T", 1, "point"], ["BDM", "T", 1, "integral"], ["RT", "dT", 1, "integral"],
                             ["N2", "T", 1, "point"], ["DG", "T", 1]])
        t = st.tuples(st.just("TPE"), A, L).map(list)

    def derived(l):
        out = []
        for c in l:
            out += [c, ["Hdiv", c], ["Hcurl", c], ["Broken", c], c[1], c[2]]
            if catalog.cell_of(c) == "I*I":
                out += [["Flat", c], ["Flat", ["Hdiv", c]]]
        return out
    return st.lists(t, min_size=1, max_size=3).map(derived)


def world(configs, extra):
    return configs.flatmap(lambda l: st.lists(st.one_of(st.sampled_from(l).flatmap(element_op), st.sampled_from(l).flatmap(element_op), *extra), min_size=2, max_size=9)).map(
        lambda l: {"ops": l})


def middling(configs):
    """Of the simple elements of one family, cell and variant, those of the lowest and the highest degree; all others."""
    groups, keep = {}, set()
    for c in configs:
        if c[0] in catalog.SIMPLE and len(c) > 2 and isinstance(c[2], int):
            groups.setdefault((c[0], c[1], str(c[3:])[:12]), []).append(c)
        else:
            keep.add(catalog.key(c))
    for g in groups.values():
        g.sort(key=lambda c: c[2])
        keep |= {catalog.key(c) for c in g[:1] + g[-1:]}
    return keep


def strata(tier):
    out = []
    seen = set()
    trace = [["HDivTrace", c, k] for c in ("T", "K", "Q") for k in (0, 1, 2)] + [["HDivTrace", "T*I", [1, 2]], ["HDivTrace", "I*I", [2, 0]]]
    quad = [["Quadrature", c, k] for c in ("I", "T", "K", "dT") for k in (1, 3)]
    tall = [catalog.key(c) for c in catalog.tall(tier)]        # slow, and no different here
    everything = [c for c in catalog.basic(tier) if catalog.key(c) not in tall] + catalog.products(tier) + catalog.composites(tier) + trace + quad
    chosen = middling(everything)
    for c in everything:
        k = catalog.key(c)
        if k in seen:
            continue
        seen.add(k)
        if tier == "quick" and (fem.cost(c) > 40 or k not in chosen):
            continue
        chk = Check([["el", c]], [["el", p] for p in parts(c)])
        out.append(Stratum(catalog.label(c), lambda c=c, chk=chk: (chk.start(), history(c))[1], chk, n=(6, 60), cost=2 * fem.cost(c)))
    for name, conf, extra in [
            ("I", colliding(1), ["I", "dI"]), ("T", colliding(2), ["T", "dT", "iT"]), ("K", colliding(3), ["K", "dK", "iK"]), ("lines", products("lines"), ["I*I", "I"]),
            ("prisms", products("prisms"), ["T*I", "T"])]:
        cs = st.sampled_from(extra)
        ex = [cs.flatmap(cell_op)]
        simp = [c for c in extra if c in cells.SIMPLEX]
        ex += [st.sampled_from(simp).flatmap(rule_op), st.sampled_from(simp).flatmap(set_op)]
        for j in range(4):
            chk = Check()
            out.append(Stratum("world %s %d" % (name, j), lambda conf=conf, ex=ex, chk=chk: (chk.start(), world(conf, ex))[1], chk, n=(15 if name == "K" else 30, 400),
                               cost=30.0))
    for c in cells.SIMPLEX:
        if c == "P":
            continue
        chk = Check()
        out.append(Stratum("sets and rules " + c, lambda c=c, chk=chk: (chk.start(), st.lists(st.one_of(cell_op(c), rule_op(c), set_op(c), set_op(c)), min_size=2, max_size=9).map(
            lambda l: {"ops": l}))[1], chk, n=(30, 300), cost=3.0))
    return out

