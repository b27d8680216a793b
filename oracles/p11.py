"""P11: point sets present the same points in every view."""
from .common import *
from finat.point_set import PointSet, PointSingleton, TensorPointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet, UnknownPointSet, UnknownPointsArray

# point set expressions: nested JSON lists
def build(t, rng):
    k = t[0]
    if k == "set":
        return PointSet(np.array([[rng.uniform(-1, 1) for _ in range(t[2])] for _ in range(t[1])]).reshape(t[1], t[2]))
    if k == "gl":
        return GaussLegendrePointSet(np.array([[rng.random()] for _ in range(t[1])]))
    if k == "gll":
        return GaussLobattoLegendrePointSet(np.array([[rng.random()] for _ in range(t[1])]))
    if k == "one":
        return PointSingleton([rng.random() for _ in range(t[1])])
    if k == "tensor":
        return TensorPointSet([build(x, rng) for x in t[1]])
    if k == "unknown":
        return UnknownPointSet(gem.Variable("rt_:x", (t[1], t[2])))
    raise AssertionError(k)


def rand_tree(rng, depth=2):
    k = rng.choice(["set", "set", "gl", "gll", "one"] + (["tensor"] * 3 if depth else []))
    if k == "set":
        return ["set", rng.randint(1, 4), rng.randint(1, 3)]
    if k in ("gl", "gll"):
        return [k, rng.randint(1, 4)]
    if k == "one":
        return ["one", rng.randint(1, 3)]
    return ["tensor", [rand_tree(rng, depth - 1) for _ in range(rng.randint(1, 3))]]


FIXED = [["set", 3, 2], ["set", 1, 1], ["set", 4, 3], ["gl", 3], ["gll", 4], ["one", 1], ["one", 2], ["one", 3], ["set", 2, 0], ["one", 0], ["tensor", [["set", 2, 1], ["set", 3, 1]]],
         ["tensor", [["gl", 2], ["gll", 3]]], ["tensor", [["set", 3, 2], ["gl", 2]]], ["tensor", [["tensor", [["set", 2, 1], ["set", 3, 1]]], ["set", 2, 2]]], ["tensor", [["set", 2, 1], ["set", 2, 1], ["set", 2, 1]]],
         ["tensor", [["one", 1], ["set", 3, 1]]], ["tensor", [["set", 2, 1], ["one", 2]]], ["tensor", [["set", 2, 1]]]]


def cases(rng, tier):
    for t in FIXED:
        yield "views", {"tree": t, "seed": 1}
        yield "equal", {"tree": t, "seed": 2}
    for _ in range(80 if tier == "quick" else 1500):
        t = rand_tree(rng)
        yield "views", {"tree": t, "seed": rng.randrange(10**6)}
        yield "equal", {"tree": t, "seed": rng.randrange(10**6)}
    for _ in range(40 if tier == "quick" else 600):
        yield "distinct", {"a": rand_tree(rng), "b": rand_tree(rng), "seed": rng.randrange(10**6)}
    for n, d in ((1, 1), (3, 2), (5, 3), (4, 1), (2, 3)):
        yield "unknown", {"n": n, "d": d}
    yield "labels", {}


def spec_points(ps):
    if isinstance(ps, TensorPointSet):
        return np.array([np.concatenate(t) if t else [] for t in itertools.product(*[spec_points(f) for f in ps.factors])])
    if isinstance(ps, PointSingleton):
        return np.asarray(ps.point, dtype=float).reshape(1, -1)
    return np.asarray(ps.points, dtype=float)


def check_views(tree, seed):
    ps = build(tree, sd(seed))
    pts = np.asarray(ps.points, dtype=float)
    want = spec_points(ps)
    close(pts, want, "points")
    require(ps.dimension == want.shape[1], "dimension")
    ex = tuple(i.extent for i in ps.indices)
    require(int(np.prod(ex, dtype=int)) == len(want), f"extents {ex} for {len(want)} points")
    require(len(set(ps.indices)) == len(ps.indices), "indices are distinct")
    require(tuple(ps.indices) == tuple(ps.indices), "indices are stable")
    if want.shape[1]:
        require(tuple(ps.expression.shape) == (want.shape[1],), f"expression shape {ps.expression.shape}")
        require(set(ps.expression.free_indices) == set(ps.indices), "free indices of the expression")
        x = evalgem(ps.expression, ps.indices).reshape(len(want), -1)
        close(x, want, "expression")
    if isinstance(ps, TensorPointSet):
        flat = [i for f in ps.factors for i in f.indices]
        require(list(ps.indices) == flat, "indices in factor order")


def same_structure(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, TensorPointSet):
        return len(a.factors) == len(b.factors) and all(same_structure(x, y) for x, y in zip(a.factors, b.factors))
    return np.asarray(a.points).shape == np.asarray(b.points).shape


def comparable(t):
    return t[0] not in ("one", "unknown") and (t[0] != "tensor" or all(map(comparable, t[1])))


def check_equal(tree, seed):
    if not comparable(tree):
        return
    a, b = build(tree, sd(seed)), build(tree, sd(seed))
    require(a.almost_equal(a) and a.almost_equal(b) and b.almost_equal(a), "reflexive on equal points")
    # perturb one coordinate of one factor
    rng = sd(seed + 1)
    leaves = []
    def walk(p):
        for f in (p.factors if isinstance(p, TensorPointSet) else ()):
            walk(f)
        if isinstance(p, PointSet) and p.points.size:
            leaves.append(p)
    walk(b)
    if not leaves:
        return
    p = rng.choice(leaves)
    i, j = rng.randrange(p.points.shape[0]), rng.randrange(p.points.shape[1])
    for eps, same in ((1e-14, True), (1e-9, False), (1e-3, False), (0.5, False), (-0.5, False)):
        old = p.points[i, j]
        p.points[i, j] += eps
        b.__dict__.pop("points", None) if isinstance(b, TensorPointSet) else None
        r1, r2 = bool(a.almost_equal(b)), bool(b.almost_equal(a))
        require(r1 == r2, "symmetric")
        require(r1 == same, f"points moved by {eps}: almost_equal is {r1}")
        require(bool(a.almost_equal(b, tolerance=1.0)), "the tolerance given is the tolerance used")
        p.points[i, j] = old


def check_distinct(a, b, seed):
    if not (comparable(a) and comparable(b)):
        return
    A, B = build(a, sd(seed)), build(b, sd(seed))
    r1, r2 = bool(A.almost_equal(B)), bool(B.almost_equal(A))
    require(r1 == r2, f"symmetric: {r1} {r2}")
    if r1:
        require(same_structure(A, B), "equal only for the same structure")
        close(spec_points(A), spec_points(B), "equal only for the same points", 1e-11)


def check_unknown(n, d):
    var = gem.Variable("rt_:x", (n, d))
    ps = UnknownPointSet(var)
    require(tuple(ps.points.shape) == (n, d) and len(ps.points) == n, "shape of the unknown points")
    require(isinstance(ps.points, UnknownPointsArray), "placeholder")
    require(ps.dimension == d, "dimension")
    require(tuple(i.extent for i in ps.indices) == (n,), "one index per point")
    val = np.arange(n * d, dtype=float).reshape(n, d) * 1.5 + 1
    x = evalgem(ps.expression, ps.indices, {var: val})
    close(x, val, "expression of the run-time points")
    for bad in (gem.Variable("rt_:x", (n,)), gem.Literal(val)):
        try:
            UnknownPointSet(bad)
        except AssertionError:
            continue
        raise Broken("accepted")


def check_labels():
    for cls in (GaussLegendrePointSet, GaussLobattoLegendrePointSet):
        try:
            cls(np.zeros((3, 2)))
        except AssertionError:
            pass
        else:
            raise Broken("a labelled interval point set must be one-dimensional")
    p = np.array([[0.2], [0.7]])
    require(not GaussLegendrePointSet(p).almost_equal(GaussLobattoLegendrePointSet(p)), "labels are part of the structure")
    require(not PointSet(p).almost_equal(GaussLegendrePointSet(p)) and not GaussLegendrePointSet(p).almost_equal(PointSet(p)), "labels are part of the structure (symmetric)")
