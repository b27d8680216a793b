"""P21: run-time tabulated and quadrature elements are well-defined."""
import itertools
from .common import *
from finat.point_set import PointSet, PointSingleton, GaussLegendrePointSet, TensorPointSet, UnknownPointSet
from finat.quadrature import make_quadrature, QuadratureRule, TensorProductQuadratureRule

META = {"bounds": "names compared pairwise over the listed parameter values and random ones; cells I, T, K, products and flattened products; schemes default, canonical and KMV; degrees 0 to 8"}
I, T, K = (FIAT.ufc_simplex(d) for d in (1, 2, 3))
CELLS = {"I": I, "T": T, "K": K, "quad": NS["quad"], "hexa": NS["hexa"], "I*I": TensorProductCell(I, I), "T*I": TensorProductCell(T, I), "I*I*I": TensorProductCell(I, I, I), "quad*I": TensorProductCell(NS["quad"], I)}
VARIANTS = ["equispaced", "spectral", "a", "a_1", "a_1_2", "", "1", "a_", "_", "1_1", "x_2_3_4_c", "x_1_0_0_c_", "x_1_0_0_c_p", "rt", "é"]


def cases(rng, tier):
    for n in range(6 if tier == "quick" else 40):
        yield "names", {"seed": rng.randrange(10**6), "wide": n}
    yield "names", {"seed": 0, "wide": -1}
    for npts in (1, 3):
        for deg in (0, 1, 2, 5, 11):
            for order in (0, 1, 2, 3):
                yield "tables", {"degree": deg, "order": order, "npts": npts}
    yield "reject", {}
    top = 9 if tier == "quick" else 14
    for cn in CELLS:
        for deg in range(0, top if cn in ("I", "T", "quad", "I*I") else 5):
            for scheme in ("default", "canonical", "KMV") if cn in ("I", "T", "K") else ("default",):
                yield "quad", {"cell": cn, "degree": deg, "scheme": scheme, "seed": rng.randrange(10**6)}
    for d in (1, 2, 3):
        for n in (1, 2, 5):
            yield "literal", {"dim": d, "n": n, "seed": rng.randrange(10**6)}
    yield "runtime_points", {}


def params(rng, wide):
    deg = [0, 1, 2, 10, 11, 12, 1, 21, 101]
    if wide == -1:
        return list(itertools.product(VARIANTS, deg[:6], [0, 1, 2, 11], [None, "+", "-"], [True, False]))
    word = lambda: "".join(rng.choice("a1_cdpm0+-{}%. ") for _ in range(rng.randrange(7)))
    return [(rng.choice([word(), rng.choice(VARIANTS)]), rng.choice(deg), rng.choice([0, 1, 2, 10, 11, 12, 13, 121]), rng.choice([None, "+", "-"]), rng.choice([True, False])) for _ in range(150 if wide != 1 else 25)] + [("v", 2, s, None, True) for s in range(14)]


def check_names(seed, wide):
    seen = {}
    for v, k, s, r, c in params(sd(seed), wide):
        e = finat.RuntimeTabulated(I, k, variant=v, shift_axes=s, restriction=r, continuous=c)
        ps = PointSet(np.array([[0.25], [0.5]]))
        # orders above nine and ninety-nine, whose digits could run into those of the neighbouring fields
        res = e.basis_evaluation({-1: 2, 0: 11, 1: 113}.get(wide, 2), ps)
        for a, t in res.items():
            var, = [n for n in nodes(t) if isinstance(n, gem.Variable)]
            key = (v, k, s, r, c, a)
            require(seen.setdefault(var.name, key) == key, f"{key} and {seen[var.name]} share the table {var.name!r}")
            require(var.shape == (2, k + 1), f"table shape {var.shape}")


def nodes(e):
    from gem.node import traversal
    return list(traversal([e]))


def check_tables(degree, order, npts):
    e = finat.RuntimeTabulated(I, degree, variant="v")
    grid = np.linspace(0, 1, npts + 2)[1:-1, None]
    two = TensorPointSet([PointSet(np.array([[0.25], [0.5]])), PointSet(grid)])
    for ps in (PointSet(grid), GaussLegendrePointSet(grid), UnknownPointSet(gem.Variable("rtX", (npts, 1))), PointSingleton([0.25]), two):
        extents = tuple(i.extent for i in ps.indices)
        res = e.basis_evaluation(order, ps)
        require(sorted(res) == [(a,) for a in range(order + 1)], f"derivatives {sorted(res)}")
        for a, t in res.items():
            require(tuple(t.shape) == (degree + 1,) and set(t.free_indices) == set(ps.indices), f"table {a}: shape {t.shape}, free {t.free_indices}")
            var, = [n for n in nodes(t) if isinstance(n, gem.Variable)]
            data = np.random.RandomState(1).rand(*var.shape)
            require(var.shape == extents + (degree + 1,), f"variable shape {var.shape} at points with extents {extents}")
            close(evalgem(t, ps.indices, {var: data}), data, "a run-time table is read transposed")
    require(e.space_dimension() == degree + 1 and e.index_shape == (degree + 1,) and e.value_shape == () and e.cell == I, "metadata")
    for c, f in ((True, 0), (False, 1)):
        require(finat.RuntimeTabulated(I, degree, variant="v", continuous=c).formdegree == f, "form degree")
    require(e.mapping == "affine" and e.degree == degree, "mapping or degree")


def check_reject():
    for c in ("T", "K", "quad", "I*I"):
        rejects((NotImplementedError,), lambda: finat.RuntimeTabulated(CELLS[c], 1, variant="v"), f"cell {c}")
    for kw in (dict(variant=None), dict(variant="v", shift_axes=-1), dict(variant="v", restriction="x"), dict(variant="v", continuous=1)):
        rejects((AssertionError, ValueError, TypeError), lambda: finat.RuntimeTabulated(I, 1, **kw), str(kw))
    e = finat.RuntimeTabulated(I, 1, variant="v")
    rejects((NotImplementedError,), e.entity_dofs, "entity dofs")
    rejects((NotImplementedError,), lambda: e.point_evaluation(0, gem.Literal([0.5])), "point evaluation")


def rejects(kinds, f, what):
    try:
        f()
    except kinds:
        return
    raise Broken(what + " is not rejected")


def quad_checks(e, rule, cell, rng):
    pts = rule.point_set.points
    n = len(pts)
    require(e.space_dimension() == n and int(np.prod(e.index_shape, dtype=int)) == n, f"{e.space_dimension()} basis functions for {n} points")
    require(e.value_shape == () and e.cell == cell, "value shape or cell")
    d = cell.get_spatial_dimension()
    for ent in (None, (cell.get_dimension(), 0)):
        t = tabulate(e, 0, rule.point_set, ent)
        require(list(t) == [(0,) * d], f"derivatives {list(t)}")
        close(t[(0,) * d], np.eye(n), "values at the own points")
    ed = e.entity_dofs()
    require({k: set(v) for k, v in ed.items()} == {k: set(v) for k, v in cell.get_topology().items()}, "entities")
    require(list(ed[cell.get_dimension()][0]) == list(range(n)) and len(flat_dofs(ed)) == n, "degrees of freedom are not on the interior")
    for order in (1, 2):
        rejects((ValueError, NotImplementedError), lambda: e.basis_evaluation(order, rule.point_set), f"derivative order {order}")
    for ent in [x for x in cell_entities(cell) if x != (cell.get_dimension(), 0)]:
        rejects((ValueError, NotImplementedError), lambda: e.basis_evaluation(0, rule.point_set, ent), f"tabulation on {ent}")
    # other points: not the own ones in number, place or order
    others = [pts + 1e-3, np.vstack([pts, pts[:1] * 0.5]), pts[:-1]]
    if n > 1:
        j = rng.randrange(n)
        k = (j + 1) % n
        q = pts.copy()
        q[[j, k]] = q[[k, j]]
        others.append(q)
        q = pts.copy()
        q[j] += 1e-2
        others.append(q)
    for o in others:
        if len(o):
            rejects((ValueError,), lambda: e.basis_evaluation(0, PointSet(o)), "tabulation at other points")
    rejects((NotImplementedError,), lambda: e.point_evaluation(0, gem.Literal(pts[0])), "point evaluation")
    Q, x = e.dual_basis
    close(x.points, pts, "dual points")
    require(len(Q.shape) == len(e.index_shape), "dual matrix shape")
    close(evalgem(Q, x.indices).reshape(n, n), np.eye(n), "dual matrix")
    f = e.fiat_equivalent
    close(f.space_dimension(), n, "FIAT dimension")
    w = evalgem(rule.weight_expression, rule.point_set.indices).reshape(-1)
    require(len(w) == n, "weights")
    close(f._weights if hasattr(f, "_weights") else w, w, "weights of the FIAT element")
    close([list(l.get_point_dict())[0] for l in f.dual_basis()], pts, "points of the FIAT element")
    require(e.mapping == "affine" and e.formdegree is None, "metadata")


def check_quad(cell, degree, scheme, seed):
    c = CELLS[cell]
    try:
        rule = make_quadrature(c, degree, scheme)
    except Exception:
        rejects((Exception,), lambda: finat.make_quadrature_element(c, degree, scheme), "the scheme is not offered")
        return
    e = finat.make_quadrature_element(c, degree, scheme)
    close(e._rule.point_set.points, rule.point_set.points, "the points are not those of the scheme")
    close(evalgem(e._rule.weight_expression, e._rule.point_set.indices), evalgem(rule.weight_expression, rule.point_set.indices), "the weights are not those of the scheme")
    # the weights belong to the points: total weight is the volume and linear functions are integrated
    w = evalgem(e._rule.weight_expression, e._rule.point_set.indices).reshape(-1)
    x = e._rule.point_set.points
    simplices = lambda k: 1.0
    close(w.sum(), c.volume(), "total weight")
    if degree >= 1:
        close(w @ x, centroid(c) * c.volume(), "first moments")
    quad_checks(e, e._rule, c, sd(seed))


def centroid(c):
    if isinstance(c, TensorProductCell):
        return np.concatenate([centroid(x) for x in c.cells])
    if hasattr(c, "product"):
        return centroid(c.product)
    return np.mean(c.get_vertices(), axis=0)


def check_literal(dim, n, seed):
    rng = sd(seed)
    cell = {1: I, 2: T, 3: K}[dim]
    pts = rand_points(cell, rng, n)
    w = np.array([rng.random() for _ in range(n)])
    rule = QuadratureRule(PointSet(pts), w)
    quad_checks(finat.QuadratureElement(cell, rule), rule, cell, rng)
    # products
    pts1 = rand_points(I, rng, 2)
    r2 = TensorProductQuadratureRule([rule, QuadratureRule(PointSet(pts1), np.array([0.25, 0.75]))])
    c2 = TensorProductCell(cell, I)
    quad_checks(finat.QuadratureElement(c2, r2), r2, c2, rng)
    for bad in (c2,) + tuple(x for k, x in {1: I, 2: T, 3: K}.items() if k != dim):
        rejects((ValueError,), lambda: finat.QuadratureElement(bad, rule), "a rule of another dimension")
    rejects((TypeError,), lambda: finat.QuadratureElement(cell, pts), "something that is not a rule")


def check_runtime_points():
    ps = UnknownPointSet(gem.Variable("rt_X", (3, 2)))
    r = QuadratureRule(ps, [1.0, 1.0, 1.0])
    e = finat.QuadratureElement(T, r)
    require(e.space_dimension() == 3, "dimension")
    t = e.basis_evaluation(0, ps)
    close(evalgem(t[(0, 0)], ps.indices), np.eye(3), "values at the own points")
    rejects((ValueError,), lambda: e.fiat_equivalent, "FIAT element of run-time points")
    rejects((ValueError,), lambda: e.basis_evaluation(0, UnknownPointSet(gem.Variable("rt_Y", (3, 2)))), "other run-time points")
