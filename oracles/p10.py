"""P10: quadrature rules are exact to the requested degree."""
from .common import *
from math import factorial
from finat.quadrature import make_quadrature, TensorProductQuadratureRule, QuadratureRule
from finat.point_set import TensorPointSet, GaussLegendrePointSet

CELLS = ["P0", "I", "T", "K", "quad", "TPC(I,I)", "TPC(T,I)", "TPC(I,T)", "TPC(I,I,I)", "TPC(TPC(I,I),I)", "TPC(quad,I)", "TPC(K,I)", "TPC(T,T)"]
MACRO = ["FIAT.macro.AlfeldSplit(T)", "FIAT.macro.AlfeldSplit(K)", "FIAT.macro.IsoSplit(I)", "FIAT.macro.PowellSabinSplit(T)", "TPC(FIAT.macro.IsoSplit(I),I)"]
NS["FIAT"].macro


def leaf_cells(c):
    if isinstance(c, TensorProductCell):
        return [x for s in c.cells for x in leaf_cells(s)]
    if hasattr(c, "product"):
        return leaf_cells(c.product)
    return [c]


def simplex_integral(alpha):
    r = 1.0
    for a in alpha:
        r *= factorial(a)
    return r / factorial(sum(alpha) + len(alpha))


def degree_tree(c, rng, maxd):
    if isinstance(c, TensorProductCell):
        return [degree_tree(x, rng, maxd) for x in c.cells] if rng.random() < .7 else rng.randrange(maxd)
    if hasattr(c, "product"):
        return degree_tree(c.product, rng, maxd)
    return rng.randrange(maxd)


def leaf_degrees(c, d):
    if isinstance(c, TensorProductCell):
        ds = list(d) if isinstance(d, (list, tuple)) else [d] * len(c.cells)
        return [x for s, y in zip(c.cells, ds) for x in leaf_degrees(s, y)]
    if hasattr(c, "product"):
        return leaf_degrees(c.product, d)
    return [d]


def cases(rng, tier):
    for c in CELLS:
        maxd = {"K": 12, "T": 16, "I": 24}.get(c, 7)
        for d in range(0, maxd if tier == "quick" else maxd + 8):
            yield "exact", {"cell": c, "degree": d, "scheme": "default"}
        if c == "I":
            for d in (31, 40, 47, 63, 64, 79, 100, 129):
                yield "exact", {"cell": c, "degree": d, "scheme": "default"}
        if "TPC" in c or c == "quad":
            for _ in range(6):
                yield "exact", {"cell": c, "degree": degree_tree(eval(c, dict(NS)), rng, 7), "scheme": "default"}
        yield "negative", {"cell": c}
        for d in (1, 2, 3, 5):
            yield "exact", {"cell": c, "degree": d, "scheme": "canonical"}
    for c in MACRO:
        for d in (0, 1, 2, 3, 5):
            yield "exact", {"cell": c, "degree": d, "scheme": "default"}
    for cs in (["I", "T"], ["I", "I", "I"], ["T", "I"], ["I"]):
        yield "product", {"cells": cs, "degrees": [rng.randrange(1, 6) for _ in cs]}
    yield "rule_errors", {}
    for c in ("I", "T", "K", "TPC(I,I)", "quad", "TPC(I,I,I)", "TPC(quad,I)", "TPC(I,quad)", "TPC(TPC(I,I),I)", "TPC(TPC(I,I),TPC(I,I))", "TPC(quad,quad)", "TPC(T,I)"):
        yield "orientation", {"cell": c, "degree": 4}
        if "TPC" in c or c == "quad":
            for _ in range(4):
                yield "orientation", {"cell": c, "degree": degree_tree(eval(c, dict(NS)), rng, 9)}


def numeric_rule(q):
    ps = q.point_set
    w = evalgem(q.weight_expression, ps.indices).reshape(-1)
    pts = np.asarray(ps.points, dtype=float)
    require(len(pts) == len(w), f"{len(pts)} points, {len(w)} weights")
    x = evalgem(ps.expression, ps.indices).reshape(len(w), -1)
    close(x.reshape(pts.shape), pts, "points in the order of the weights")
    return pts, w


def monomials(leaves, degs, cap=400):
    """exponents (per leaf) up to the degree of each leaf"""
    per = []
    for c, d in zip(leaves, degs):
        n = c.get_spatial_dimension()
        per.append([a for o in range(d + 1) for a in mis(n, o)] if n else [()])
    full = list(itertools.product(*per))
    if len(full) > cap:
        r = sd(len(full))
        top = [t for t in full if all(sum(a) == d or not a for a, d in zip(t, degs))]
        full = r.sample(full, cap // 2) + r.sample(top, min(len(top), cap // 2))
    return full


def check_exact(cell, degree, scheme):
    c = eval(cell, dict(NS))
    deg = tuple(degree) if isinstance(degree, list) else degree
    def tup(d):
        return tuple(map(tup, d)) if isinstance(d, list) else d
    deg = tup(degree)
    q = make_quadrature(c, deg, scheme)
    pts, w = numeric_rule(q)
    leaves, degs = leaf_cells(c), leaf_degrees(c, degree)
    require(pts.shape[1] == sum(x.get_spatial_dimension() for x in leaves), "dimension")
    cuts = np.cumsum([0] + [x.get_spatial_dimension() for x in leaves])
    for x, a, b in zip(leaves, cuts, cuts[1:]):
        P = pts[:, a:b]
        require(np.all(P >= -1e-12) and np.all(P.sum(axis=1) <= 1 + 1e-12), "points outside the closed cell")
    for mono in monomials(leaves, degs):
        val = np.ones(len(w))
        ex = 1.0
        for al, a, b in zip(mono, cuts, cuts[1:]):
            ex *= simplex_integral(al)
            for i, k in enumerate(al):
                val = val * pts[:, a + i] ** k
        got = float(val @ w)
        require(abs(got - ex) <= 1e-11 * max(1.0, 1.0), f"integral of monomial {mono} is {got}, expected {ex}")
    if cell == "I":
        require(isinstance(q.point_set, GaussLegendrePointSet), "the interval rule is labelled Gauss-Legendre")
        gp, gw = np.polynomial.legendre.leggauss(len(w))
        close(np.sort(pts[:, 0]), np.sort((gp + 1) / 2), "points labelled Gauss-Legendre are Gauss-Legendre points")


def check_negative(cell):
    c = eval(cell, dict(NS))
    degs = [-1, -3]
    if isinstance(c, TensorProductCell):
        degs += [(-1,) + (2,) * (len(c.cells) - 1), (2,) * (len(c.cells) - 1) + (-1,)]
    for d in degs:
        try:
            make_quadrature(c, d)
        except ValueError:
            continue
        raise Broken(f"degree {d} accepted")


def check_product(cells, degrees):
    cs = [eval(c, dict(NS)) for c in cells]
    rules = [make_quadrature(c, d) for c, d in zip(cs, degrees)]
    q = TensorProductQuadratureRule(rules)
    pts, w = numeric_rule(q)
    num = [numeric_rule(r) for r in rules]
    wp = np.array([np.concatenate(t) for t in itertools.product(*[p for p, _ in num])])
    ww = np.array([np.prod(t) for t in itertools.product(*[x for _, x in num])])
    close(pts, wp, "product points")
    close(w, ww, "product weights")
    q2 = make_quadrature(TensorProductCell(*cs), tuple(degrees))
    p2, w2 = numeric_rule(q2)
    close(p2, wp, "points of the rule of the product cell")
    close(w2, ww, "weights of the rule of the product cell")


def check_rule_errors():
    from finat.point_set import PointSet
    try:
        QuadratureRule(PointSet(np.zeros((3, 2))), np.ones(2))
    except AssertionError:
        pass
    else:
        raise Broken("mismatched points and weights accepted")
    try:
        make_quadrature(TensorProductCell(NS["I"], NS["I"]), (1, 2, 3))
    except (AssertionError, ValueError):
        return
    raise Broken("wrong number of degrees accepted")


def check_orientation(cell, degree):
    c = eval(cell, dict(NS))
    q = make_quadrature(c, degree)
    pts, w = numeric_rule(q)
    try:
        maps = q.intrinsic_orientation_permutation_map_tuple
    except ValueError:
        return
    leaves = leaf_cells(c)
    require(len(maps) == len(leaves), "one orientation map per axis")
    for m, ix in zip(maps, q.point_set.indices):
        for o, perm in enumerate(np.asarray(m)):
            require(sorted(int(x) for x in perm) == list(range(ix.extent)), "orientation maps are permutations of the axis' points")
            require([int(x) for x in perm] == (list(range(ix.extent)) if o == 0 else list(range(ix.extent))[::-1]), "an axis is kept or reversed")
