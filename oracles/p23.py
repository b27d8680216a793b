"""P23: conversion to an element of the reference library preserves the element."""
import itertools
from .common import *
import finat as F
from finat.point_set import PointSet
from .p22 import EXTRA

META = {"bounds": "the listed elements and random composites of depth at most 2; tables at 3 points per entity, derivatives up to order 1"}
NONE = ["V(P(T,1),2)", "TPE(V(P(T,1),2),P(I,1))", "TPE(P(I,1),P(I,2),P(I,1))", "TPE(P(I,1))", "ENR(V(P(T,1),2),V(Bubble(T,3),2))", "FD(TPE(P(I,1),P(I,2),P(I,1)))"]


def cases(rng, tier):
    for s in dict.fromkeys(SIMPLE + COMPOSITE + EXTRA + ["DISC(P(T,2))", "DISC(RaviartThomas(T,1))", "MIX(P(T,2),RaviartThomas(T,1),DG(T,0))", "FD(TPE(P(I,1),P(I,2)))", "TPE(P(T,1),P(I,2))", "TPE(P(I,2),P(T,1))"]):
        yield "same", {"el": s, "seed": rng.randrange(10**6)}
    for s in NONE:
        yield "none", {"el": s}
    for els in (["P(T,1)", "Bubble(T,3)"], ["P(I,1)", "Bubble(I,3)"], ["Bubble(T,3)", "P(T,1)"], ["Bubble(I,4)", "P(I,1)"], ["Bubble(T,4)", "P(T,2)"], ["RaviartThomas(T,1)", "RES(RaviartThomas(T,2),'interior')"]):
        yield "nodal", {"els": els}
    for c in ("I", "T", "quad", "prism", "sq"):
        yield "quadrature", {"cell": c, "degree": rng.choice([1, 2, 3])}
    for degs in ([1, 3], [5, 2], [1, 3, 5], [5, 3, 1], [3, 6, 4], [4, 1, 3, 6]):
        yield "rule", {"degrees": degs}
    for _ in range(60 if tier == "quick" else 600):
        yield "same", {"el": rand_element(rng, rng.choice([1, 2])), "seed": rng.randrange(10**6)}


def equivalent(e):
    try:
        return e.fiat_equivalent
    except (NotImplementedError, ValueError, TypeError, AttributeError, AssertionError):
        return None


def mapped(e):
    """does the element need the physical cell? (its equivalent also has the functions that are constrained away)"""
    from finat.physically_mapped import NeedsCoordinateMappingElement
    subs = [x for a in ("elements", "factors") for x in getattr(e, a, ())] + [getattr(e, a) for a in ("element", "product", "wrappee", "_base_element") if hasattr(e, a)]
    return isinstance(e, NeedsCoordinateMappingElement) or any(map(mapped, subs))


def compare(e, f, seed):
    require(f.space_dimension() == e.space_dimension(), f"dimension {f.space_dimension()} expected {e.space_dimension()}")
    require(tuple(f.value_shape()) == tuple(e.value_shape), f"value shape {f.value_shape()} expected {e.value_shape}")
    try:
        own, its = e.entity_dofs(), f.entity_dofs()
    except (NotImplementedError, TypeError):
        own = its = None
    require(own == its, f"numbering {its} expected {own}")
    rng = sd(seed)
    for ent in cell_entities(e.cell):
        pts = rand_points(e.cell.construct_subelement(ent[0]), rng, 3)
        for order in (0, 1):
            try:
                got = tabulate(e, order, PointSet(pts), ent)
                want = f.tabulate(order, pts, ent)
            except Exception:
                continue
            for al in got:
                if isinstance(want.get(al), Exception) or got[al] is None:
                    continue
                g, w = np.asarray(got[al]), np.moveaxis(np.asarray(want[al]), -1, 0)
                require(g.size == w.size, f"table sizes {w.shape} expected {g.shape}")
                close(w, g.reshape(w.shape), f"table on {ent}, derivative {al}", 1e-7)


def check_same(el, seed):
    e = element(el)
    f = equivalent(e)
    if f is None or mapped(e):
        return
    compare(e, f, seed)
    if hasattr(e, "_element"):
        require(f is e._element, "the element of the reference library itself")


def check_none(el):
    e = element(el)
    require(equivalent(e) is None, "no equivalent exists")


def check_nodal(els):
    es = [element(s) for s in els]
    n = F.NodalEnrichedElement(es)
    compare(n, n.fiat_equivalent, 5)
    # nodal for the parts' functionals in order
    A = np.zeros((n.space_dimension(),) * 2)
    fn = n.fiat_equivalent
    duals = [d for e in es for d in e.fiat_equivalent.dual_basis()]
    for i, d in enumerate(duals):
        for p, ws in d.get_point_dict().items():
            tab = np.asarray(list(fn.tabulate(0, [p]).values())[0])[..., 0]
            for w, c in ws:
                A[i] += w * tab[(slice(None), *c)]
    close(A, np.eye(len(duals)), "functionals of the parts in order are dual to the basis")


def check_rule(degrees):
    """products of interval rules with different numbers of points"""
    from FIAT.reference_element import TensorProductCell
    import FIAT
    I = FIAT.ufc_simplex(1)
    parts = [F.quadrature.make_quadrature(I, d) for d in degrees]
    rule = F.quadrature.TensorProductQuadratureRule(parts)
    e = F.QuadratureElement(TensorProductCell(*[I] * len(parts)), rule)
    w = np.ones(())
    for p in parts:
        w = np.multiply.outer(w, evalgem(p.weight_expression, p.point_set.indices))
    for _ in range(2):
        f = e.fiat_equivalent
        close(np.asarray(f._weights), w.reshape(-1), "weights of the points in order")
        close(np.asarray(f._points), [sum(map(tuple, x), ()) for x in itertools.product(*[p.point_set.points for p in parts])], "points in order")
        e = F.QuadratureElement(e.cell, rule)


def check_quadrature(cell, degree):
    from FIAT.reference_element import UFCQuadrilateral, TensorProductCell
    import FIAT
    I, T = FIAT.ufc_simplex(1), FIAT.ufc_simplex(2)
    c = {"I": I, "T": T, "quad": UFCQuadrilateral(), "prism": TensorProductCell(T, I), "sq": TensorProductCell(I, I)}[cell]
    rule = F.quadrature.make_quadrature(c, degree)
    e = F.QuadratureElement(c, rule)
    for _ in range(2):
        f = e.fiat_equivalent
        require(f.space_dimension() == e.space_dimension(), "one function per point")
        require(f.entity_dofs() == e.entity_dofs(), "numbering")
        close(np.asarray(f._points), np.asarray(rule.point_set.points), "points")
        w = evalgem(rule.weight_expression, rule.point_set.indices).reshape(-1)
        close(np.asarray(f._weights).reshape(-1), w, "weights")
