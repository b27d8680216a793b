"""Shared vocabulary of the executable contracts: element expressions, GEM evaluation, case helpers."""
import itertools
import random
import numpy as np
import FIAT
import finat
import gem
from gem.interpreter import evaluate
from FIAT.polynomial_set import mis
from FIAT.reference_element import TensorProductCell


class Broken(AssertionError):
    """the property does not hold for this input"""


def require(cond, msg="", *a):
    if not cond:
        raise Broken(msg % a if a else msg)


def close(a, b, msg, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f"{msg}: shape {a.shape} != {b.shape}")
    if a.size:
        d = np.max(np.abs(a - b) / (1 + np.abs(b)))
        require(d <= tol, f"{msg}: differs by {d:.3g}")


# ------------------------------------------------------------------ element expressions
NS = {k: getattr(finat, k) for k in dir(finat) if k[0].isupper()}
NS.update(P0=FIAT.ufc_simplex(0), I=FIAT.ufc_simplex(1), T=FIAT.ufc_simplex(2), K=FIAT.ufc_simplex(3),
          quad=FIAT.reference_element.UFCQuadrilateral(), hexa=FIAT.reference_element.UFCHexahedron(),
          P=finat.Lagrange, DG=finat.DiscontinuousLagrange, TPE=lambda *f: finat.TensorProductElement(f),
          FD=finat.FlattenedDimensions, ENR=lambda *e: finat.EnrichedElement(e), MIX=lambda *e: finat.MixedElement(e),
          TFE=finat.TensorFiniteElement, V=lambda e, *s: finat.TensorFiniteElement(e, s),
          VT=lambda e, *s: finat.TensorFiniteElement(e, s, transpose=True), DISC=finat.DiscontinuousElement,
          HDIV=finat.HDivElement, HCURL=finat.HCurlElement, RES=finat.RestrictedElement,
          NEN=lambda *e: finat.NodalEnrichedElement(e), TPC=lambda *c: TensorProductCell(*c),
          QE=finat.make_quadrature_element, finat=finat, FIAT=FIAT, gem=gem)


def element(s):
    return eval(s, dict(NS))


SIMPLE = ["P(I,1)", "P(I,3)", "P(T,1)", "P(T,2)", "P(T,4)", "P(K,1)", "P(K,3)", "DG(I,0)", "DG(I,2)", "DG(T,0)", "DG(T,3)", "DG(K,1)",
          "Bernstein(T,2)", "Bubble(T,3)", "Bubble(T,4)", "Bubble(I,2)", "FacetBubble(T,2)", "CrouzeixRaviart(T,1)", "CrouzeixRaviart(K,1)",
          "KongMulderVeldhuizen(T,2)", "DiscontinuousTaylor(T,2)", "Real(T,0)",
          "RaviartThomas(T,1)", "RaviartThomas(T,2)", "RaviartThomas(K,1)", "BrezziDouglasMarini(T,1)", "BrezziDouglasMarini(T,2)",
          "BrezziDouglasFortinMarini(T,2)", "Nedelec(T,1)", "Nedelec(T,2)", "Nedelec(K,1)", "NedelecSecondKind(T,1)", "NedelecSecondKind(K,1)",
          "Regge(T,0)", "Regge(T,1)", "HellanHerrmannJohnson(T,0)", "HellanHerrmannJohnson(T,1)",
          "GopalakrishnanLedererSchoberlFirstKind(T,1)", "GopalakrishnanLedererSchoberlSecondKind(T,1)",
          "HDivTrace(T,1)", "GaussLobattoLegendre(I,1)", "GaussLobattoLegendre(I,3)", "GaussLegendre(I,0)", "GaussLegendre(I,2)",
          "Legendre(I,2)", "Legendre(T,2)", "IntegratedLegendre(I,3)", "IntegratedLegendre(T,2)", "FDMLagrange(I,3)",
          "FDMDiscontinuousLagrange(I,2)", "FDMQuadrature(I,3)", "FDMBrokenH1(I,2)", "FDMBrokenL2(I,2)", "FDMHermite(I,3)",
          "Serendipity(quad,2)", "Serendipity(quad,3)", "DPC(quad,2)", "BrezziDouglasMariniCubeEdge(quad,1)", "BrezziDouglasMariniCubeFace(quad,1)",
          "TrimmedSerendipityEdge(quad,1)", "TrimmedSerendipityFace(quad,1)", "TrimmedSerendipityFace(quad,2)", "TrimmedSerendipityCurl(quad,2)",
          "NEN(P(I,1),Bubble(I,2))", "NEN(P(T,2),Bubble(T,3))", "RES(P(T,3),'facet')", "RES(P(T,3),'interior')"]
TPES = ["TPE(P(I,1),P(I,2))", "TPE(P(I,2),DG(I,1))", "TPE(DG(I,1),P(I,2))", "TPE(P(T,1),P(I,2))", "TPE(P(T,2),DG(I,1))", "TPE(DG(T,1),P(I,1))",
        "TPE(P(I,1),P(I,2),DG(I,1))", "TPE(P(I,2),P(I,2),P(I,1))", "TPE(TPE(P(I,1),DG(I,1)),P(I,2))", "TPE(RaviartThomas(T,1),DG(I,1))",
        "TPE(Nedelec(T,1),P(I,2))", "TPE(GaussLobattoLegendre(I,2),GaussLegendre(I,1))", "TPE(P(I,1),RaviartThomas(T,1))",
        "TPE(FD(TPE(P(I,1),P(I,2))),DG(I,1))" if False else "TPE(FD(TPE(P(I,2),P(I,2))),DG(I,1))", "TPE(Bubble(I,2),P(I,1))",
        "TPE(P(T,2),P(I,1),P(I,2))"]
FLAT = ["FD(TPE(P(I,1),P(I,1)))", "FD(TPE(P(I,3),P(I,3)))", "FD(TPE(DG(I,1),DG(I,1)))", "FD(TPE(P(I,2),DG(I,1)))", "FD(TPE(DG(I,0),P(I,2)))",
        "FD(TPE(TPE(P(I,1),P(I,1)),P(I,1)))", "FD(TPE(P(I,2),P(I,2),P(I,2)))", "FD(TPE(P(I,1),DG(I,2),P(I,3)))",
        "FD(TPE(FD(TPE(P(I,2),P(I,2))),P(I,2)))", "FD(TPE(FD(TPE(DG(I,1),P(I,2))),DG(I,1)))", "FD(TPE(FD(TPE(DG(I,1),DG(I,1))),P(I,1)))"]
HDC = ["HDIV(TPE(P(I,2),DG(I,1)))", "HDIV(TPE(DG(I,1),P(I,2)))", "HDIV(TPE(DG(T,1),P(I,1)))", "HDIV(TPE(RaviartThomas(T,1),DG(I,1)))",
       "HDIV(TPE(Nedelec(T,1),DG(I,0)))", "HDIV(TPE(BrezziDouglasMarini(T,1),DG(I,1)))", "HCURL(TPE(DG(I,1),P(I,2)))", "HCURL(TPE(P(I,2),DG(I,1)))",
       "HCURL(TPE(P(T,2),DG(I,1)))", "HCURL(TPE(Nedelec(T,1),P(I,2)))", "HCURL(TPE(RaviartThomas(T,1),P(I,1)))",
       "HDIV(TPE(FD(TPE(DG(I,1),DG(I,1))),P(I,1)))", "HCURL(TPE(FD(TPE(P(I,2),P(I,2))),DG(I,1)))"]
ENRS = ["ENR(P(T,1),Bubble(T,3))", "ENR(P(I,1),DG(I,0))", "ENR(HDIV(TPE(P(I,1),DG(I,0))),HDIV(TPE(DG(I,0),P(I,1))))",
        "ENR(HCURL(TPE(P(I,2),DG(I,1))),HCURL(TPE(DG(I,1),P(I,2))))", "ENR(P(T,1),ENR(Bubble(T,3),DG(T,0)))",
        "ENR(TPE(P(I,1),P(I,2)),TPE(Bubble(I,2),DG(I,0)))", "FD(TPE(ENR(P(I,1),Bubble(I,2)),P(I,2)))", "ENR(V(P(T,1),2),V(Bubble(T,3),2))",
        "ENR(RaviartThomas(T,1),BrezziDouglasMarini(T,1))"]
MIXS = ["MIX(P(T,2),P(T,1))", "MIX(RaviartThomas(T,1),DG(T,0))", "MIX(V(P(T,2),2),P(T,1),DG(T,0))", "MIX(Regge(T,1),P(T,1))", "MIX(TPE(P(I,1),P(I,2)),TPE(DG(I,0),DG(I,1)))",
        "MIX(V(P(T,1),2,3),RaviartThomas(T,1))", "MIX(P(T,1))"]
TFES = ["V(P(T,2),2)", "V(P(K,1),3)", "V(P(T,1),2,2)", "V(DG(I,1),3)", "V(TPE(P(I,1),P(I,2)),2)", "V(FD(TPE(P(I,2),P(I,2))),2)", "V(RaviartThomas(T,1),2)",
        "VT(P(T,2),2)", "VT(P(T,1),2,3)", "VT(TPE(P(I,2),DG(I,1)),3)", "VT(RaviartThomas(T,1),2)", "V(V(P(T,1),2),3)", "V(ENR(P(T,1),Bubble(T,3)),2)", "V(Regge(T,0),2)",
        "VT(V(P(T,1),2),3)", "V(P(I,1),1)", "V(P(T,1),2,3,2)"]
DISCS = ["DISC(P(T,2))", "DISC(RaviartThomas(T,1))", "DISC(V(P(T,1),2))", "DISC(TPE(P(I,1),P(I,2)))", "DISC(FD(TPE(P(I,2),P(I,2))))"]
ZANY = ["Hermite(I,3)", "Hermite(T,3)", "Hermite(K,3)", "Morley(T,2)", "Bell(T,5)", "Argyris(T,5)", "Argyris(T,5,variant='point')", "Argyris(T,6)",
        "HsiehCloughTocher(T,3)", "HsiehCloughTocher(T,4)", "ReducedHsiehCloughTocher(T,3)", "QuadraticPowellSabin6(T,2)", "QuadraticPowellSabin12(T,2)",
        "MardalTaiWinther(T,3)", "ArnoldWinther(T,3)", "ArnoldWintherNC(T,2)", "HuZhang(T,3)", "HuZhang(T,4)", "JohnsonMercier(T,1)", "JohnsonMercier(K,1)",
        "AlfeldSorokina(T,2)", "AlfeldSorokina(K,2)", "BernardiRaugel(T,1)", "BernardiRaugelBubble(T,2)", "BernardiRaugel(K,1)", "BernardiRaugel(K,2)",
        "ArnoldQin(T,2)", "ReducedArnoldQin(T,2)", "ChristiansenHu(T,1)", "GuzmanNeilanFirstKindH1(T,1)",
        "GuzmanNeilanSecondKindH1(T,1)", "GuzmanNeilanBubble(T,1)", "GuzmanNeilanH1div(T,2)"]
COMPOSITE = TPES + FLAT + HDC + ENRS + MIXS + TFES + DISCS


# ------------------------------------------------------------------ random composite elements
def rand_interval(rng):
    return rng.choice(["P(I,1)", "P(I,2)", "P(I,3)", "DG(I,0)", "DG(I,1)", "DG(I,2)", "GaussLegendre(I,1)", "GaussLobattoLegendre(I,2)", "Bubble(I,2)"])


def rand_tri(rng):
    return rng.choice(["P(T,1)", "P(T,2)", "P(T,3)", "DG(T,0)", "DG(T,1)", "Bubble(T,3)", "CrouzeixRaviart(T,1)"])


def rand_shape(rng):
    return ",".join(str(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 2, 3])))


def rand_element(rng, depth=2):
    k = rng.choice(["tpe2", "tpe3", "tpet", "v", "vt", "enr", "mix", "flat2", "flat3", "flatn", "disc"] if depth else ["tri", "int"])
    sub = lambda: rand_element(rng, 0)
    if k == "tri":
        return rand_tri(rng)
    if k == "int":
        return rand_interval(rng)
    if k == "tpe2":
        return f"TPE({rand_interval(rng)},{rand_interval(rng)})"
    if k == "tpe3":
        return f"TPE({rand_interval(rng)},{rand_interval(rng)},{rand_interval(rng)})"
    if k == "tpet":
        return f"TPE({rand_tri(rng)},{rand_interval(rng)})"
    if k == "v":
        return f"V({rand_element(rng, depth - 1)},{rand_shape(rng)})"
    if k == "vt":
        return f"VT({rand_element(rng, depth - 1)},{rand_shape(rng)})"
    if k == "disc":
        return f"DISC({rand_element(rng, depth - 1)})"
    if k == "flat2":
        return f"FD(TPE({rand_interval(rng)},{rand_interval(rng)}))"
    if k == "flat3":
        return f"FD(TPE({rand_interval(rng)},{rand_interval(rng)},{rand_interval(rng)}))"
    if k == "flatn":
        a, b, c = (rand_interval(rng) for _ in range(3))
        inner = rng.choice([f"FD(TPE({a},{b}))", f"TPE({a},{b})"])
        return f"FD(TPE({inner},{c}))"
    cellkind = rng.choice([rand_tri, rand_interval])
    n = rng.choice([2, 3])
    return ("ENR(" if k == "enr" else "MIX(") + ",".join(cellkind(rng) for _ in range(n)) + ")"


# ------------------------------------------------------------------ GEM evaluation
def evalgem(expr, indices=(), bindings=None):
    """numpy array of expr; axes: the given free indices in order, then the shape"""
    r, = evaluate([expr], bindings or {})
    fids = tuple(indices)
    require(set(r.fids) <= set(fids), f"unexpected free indices {r.fids} not in {fids}")
    arr = np.asarray(r.broadcast(fids))
    full = tuple(i.extent for i in fids) + tuple(expr.shape)
    require(len(arr.shape) == len(full), f"rank {arr.shape} {full}")
    return np.broadcast_to(arr, full).copy()


def tabulate(el, order, ps, entity=None, flatten=True, **kw):
    """{alpha: array (npoints, nbasis..., value...)} with basis index flattened"""
    out = {}
    for a, e in el.basis_evaluation(order, ps, entity, **kw).items():
        if isinstance(e, gem.gem.Failure):
            out[a] = None
            continue
        shape = tuple(el.index_shape) + tuple(el.value_shape)
        require(tuple(e.shape) == shape, f"table shape {e.shape} != {shape}")
        arr = evalgem(e, ps.indices)
        npts = int(np.prod([i.extent for i in ps.indices], dtype=int))
        if flatten:
            nb = int(np.prod(el.index_shape, dtype=int))
            out[a] = arr.reshape((npts, nb) + tuple(el.value_shape))
        else:
            out[a] = arr.reshape((npts,) + shape)
    return out


def tabulate_points(el, order, pts, entity=None, flatten=True):
    """point_evaluation at literal coordinates, same layout as tabulate"""
    out = {}
    n, d = pts.shape
    q = gem.Index(extent=n)
    ref = gem.partial_indexed(gem.Literal(pts), (q,))
    for a, e in el.point_evaluation(order, ref, entity).items():
        if isinstance(e, gem.gem.Failure):
            out[a] = None
            continue
        shape = tuple(el.index_shape) + tuple(el.value_shape)
        require(tuple(e.shape) == shape, f"table shape {e.shape} != {shape}")
        arr = evalgem(e, (q,))
        nb = int(np.prod(el.index_shape, dtype=int))
        out[a] = arr.reshape(((n, nb) + tuple(el.value_shape)) if flatten else ((n,) + shape))
    return out


def rand_points(cell, rng, n=3):
    """n random points of the reference entity cell (a FIAT cell)"""
    if isinstance(cell, TensorProductCell):
        return np.hstack([rand_points(c, rng, n) for c in cell.cells])
    if hasattr(cell, "product"):
        return rand_points(cell.product, rng, n)
    d = cell.get_spatial_dimension()
    if d == 0:
        return np.zeros((n, 0))
    v = np.asarray(cell.get_vertices_of_subcomplex(cell.get_topology()[cell.get_dimension()][0])) if False else np.asarray(cell.get_vertices())
    w = np.array([[rng.random() for _ in range(len(v))] for _ in range(n)]) + 0.05
    w /= w.sum(axis=1, keepdims=True)
    return w @ v


def cell_entities(cell):
    return [(d, e) for d, es in cell.get_topology().items() for e in es]


def top_dim(cell):
    return cell.get_dimension()


def flat_dofs(d):
    return [x for es in d.values() for l in es.values() for x in l]


def sd(n):
    return random.Random(n)
