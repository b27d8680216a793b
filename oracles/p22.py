"""P22: composite elements report metadata that follows from their parts."""
from .common import *
import finat as F
import FIAT
from FIAT.reference_element import SimplicialComplex

META = {"bounds": "the listed elements and random composites of depth at most 3"}
EXTRA = ["DISC(Nedelec(T,1))", "DISC(HDIV(TPE(P(I,2),DG(I,1))))", "DISC(ENR(P(T,1),Bubble(T,3)))", "DISC(MIX(P(T,1),DG(T,0)))", "DISC(DISC(P(T,2)))", "V(DISC(P(T,2)),2)", "TPE(DISC(P(I,2)),P(I,1))",
         "ENR(TPE(P(I,1),P(I,3)),TPE(P(I,2),P(I,1)))", "ENR(TPE(P(T,1),P(I,3)),TPE(Bubble(T,3),P(I,1)))", "ENR(RaviartThomas(T,1),Nedelec(T,1))", "ENR(V(P(T,1),2),RaviartThomas(T,1))", "ENR(P(T,1),DG(T,2),Bubble(T,3))",
         "ENR(HDIV(TPE(P(I,1),DG(I,0))),HCURL(TPE(DG(I,0),P(I,1))))", "MIX(P(T,2),V(P(T,1),2),Regge(T,1))", "MIX(RaviartThomas(T,1),Nedelec(T,1))", "V(MIX(P(T,1),P(T,2)),2)", "MIX(MIX(P(T,1),P(T,2)),DG(T,0))",
         "TPE(Regge(T,0),P(I,1))", "TPE(HellanHerrmannJohnson(T,0),P(I,1))", "TPE(Nedelec(T,1),DG(I,0))", "TPE(P(T,1,variant='alfeld'),P(I,1))", "ENR(P(T,1,variant='alfeld'),P(T,2))", "ENR(P(T,2),P(T,1,variant='alfeld'))", "V(P(T,1,variant='alfeld'),2)",
         "DISC(P(T,1,variant='alfeld'))", "MIX(P(T,1,variant='alfeld'),P(T,1))", "TPE(TPE(P(I,1),DG(I,2)),DG(I,1))", "FD(TPE(P(I,1),DG(I,2),DG(I,1)))", "V(P(P0,0) if False else DG(P0,0),3)", "TPE(QE(I,2),P(I,1))", "ENR(QE(T,2),P(T,1))", "V(QE(T,2),2)", "DISC(QE(T,2))",
         "HDIV(TPE(DG(I,0),DG(I,1),P(I,1)))" if False else "HDIV(TPE(TPE(DG(I,0),DG(I,1)),P(I,1)))", "TPE(ENR(P(I,1),Bubble(I,2)),DG(I,1))", "ENR(P(I,1),ENR(Bubble(I,2),Bubble(I,3)))", "VT(TPE(P(I,2),DG(I,1)),3,2)", "V(Nedelec(T,1),3)", "VT(Regge(T,0),2)",
         "ENR(Hermite(T,3),Bubble(T,3))", "DISC(Hermite(T,3))", "MIX(Bell(T,5),P(T,1))", "V(Argyris(T,5),2)", "RES(P(T,3),'vertex')", "RES(Nedelec(T,2),'facet')", "RES(FD(TPE(P(I,3),P(I,3))),'interior')", "RES(V(P(T,2),2),'vertex')", "RES(MIX(P(T,3),Bubble(T,3)),'facet')"]


def cases(rng, tier):
    for s in dict.fromkeys(SIMPLE + COMPOSITE + ZANY + EXTRA):
        yield "metadata", {"el": s}
    for _ in range(150 if tier == "quick" else 2000):
        yield "metadata", {"el": rand_element(rng, rng.choice([1, 2, 3]))}
    for s in list(dict.fromkeys(SIMPLE + COMPOSITE)):
        yield "disc", {"el": s}
    for _ in range(40 if tier == "quick" else 500):
        yield "disc", {"el": rand_element(rng, 2)}
    yield "disc_evaluation", {}


UNDEF = "undefined"


def ask(e, what):
    try:
        v = getattr(e, what)
        return v() if callable(v) else v
    except (NotImplementedError, ValueError, AttributeError, AssertionError):
        return UNDEF


def tree_max(ds):
    if any(isinstance(d, tuple) for d in ds):
        if len({len(d) if isinstance(d, tuple) else None for d in ds}) != 1:
            return UNDEF
        return tuple(tree_max(x) for x in zip(*ds))
    return max(ds)


def same(xs):
    return xs[0] if all(x == xs[0] for x in xs) else None


def form_max(fd):
    if None in fd or (len(set(fd)) > 1 and any(isinstance(k, tuple) for k in fd)):
        return None
    return max(fd)


def spec(e):
    """what must be reported, from what the parts must report"""
    if isinstance(e, F.TensorProductElement):
        p = [spec(f) for f in e.factors]
        cell = TensorProductCell(*[x["cell"] for x in p])
        fd = [x["formdegree"] for x in p]
        ms = [x["mapping"] for x in p]
        nona = [m for m in ms if m != "affine"]
        vs = [x["value_shape"] for x in p if x["value_shape"] != ()]
        d = dict(cell=cell, degree=tuple(x["degree"] for x in p), formdegree=None if any(k is None or isinstance(k, tuple) for k in fd) else sum(fd),
                 mapping="affine" if not nona else (nona[0] if len(nona) == 1 else None), value_shape=vs[0] if vs else (),
                 index_shape=sum((x["index_shape"] for x in p), ()), dim=int(np.prod([x["dim"] for x in p])))
        if any(x["degree"] == UNDEF for x in p):
            d["degree"] = UNDEF
        return d
    if isinstance(e, F.EnrichedElement):
        p = [spec(x) for x in e.elements]
        fd = [x["formdegree"] for x in p]
        n = sum(x["dim"] for x in p)
        return dict(cell=p[0]["cell"], degree=UNDEF if any(x["degree"] == UNDEF for x in p) else tree_max([x["degree"] for x in p]), formdegree=form_max(fd),
                    mapping=same([x["mapping"] for x in p]), value_shape=p[0]["value_shape"], index_shape=(n,), dim=n)
    if type(e).__name__ == "MixedSubElement":
        p = spec(e.element)
        return dict(p, value_shape=(e.size,))
    if isinstance(e, F.TensorFiniteElement):
        p = spec(e.base_element)
        s = tuple(e._shape)
        return dict(p, value_shape=s + p["value_shape"], index_shape=s + p["index_shape"] if e._transpose else p["index_shape"] + s, dim=p["dim"] * int(np.prod(s, dtype=int)))
    if isinstance(e, F.FlattenedDimensions):
        p = spec(e.product)
        d = p["degree"]
        return dict(p, cell=NS["quad"] if p["cell"].get_spatial_dimension() == 2 else NS["hexa"], degree=d[0] if d != UNDEF and len(set(d)) == 1 else UNDEF)
    if isinstance(e, F.DiscontinuousElement):
        p = spec(e.element)
        return dict(p, formdegree=p["cell"].get_spatial_dimension())
    if isinstance(e, (F.HDivElement, F.HCurlElement)):
        p = spec(e.wrappee)
        n = p["cell"].get_spatial_dimension()
        hdiv = isinstance(e, F.HDivElement)
        return dict(p, value_shape=(n,), mapping="contravariant piola" if hdiv else "covariant piola", formdegree=n - 1 if hdiv else 1)
    d = dict(cell=e.cell, degree=ask(e, "degree"), formdegree=ask(e, "formdegree"), mapping=ask(e, "mapping"), value_shape=tuple(e.value_shape), index_shape=tuple(e.index_shape), dim=int(e.space_dimension()))
    require(d["dim"] == int(np.prod(d["index_shape"], dtype=int)), f"{type(e).__name__}: dimension {d['dim']}, index shape {d['index_shape']}")
    if hasattr(e, "_element") and not hasattr(e, "basis_transformation"):
        f = e._element
        require(d["dim"] == f.space_dimension() and d["value_shape"] == tuple(f.value_shape()), "dimension or value shape differ from the FIAT element")
    return d


def complexes(e):
    if isinstance(e, F.TensorProductElement):
        return TensorProductCell(*[complexes(f) for f in e.factors])
    if isinstance(e, F.EnrichedElement):
        cs = [complexes(x) for x in e.elements]
        return next((c for c in cs if getattr(c, "is_macrocell", lambda: False)()), cs[0])
    for a in ("element", "base_element", "product", "wrappee"):
        if hasattr(e, a):
            return complexes(getattr(e, a))
    return e.complex


def topo(c):
    return [topo(x) for x in c.cells] if isinstance(c, TensorProductCell) else c.get_topology()


def check_metadata(el):
    e = element(el)
    w = spec(e)
    got = dict(cell=e.cell, degree=ask(e, "degree"), formdegree=ask(e, "formdegree"), mapping=ask(e, "mapping"), value_shape=tuple(e.value_shape), index_shape=tuple(e.index_shape), dim=int(e.space_dimension()))
    for k, v in w.items():
        if k == "cell":
            require(type(got[k]) is type(v) and topo(got[k]) == topo(v), f"cell {got[k]}, expected {v}")
        else:
            require(got[k] == v, f"{k} is {got[k]}, expected {v}")
    require(got["dim"] == int(np.prod(got["index_shape"], dtype=int)), "index shape does not multiply to the dimension")
    if ask(e, "entity_dofs") != UNDEF:
        require(len(flat_dofs(e.entity_dofs())) == got["dim"], "number of degrees of freedom")
    if not isinstance(e, F.EnrichedElement) or len({str(topo(x.complex)) for x in e.elements}) <= 2:
        require(str(topo(e.complex)) == str(topo(complexes(e))), f"complex {e.complex}, expected {complexes(e)}")
    bi, vi = e.get_indices(), e.get_value_indices()
    require(tuple(i.extent for i in bi) == got["index_shape"] and tuple(i.extent for i in vi) == got["value_shape"], "indices")
    require(len(set(bi + vi)) == len(bi + vi), "indices are shared")


def check_disc(el):
    e = element(el)
    d = F.DiscontinuousElement(e)
    ed = d.entity_dofs()
    top = e.cell.get_dimension()
    n = int(e.space_dimension())
    require({k: set(v) for k, v in ed.items()} == {k: set(v) for k, v in e.cell.get_topology().items()}, "entities")
    for k, es in ed.items():
        for i, l in es.items():
            require(list(l) == (list(range(n)) if k == top else []), f"degrees of freedom of {(k, i)}: {list(l)}")
    for a in ("degree", "mapping", "value_shape", "index_shape", "space_dimension"):
        require(ask(d, a) == ask(e, a), f"{a} changes from {ask(e, a)} to {ask(d, a)}")
    require(d.formdegree == e.cell.get_spatial_dimension(), "form degree")


class Recorder:
    """stand-in for an element: evaluation returns what it was asked for"""
    cell = FIAT.ufc_simplex(2)
    complex = cell

    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        return "basis", order, ps, entity, coordinate_mapping

    def point_evaluation(self, order, refcoords, entity=None):
        return "point", order, refcoords, entity


def check_disc_evaluation():
    e = F.DiscontinuousElement(Recorder())
    for args in ((1, "points"), (0, "points", (1, 2)), (2, "points", (1, 2), "mapping"), (1, "points", None, "mapping")):
        require(e.basis_evaluation(*args) == Recorder().basis_evaluation(*args), f"basis evaluation with arguments {args}")
    require(e.basis_evaluation(1, "points", coordinate_mapping="mapping") == ("basis", 1, "points", None, "mapping"), "coordinate mapping")
    for args in ((1, "point"), (2, "point", (1, 2))):
        require(e.point_evaluation(*args) == Recorder().point_evaluation(*args), f"point evaluation with arguments {args}")
