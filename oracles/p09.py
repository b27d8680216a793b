"""P09: dual evaluation reproduces the element's degrees of freedom."""
from .common import *
from finat.point_set import PointSet
from .p02 import numeric_dual
from .p03 import random_function

NODAL = ["P(I,1)", "P(I,3)", "P(T,1)", "P(T,4)", "P(K,2)", "DG(I,0)", "DG(I,2)", "DG(T,0)", "DG(T,3)", "DG(K,1)", "CrouzeixRaviart(T,1)", "KongMulderVeldhuizen(T,2)", "Real(T,0)", "Real(K,0)",
         "RaviartThomas(T,1)", "RaviartThomas(T,2)", "RaviartThomas(T,3)", "RaviartThomas(K,1)", "RaviartThomas(K,2)", "RaviartThomas(T,2,variant='point')", "BrezziDouglasMarini(T,1)", "BrezziDouglasMarini(T,2)", "BrezziDouglasMarini(K,1)",
         "Nedelec(T,1)", "Nedelec(T,2)", "Nedelec(K,1)", "Nedelec(K,2)", "NedelecSecondKind(T,1)", "NedelecSecondKind(T,2)", "NedelecSecondKind(K,1)", "Regge(T,0)", "Regge(T,1)", "Regge(T,2)", "Regge(K,0)", "HellanHerrmannJohnson(T,0)",
         "HellanHerrmannJohnson(T,1)", "HellanHerrmannJohnson(K,0)", "GopalakrishnanLedererSchoberlFirstKind(T,1)", "GopalakrishnanLedererSchoberlFirstKind(K,1)", "GopalakrishnanLedererSchoberlSecondKind(T,1)", "GaussLobattoLegendre(I,1)", "GaussLobattoLegendre(I,4)",
         "GaussLegendre(I,0)", "GaussLegendre(I,3)", "Legendre(I,2)", "Legendre(T,2)", "IntegratedLegendre(I,3)", "IntegratedLegendre(T,2)", "NEN(P(T,1),Bubble(T,3))", "NEN(P(I,1),Bubble(I,2))",
         "RES(P(T,3),'facet')", "RES(P(T,3),'interior')", "RES(P(T,3),'vertex')", "RES(RaviartThomas(T,2),'facet')", "RES(RaviartThomas(T,2),'interior')", "Bubble(T,3)", "Bubble(I,2)", "Bubble(I,4)", "FacetBubble(T,2)",
         "BrezziDouglasFortinMarini(T,2)", "P(T,2,variant='spectral')", "FDMLagrange(I,3)", "FDMDiscontinuousLagrange(I,2)", "FDMQuadrature(I,3)", "Bernstein(T,2)", "DiscontinuousTaylor(T,2)", "DPC(quad,2)",
         "Serendipity(quad,2)", "P(T,1,variant='alfeld')", "DG(T,1,variant='alfeld')"]
COMP = ["TPE(P(I,1),P(I,2))", "TPE(P(I,2),DG(I,1))", "TPE(P(T,1),P(I,2))", "TPE(P(I,1),P(I,2),DG(I,1))", "TPE(TPE(P(I,1),DG(I,1)),P(I,2))", "TPE(RaviartThomas(T,1),DG(I,1))", "TPE(P(I,1),RaviartThomas(T,1))",
        "FD(TPE(P(I,2),P(I,2)))", "FD(TPE(P(I,1),DG(I,2),P(I,3)))", "V(P(T,2),2)", "VT(P(T,2),2)", "V(P(T,1),2,3)", "VT(P(T,1),2,3)", "V(TPE(P(I,1),P(I,2)),3)", "VT(TPE(P(I,2),DG(I,1)),3)",
        "V(RaviartThomas(T,1),2)", "V(V(P(T,1),2),3)", "VT(V(P(T,1),2),3)", "V(FD(TPE(P(I,2),P(I,2))),2)", "VT(FD(TPE(P(I,1),P(I,2))),3)", "DISC(P(T,2))", "DISC(RaviartThomas(T,1))", "DISC(FD(TPE(P(I,2),P(I,2))))", "DISC(V(P(T,1),2))",
        "HDIV(TPE(P(I,2),DG(I,1)))", "HDIV(TPE(DG(I,1),P(I,2)))", "HDIV(TPE(DG(T,1),P(I,1)))", "HDIV(TPE(RaviartThomas(T,1),DG(I,1)))", "HDIV(TPE(Nedelec(T,1),DG(I,0)))", "HCURL(TPE(DG(I,1),P(I,2)))", "HCURL(TPE(P(I,2),DG(I,1)))",
        "HCURL(TPE(P(T,2),DG(I,1)))", "HCURL(TPE(Nedelec(T,1),P(I,2)))", "HCURL(TPE(RaviartThomas(T,1),P(I,1)))", "V(HDIV(TPE(P(I,1),DG(I,0))),2)", "TPE(GaussLobattoLegendre(I,2),GaussLegendre(I,1))", "V(GaussLobattoLegendre(I,3),2)", "VT(GaussLegendre(I,2),2)",
        "V(Nedelec(T,2),2)", "VT(Nedelec(T,2),2)", "V(Regge(T,0),2)", "TPE(DISC(P(I,1)),P(I,2))", "TPE(Legendre(I,2),IntegratedLegendre(I,3))"]
QUADR = ["QE(I,3)", "QE(T,2)", "QE(TPC(I,I),3)", "QE(TPC(T,I),2)", "V(QE(T,2),2)", "VT(QE(I,3),3)"]


def cases(rng, tier):
    for s in NODAL:
        yield "functionals", {"el": s, "seed": rng.randrange(10**6)}
        yield "evaluation", {"el": s, "seed": rng.randrange(10**6)}
    for s in NODAL + COMP:
        yield "identity", {"el": s}
    for s in COMP + QUADR:
        yield "evaluation", {"el": s, "seed": rng.randrange(10**6)}
    for s in QUADR:
        yield "quadrature_dual", {"el": s}
    for s in ["P(I,2)", "DG(T,1)", "QE(I,3)", "QE(T,2)", "GaussLegendre(I,2)", "GaussLobattoLegendre(I,2)", "Legendre(I,1)", "DISC(P(I,1))", "FD(TPE(P(I,1),P(I,1)))", "QE(TPC(I,I),1)"]:
        yield "reused", {"el": s}
    for name in ("repeat", "one", "shared", "permuted", "close", "corner"):
        yield "synthetic", {"name": name}
    for _ in range(20 if tier == "quick" else 300):
        a, b = rand_interval(rng), rng.choice([rand_interval, rand_tri])(rng)
        if "Bubble" in a + b:
            continue
        s = rng.choice([f"TPE({b},{a})", f"V(TPE({b},{a}),{rand_shape(rng)})", f"VT({b},{rand_shape(rng)})", f"V({b},{rand_shape(rng)})", f"DISC(TPE({b},{a}))"])
        yield "evaluation", {"el": s, "seed": rng.randrange(10**6)}
        yield "identity", {"el": s}


NODUAL = (NotImplementedError,)


def flatdual(e):
    a, p, Q, x = numeric_dual(e)
    require(tuple(Q.shape) == tuple(e.index_shape) + tuple(e.value_shape), f"dual weights have shape {Q.shape}, expected {tuple(e.index_shape) + tuple(e.value_shape)}")
    n = int(np.prod(e.index_shape, dtype=int))
    return a.reshape((a.shape[0], n, -1)), p, x


def apply_functionals(fe, f):
    """the element's functionals applied to f: points -> (n, value...)"""
    out = []
    for node in fe.dual_basis():
        if node.deriv_dict:
            return None
        s = 0.0
        for p, wc in node.get_point_dict().items():
            v = f(np.array([p], dtype=float))[0]
            for w, c in wc:
                s += w * v[tuple(c)]
        out.append(s)
    return np.array(out)


def check_functionals(el, seed):
    e = element(el)
    fe = e._element
    try:
        a, p, x = flatdual(e)
    except NODUAL:
        return
    from finat.point_set import PointSet
    box = {}
    _, f = random_function(PointSet(np.zeros((1, e.cell.get_spatial_dimension()))), tuple(e.value_shape), sd(seed))
    want = apply_functionals(fe, f)
    if want is None:
        return
    close(np.einsum("pbv,pv->b", a, f(p).reshape(len(p), -1)), want, "dual weights applied to a function")


def check_evaluation(el, seed):
    e = element(el)
    box = {}
    def fn(ps):
        ex, f = random_function(ps, tuple(e.value_shape), sd(seed))
        box["f"] = f
        return ex
    try:
        a, p, x = flatdual(e)
    except NODUAL:
        return
    ev, idx = e.dual_evaluation(fn)
    require(tuple(i.extent for i in idx) == tuple(e.index_shape), f"basis indices have extents {tuple(i.extent for i in idx)}, index shape is {tuple(e.index_shape)}")
    want = np.einsum("pbv,pv->b", a, box["f"](p).reshape(len(p), -1)).reshape(tuple(e.index_shape))
    close(evalgem(ev, idx), want, "dual evaluation", 1e-8)
    # a constant, and a function given by a table with its own argument index
    def fn2(ps):
        shape = tuple(e.value_shape)
        return gem.Literal(np.ones(shape)) if shape else gem.Literal(1.0)
    ev, idx = e.dual_evaluation(fn2)
    close(evalgem(ev, idx), np.einsum("pbv->b", a).reshape(tuple(e.index_shape)), "dual evaluation of a constant", 1e-8)


def check_identity(el):
    e = element(el)
    try:
        a, p, x = flatdual(e)
    except NODUAL:
        return
    n = a.shape[1]
    t = tabulate(e, 0, PointSet(p))
    t, = t.values()
    if t is None:
        return
    m = np.einsum("pbv,pcv->bc", a, t.reshape(t.shape[0], n, -1))
    base = e
    close(m, np.eye(n), "dual basis applied to the basis", 1e-7)
    # dual evaluation of the element's own basis functions
    arg = tuple(gem.Index(extent=d) for d in e.index_shape)
    def fn(ps):
        tab, = e.basis_evaluation(0, ps).values()
        return gem.partial_indexed(tab, arg)
    ev, idx = e.dual_evaluation(fn)
    r = evalgem(ev, idx + arg).reshape(n, n)
    close(r, np.eye(n), "dual evaluation of the element's own basis", 1e-7)


def check_quadrature_dual(el):
    e = element(el)
    b = e.base_element if isinstance(e, finat.TensorFiniteElement) else e
    a, p, x = flatdual(b)
    close(a[:, :, 0], np.eye(b.space_dimension()), "quadrature dual weights")
    close(p, b._rule.point_set.points, "quadrature dual points")


def check_reused(el):
    """one element may be the factor of a product more than once"""
    e = element(el)
    a, p, Q, x = numeric_dual(e)
    t = finat.TensorProductElement([e, e])
    b, q, Q, x = numeric_dual(t)
    n, m = a.shape[0], int(np.prod(e.index_shape, dtype=int))
    require(len(set(x.indices)) == len(x.indices), "a point index is used twice")
    close(b.reshape(n * n, m, m), np.einsum("xi,yj->xyij", a.reshape(n, m), a.reshape(n, m)).reshape(n * n, m, m), "dual weights of the product of an element with itself")
    close(q, np.array([np.concatenate(c) for c in itertools.product(p, p)]), "dual points of the product of an element with itself")
    first, second = numeric_dual(e), numeric_dual(e)
    require(not set(first[3].indices) & set(second[3].indices), "two dual bases share a point index")


class FakeNode:
    def __init__(self, d):
        self.d, self.deriv_dict = d, {}
    def get_point_dict(self):
        return self.d


class FakeElement:
    """a reference element given only by its functionals (the contract of FIAT's dual set: point -> [(weight, component)])"""
    def __init__(self, nodes, shape):
        self.nodes, self.shape = nodes, shape
    def dual_basis(self):
        return [FakeNode(d) for d in self.nodes]
    def space_dimension(self):
        return len(self.nodes)
    def value_shape(self):
        return self.shape


def check_synthetic(name):
    p, q, r = (0.1, 0.2), (0.3, 0.4), (0.5, 0.1)
    nodes, shape = {
        "repeat": ([{p: [(1.0, ())], q: [(1.0, ())]}, {p: [(1.0, ())]}, {q: [(-2.0, ())]}], ()),
        "one": ([{p: [(1.0, ())]}], ()),
        "shared": ([{p: [(1.0, (0,)), (2.0, (1,))], q: [(3.0, (1,))]}, {q: [(1.0, (0,))], p: [(1.0, (1,))]}], (2,)),
        "close": ([{(0.1, 0.2): [(1.0, ())]}, {(0.1000001, 0.2): [(1.0, ())]}, {(0.1, 0.2000000001): [(1.0, ())]}], ()),
        "corner": ([{(0.0, 0.0): [(1e3, ())], (0.004, 0.0): [(-1e3, ())]}, {(0.004, 0.0): [(1e3, ())], (0.008, 0.004): [(-1e3, ())]}], ()),
        "permuted": ([{q: [(1.0, ())]}, {p: [(1.0, ())]}, {r: [(1.0, ())]}], ()),
    }[name]
    e = finat.fiat_elements.FiatElement(FakeElement(nodes, shape))
    a, pts, x = flatdual(e)
    def f(P):
        P = np.asarray(P)
        v = np.array([1 + P[:, 0] + 3 * P[:, 1] ** 2, 2 - P[:, 1] + P[:, 0] ** 2]).T
        return v if shape else v[:, 0]
    want = apply_functionals(e._element, f)
    close(np.einsum("pbv,pv->b", a, f(pts).reshape(len(pts), -1)), want, "dual weights applied to a function")
