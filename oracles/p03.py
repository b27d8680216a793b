"""P03: vector and tensor elements are the base element times the identity."""
from .common import *
from finat.point_set import PointSet, TensorPointSet
from .p02 import numeric_dual

ELS = TFES + ["VT(Regge(T,0),2)", "V(P(I,2),3)", "VT(P(I,2),3)", "V(GaussLobattoLegendre(I,2),2)", "VT(GaussLegendre(I,2),2)", "VT(ENR(P(T,1),Bubble(T,3)),2)", "V(DISC(P(T,2)),2)",
              "VT(P(T,1),2)", "V(P(T,1),3,2)", "VT(P(T,1),3,2)", "V(HDIV(TPE(P(I,1),DG(I,0))),2)", "VT(FD(TPE(P(I,1),P(I,2))),3)"]
DUALS = ["V(P(T,2),2)", "VT(P(T,2),2)", "V(P(T,1),2,3)", "VT(P(T,1),2,3)", "V(TPE(P(I,1),P(I,2)),3)", "VT(TPE(P(I,2),DG(I,1)),3)", "V(RaviartThomas(T,1),2)", "VT(RaviartThomas(T,1),2)",
         "V(V(P(T,1),2),3)", "VT(V(P(T,1),2),3)", "V(VT(P(T,1),3),2)", "V(FD(TPE(P(I,2),P(I,2))),2)", "VT(FD(TPE(P(I,1),P(I,2))),3)", "V(GaussLobattoLegendre(I,2),2)", "VT(DG(I,1),3)", "V(QE(T,2),2)", "VT(QE(T,2),2)",
         "V(Nedelec(T,2),2)", "V(Regge(T,0),2)", "V(P(T,1),1)", "V(P(T,2),2,2)", "VT(P(T,2),2,2)"]


def cases(rng, tier):
    for s in ELS:
        yield "tabulate", {"el": s, "order": rng.choice([0, 1, 2, 3]), "seed": rng.randrange(10**6)}
        yield "shapes", {"el": s}
    for s in DUALS:
        yield "dual_basis", {"el": s}
        yield "dual_evaluation", {"el": s, "seed": rng.randrange(10**6)}
    for _ in range(20 if tier == "quick" else 300):
        s = ("V" if rng.random() < .5 else "VT") + f"({rng.choice([rand_tri, rand_interval])(rng)},{rand_shape(rng)})"
        yield "tabulate", {"el": s, "order": rng.choice([0, 1, 3]), "seed": rng.randrange(10**6)}
        yield "shapes", {"el": s}
        if "Bubble" not in s:
            yield "dual_evaluation", {"el": s, "seed": rng.randrange(10**6)}


def layout(e, base, npts):
    """base table (npts, base index..., base value...) times the identity in the element's layout"""
    b = e.base_element
    nb, nv = len(b.index_shape), len(b.value_shape)
    nc = int(np.prod(e._shape, dtype=int))
    t = base.reshape(npts, int(np.prod(b.index_shape, dtype=int)), int(np.prod(b.value_shape, dtype=int)))
    full = np.einsum("pbv,cd->pbcdv", t, np.eye(nc))
    if e._transpose:
        full = full.transpose(0, 2, 1, 3, 4)
        ish = tuple(e._shape) + tuple(b.index_shape)
    else:
        ish = tuple(b.index_shape) + tuple(e._shape)
    return full.reshape((npts,) + ish + tuple(e._shape) + tuple(b.value_shape)), ish


def check_shapes(el):
    e = element(el)
    b = e.base_element
    want = (tuple(e._shape) + tuple(b.index_shape)) if e._transpose else (tuple(b.index_shape) + tuple(e._shape))
    require(tuple(e.index_shape) == want, f"index shape {e.index_shape} expected {want}")
    require(tuple(e.value_shape) == tuple(e._shape) + tuple(b.value_shape), f"value shape {e.value_shape}")
    require(e.space_dimension() == int(np.prod(want, dtype=int)), "space dimension")


def check_tabulate(el, order, seed):
    e = element(el)
    b = e.base_element
    rng = sd(seed)
    pts = rand_points(e.cell, rng, 3)
    ps = PointSet(pts)
    got = tabulate(e, order, ps, flatten=False)
    base = tabulate(b, order, ps, flatten=False)
    require(set(got) == set(base), "derivatives")
    for al in base:
        close(got[al], layout(e, base[al], 3)[0], f"table, derivative {al}")
    got = tabulate_points(e, order, pts, flatten=False)
    for al in base:
        close(got[al], layout(e, base[al], 3)[0], f"run-time table, derivative {al}", 1e-7)
    for ent in cell_entities(e.cell):
        cell = e.cell.construct_subelement(ent[0])
        ps = PointSet(rand_points(cell, rng, 2))
        try:
            base = tabulate(b, 0, ps, ent, flatten=False)
        except Exception:
            continue
        got = tabulate(e, 0, ps, ent, flatten=False)
        for al in base:
            close(got[al], layout(e, base[al], 2)[0], f"table on {ent}")
        pts = np.asarray(ps.points)
        try:
            base = tabulate_points(b, 0, pts, ent, flatten=False)
        except Exception:
            continue
        got = tabulate_points(e, 0, pts, ent, flatten=False)
        for al in base:
            if base[al] is not None:
                close(got[al], layout(e, base[al], 2)[0], f"run-time table on {ent}", 1e-7)


def check_dual_basis(el):
    e = element(el)
    arr, pts, Q, x = numeric_dual(e)
    ba, bp, _, _ = numeric_dual(e.base_element)
    close(pts, bp, "dual points")
    close(arr, layout(e, ba, ba.shape[0])[0], "dual weights")


def random_function(ps, shape, rng, scale=1):
    """(GEM expression of shape `shape` at the points, numpy callable of the points)"""
    d = ps.dimension
    coefs = [[rng.uniform(-1, 1) for _ in range(1 + 2 * d)] for _ in range(int(np.prod(shape, dtype=int)))]
    xs = [gem.Indexed(ps.expression, (i,)) for i in range(d)]
    def one(c):
        r = gem.Literal(c[0])
        for i, xi in enumerate(xs):
            r = gem.Sum(r, gem.Product(gem.Literal(c[1 + i]), xi))
            r = gem.Sum(r, gem.Product(gem.Literal(c[1 + d + i]), gem.Product(xi, xi)))
        return r
    ex = [one(c) for c in coefs]
    expr = gem.ListTensor(np.array(ex, dtype=object).reshape(shape)) if shape else ex[0]
    def f(p):
        p = np.asarray(p, dtype=float)
        return np.array([c[0] + sum(c[1 + i] * p[:, i] + c[1 + d + i] * p[:, i] ** 2 for i in range(d)) for c in coefs]).T.reshape((len(p),) + tuple(shape))
    return expr, f


def check_dual_evaluation(el, seed):
    e = element(el)
    b = e.base_element
    rng = sd(seed)
    box = {}
    def fn(ps):
        ex, f = random_function(ps, tuple(e.value_shape), sd(seed))
        box["f"] = f
        return ex
    ev, idx = e.dual_evaluation(fn)
    require(tuple(i.extent for i in idx) == tuple(e.index_shape), f"basis indices have extents {tuple(i.extent for i in idx)}, the element's index shape is {tuple(e.index_shape)}")
    got = evalgem(ev, idx)
    ba, bp, _, _ = numeric_dual(b)
    npts = ba.shape[0]
    nb, nv, nc = int(np.prod(b.index_shape, dtype=int)), int(np.prod(b.value_shape, dtype=int)), int(np.prod(e._shape, dtype=int))
    vals = box["f"](bp).reshape(npts, nc, nv)
    want = np.einsum("pbv,pcv->bc", ba.reshape(npts, nb, nv), vals)
    if e._transpose:
        want = want.T
    close(got, want.reshape(tuple(e.index_shape)), "dual evaluation")
