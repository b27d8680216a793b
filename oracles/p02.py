"""P02: tensor-product elements tabulate products of their factors."""
from .common import *
from finat.point_set import PointSet, PointSingleton, TensorPointSet
from FIAT.reference_element import compute_unflattening_map

ELS = TPES + FLAT + ["TPE(P(I,2))", "TPE(DG(I,1),DG(I,1),DG(I,1),P(I,1))", "TPE(P(T,1),P(T,2))", "TPE(V(P(T,1),2),P(I,1))", "TPE(P(I,1),Regge(T,0))",
                     "TPE(ENR(P(T,1),Bubble(T,3)),DG(I,1))", "TPE(CrouzeixRaviart(T,1),P(I,1))", "FD(TPE(GaussLobattoLegendre(I,2),GaussLobattoLegendre(I,3)))",
                     "TPE(DISC(P(I,1)),P(I,2))", "TPE(P(I,3),P(T,1),P(I,1))", "FD(TPE(DG(I,0),P(I,1),DG(I,1)))",
       "TPE(FD(TPE(P(I,1),P(I,2))),P(I,1))"]
DUALS = ["TPE(P(I,1),P(I,2))", "TPE(P(I,2),DG(I,1))", "TPE(P(T,1),P(I,2))", "TPE(P(I,1),P(I,2),DG(I,1))", "TPE(TPE(P(I,1),DG(I,1)),P(I,2))",
         "TPE(RaviartThomas(T,1),DG(I,1))", "TPE(P(I,1),RaviartThomas(T,2))", "TPE(Nedelec(T,1),P(I,2))", "FD(TPE(P(I,2),P(I,3)))", "FD(TPE(P(I,1),DG(I,2),P(I,3)))",
         "TPE(DISC(P(I,1)),P(I,2))", "TPE(V(P(T,1),2),P(I,1))", "TPE(GaussLobattoLegendre(I,2),GaussLegendre(I,1))"]


def cases(rng, tier):
    big = tier != "quick"
    for s in ELS:
        for kind in ("tensor", "flat", "single", "runtime", "joined", "separated"):
            yield "tabulate", {"el": s, "kind": kind, "order": rng.choice([0, 1, 2]), "seed": rng.randrange(10**6)}
    for s, o in (("TPE(P(I,4),P(I,3))", 4), ("TPE(P(T,3),P(I,4))", 3), ("FD(TPE(P(I,3),P(I,4)))", 4), ("TPE(P(I,3),DG(I,1),P(I,3))", 3)):
        for kind in ("tensor", "flat", "single"):
            yield "tabulate", {"el": s, "kind": kind, "order": o, "seed": rng.randrange(10**6)}
    for s in DUALS:
        yield "dual", {"el": s}
    for s in ELS:
        yield "order_keys", {"el": s, "order": rng.choice([1, 2])}
    for _ in range(30 if not big else 500):
        k = rng.choice(["tpe2", "tpe3", "tpet", "flat2", "flat3"])
        f = {"tpe2": lambda: f"TPE({rand_interval(rng)},{rand_interval(rng)})", "tpe3": lambda: f"TPE({rand_interval(rng)},{rand_interval(rng)},{rand_interval(rng)})",
             "tpet": lambda: f"TPE({rand_tri(rng)},{rand_interval(rng)})", "flat2": lambda: f"FD(TPE({rand_interval(rng)},{rand_interval(rng)}))",
             "flat3": lambda: f"FD(TPE({rand_interval(rng)},{rand_interval(rng)},{rand_interval(rng)}))"}[k]
        yield "tabulate", {"el": f(), "kind": rng.choice(["tensor", "flat", "single", "runtime", "joined", "separated"]), "order": rng.choice([0, 1, 2, 3]), "seed": rng.randrange(10**6)}


def product_of(e):
    return e.product if isinstance(e, finat.FlattenedDimensions) else e


def all_entities(e):
    """(entity as passed to e, product entity)"""
    if isinstance(e, finat.FlattenedDimensions):
        un = compute_unflattening_map(e.product.cell.get_topology())
        return list(un.items())
    return [((d, i), (d, i)) for d, es in e.cell.get_topology().items() for i in es]


def decode(tpe, ent):
    """the factor entities of a product entity: entities of the product are numbered lexicographically, last factor fastest"""
    d, n = ent
    tops = [sorted(f.cell.get_topology()[x]) for f, x in zip(tpe.factors, d)]
    return [(x, i) for x, i in zip(d, list(itertools.product(*tops))[n])]


def factor_points(tpe, fents, rng, n):
    return [rand_points(f.cell.construct_subelement(d), rng, n) for f, (d, i) in zip(tpe.factors, fents)]


def spec_tables(f, order, pts, ent):
    """{alpha: (npts, index_shape..., value_shape...)} of one factor at the given points"""
    if isinstance(f, finat.FlattenedDimensions):
        un = compute_unflattening_map(f.product.cell.get_topology())
        return spec_tables(f.product, order, pts, un[ent])
    if isinstance(f, finat.TensorProductElement):
        fents = decode(f, ent)
        widths = [x.cell.construct_subelement(d).get_spatial_dimension() for x, (d, i) in zip(f.factors, fents)]
        cuts = np.cumsum([0] + widths)
        tabs = [spec_tables(x, order, pts[:, a:b], en) for x, a, b, en in zip(f.factors, cuts, cuts[1:], fents)]
        return combine(f, tabs, order, same_points=True)
    return tabulate(f, order, PointSet(pts), ent, flatten=False)


def combine(tpe, tabs, order, same_points):
    """product over the factors; same_points: all factors share the point axis, otherwise the points are the lexicographic product"""
    dims = [f.cell.get_spatial_dimension() for f in tpe.factors]
    cuts = np.cumsum([0] + dims)
    out = {}
    for o in range(order + 1):
        for al in mis(sum(dims), o):
            cur, nb, nv = None, [], []
            for f, t, a, b in zip(tpe.factors, tabs, cuts, cuts[1:]):
                arr = t[tuple(al[a:b])]
                if arr is None:
                    cur = None
                    break
                npts = arr.shape[0]
                bi = int(np.prod(f.index_shape, dtype=int))
                arr = arr.reshape(npts, bi, -1)
                if cur is None:
                    cur = arr
                elif same_points:
                    cur = np.einsum("pbv,pcw->pbcvw", cur, arr).reshape(npts, cur.shape[1] * bi, -1)
                else:
                    cur = np.einsum("pbv,qcw->pqbcvw", cur, arr).reshape(cur.shape[0] * npts, cur.shape[1] * bi, -1)
            if cur is not None:
                ish = tuple(x for f in tpe.factors for x in f.index_shape)
                vsh = tuple(x for f in tpe.factors for x in f.value_shape)
                cur = cur.reshape((cur.shape[0],) + ish + vsh)
            out[al] = cur
    return out


def check_tabulate(el, kind, order, seed):
    e = element(el)
    tpe = product_of(e)
    rng = sd(seed)
    for ent, pent in all_entities(e) + [(None, None)]:
        if pent is None:
            pent = ((tuple(f.cell.get_dimension() for f in tpe.factors)), 0)
        fents = decode(tpe, pent)
        o = order
        while True:
            try:
                if kind == "tensor":
                    fp = [rand_points(f.cell.construct_subelement(d), rng, 2 + i) for i, (f, (d, _)) in enumerate(zip(tpe.factors, fents))]
                    got = tabulate(e, o, TensorPointSet([PointSet(p) for p in fp]), ent, flatten=False)
                    want = combine(tpe, [spec_tables(f, o, p, x) for f, p, x in zip(tpe.factors, fp, fents)], o, same_points=False)
                elif kind in ("joined", "separated"):
                    # tensor point sets with another number of factors than the element
                    widths = [f.cell.construct_subelement(d).get_spatial_dimension() for f, (d, _) in zip(tpe.factors, fents)]
                    cuts = np.cumsum([0] + widths)
                    if kind == "joined":
                        sets = [np.hstack(factor_points(tpe, fents, rng, 3))]
                    else:
                        sets = [np.array([[0.05 + 0.25 * rng.random()] for _ in range(2 + (i == 0))]) for i in range(cuts[-1])]
                    if not cuts[-1] or len(sets) == len(tpe.factors):
                        got = want = None
                        break
                    pts = np.array([np.concatenate(c) for c in itertools.product(*sets)])
                    fp = [pts[:, a:b] for a, b in zip(cuts, cuts[1:])]
                    got = tabulate(e, o, TensorPointSet([PointSet(x) for x in sets]), ent, flatten=False)
                    want = combine(tpe, [spec_tables(f, o, p, x) for f, p, x in zip(tpe.factors, fp, fents)], o, same_points=True)
                else:
                    fp = factor_points(tpe, fents, rng, 1 if kind == "single" else 3)
                    pts = np.hstack(fp)
                    want = combine(tpe, [spec_tables(f, o, p, x) for f, p, x in zip(tpe.factors, fp, fents)], o, same_points=True)
                    if kind == "flat":
                        got = tabulate(e, o, PointSet(pts), ent, flatten=False)
                    elif kind == "single":
                        got = tabulate(e, o, PointSingleton(pts[0]), ent, flatten=False)
                    else:
                        got = tabulate_points(e, o, pts, ent, flatten=False)
                break
            except (NotImplementedError, TypeError, ValueError) as ex:
                # a factor that cannot be tabulated there (the same error must come from the factor itself)
                if any(_fails(f, o, p, x, kind) for f, p, x in zip(tpe.factors, fp, fents)):
                    got = want = None
                    break
                raise
        if want is None:
            continue
        require(set(got) == set(want), f"derivative multi-indices {sorted(got)} expected {sorted(want)}")
        for al in want:
            if want[al] is None:
                require(got[al] is None, "failure expected")
                continue
            close(got[al], want[al], f"{kind} table on {ent}, derivative {al}", 1e-7)


def _fails(f, o, p, x, kind):
    try:
        if kind == "runtime":
            tabulate_points(f, o, p, x)
        else:
            tabulate(f, o, PointSet(p), x)
        return False
    except Exception:
        return True


def check_order_keys(el, order):
    e = element(el)
    tpe = product_of(e)
    rng = sd(order)
    pts = np.hstack(factor_points(tpe, [(f.cell.get_dimension(), 0) for f in tpe.factors], rng, 2))
    got = e.basis_evaluation(order, PointSet(pts))
    d = e.cell.get_spatial_dimension()
    require(set(got) == {a for o in range(order + 1) for a in mis(d, o)}, f"derivatives {sorted(got)}")


def numeric_dual(e):
    """(array (nbasis, npoints, value...), points) of a dual basis"""
    Q, x = e.dual_basis
    arr = evalgem(Q, x.indices)
    npts = int(np.prod([i.extent for i in x.indices], dtype=int))
    arr = arr.reshape((npts,) + tuple(Q.shape))
    return arr, np.asarray(x.points), Q, x


def check_dual(el):
    e = element(el)
    tpe = product_of(e)
    arr, pts, Q, x = numeric_dual(e)
    require(isinstance(x, TensorPointSet), "the dual points form a tensor point set")
    parts = [numeric_dual(f) for f in tpe.factors]
    require(len(x.factors) == len(parts), "one point factor per element factor")
    nbs = [int(np.prod(f.index_shape, dtype=int)) for f in tpe.factors]
    want = None
    for (a, p, q, _), f, nb in zip(parts, tpe.factors, nbs):
        a = a.reshape(a.shape[0], nb, -1)
        want = a if want is None else np.einsum("pbv,qcw->pqbcvw", want, a).reshape(want.shape[0] * a.shape[0], want.shape[1] * nb, -1)
    close(arr.reshape(want.shape), want, "dual weights are the product of the factors'")
    require(tuple(Q.shape) == tuple(e.index_shape) + tuple(e.value_shape), f"dual basis shape {Q.shape}")
    wp = np.array([np.concatenate(c) for c in itertools.product(*[p for _, p, _, _ in parts])])
    close(pts, wp, "dual points")
