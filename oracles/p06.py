"""P06: the symbolic tabulation re-expresses the reference element exactly."""
from .common import *
from finat.point_set import PointSet, PointSingleton, TensorPointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet

MORE = ["Bernstein(I,2)", "Bernstein(K,2)", "Bubble(K,4)", "CrouzeixRaviart(T,3)", "P(K,4)", "P(T,3,variant='spectral')", "DG(T,2,variant='spectral')", "P(T,2,variant='alfeld')", "DG(T,1,variant='alfeld')", "P(I,2,variant='iso(2)')",
        "RaviartThomas(K,2)", "Nedelec(K,2)", "BrezziDouglasMarini(K,1)", "NedelecSecondKind(T,2)", "Regge(K,0)", "Regge(T,2)", "HellanHerrmannJohnson(T,2)", "HellanHerrmannJohnson(K,0)", "KongMulderVeldhuizen(T,3)",
        "DiscontinuousTaylor(I,2)", "Serendipity(quad,1)", "Serendipity(quad,4)", "Serendipity(hexa,2)", "DPC(quad,1)", "DPC(hexa,1)", "BrezziDouglasMariniCubeEdge(quad,2)", "TrimmedSerendipityEdge(quad,2)", "TrimmedSerendipityDiv(hexa,1)" , "TrimmedSerendipityCurl(hexa,1)",
        "GopalakrishnanLedererSchoberlFirstKind(K,1)", "Real(I,0)", "GaussLobattoLegendre(I,4)", "GaussLegendre(I,3)", "P(I,4)", "DG(K,2)", "HDivTrace(K,0)", "HDivTrace(T,2)", "FacetBubble(K,3)", "FDMHermite(I,4)", "FDMQuadrature(I,4)", "Legendre(K,1)", "ArnoldQin(T,2)"]


# family, cell, degree, variant: the element of that name in the reference library is the reference element
LIBRARY = [("Regge", "T", 0, None), ("Regge", "T", 1, "point"), ("HellanHerrmannJohnson", "T", 1, None), ("HellanHerrmannJohnson", "T", 1, "point"), ("GopalakrishnanLedererSchoberlFirstKind", "T", 1, None),
           ("GopalakrishnanLedererSchoberlSecondKind", "T", 1, None), ("Bernstein", "T", 2, None), ("Bernstein", "K", 1, None), ("Bubble", "T", 3, None), ("Bubble", "I", 3, None), ("FacetBubble", "T", 2, None),
           ("FacetBubble", "K", 3, None), ("CrouzeixRaviart", "T", 1, None), ("CrouzeixRaviart", "T", 3, None), ("Lagrange", "T", 3, "equispaced"), ("Lagrange", "T", 3, "spectral"), ("Lagrange", "T", 4, "chebyshev"),
           ("Lagrange", "I", 5, None), ("Lagrange", "T", 1, "alfeld"), ("KongMulderVeldhuizen", "T", 2, None), ("KongMulderVeldhuizen", "T", 4, None), ("KongMulderVeldhuizen", "K", 2, None),
           ("DiscontinuousLagrange", "T", 3, "equispaced"), ("DiscontinuousLagrange", "T", 2, "spectral"), ("DiscontinuousLagrange", "K", 1, None), ("Serendipity", "quad", 3, None), ("Serendipity", "hexa", 2, None),
           ("DPC", "quad", 2, None), ("DPC", "hexa", 1, None), ("DiscontinuousTaylor", "T", 2, None), ("DiscontinuousTaylor", "I", 1, None), ("RaviartThomas", "T", 2, None), ("RaviartThomas", "T", 2, "point"),
           ("RaviartThomas", "K", 2, "integral"), ("TrimmedSerendipityFace", "quad", 2, None), ("TrimmedSerendipityEdge", "quad", 2, None), ("TrimmedSerendipityDiv", "hexa", 2, None),
           ("TrimmedSerendipityCurl", "hexa", 1, None), ("BrezziDouglasMarini", "T", 2, None), ("BrezziDouglasMarini", "T", 2, "point"), ("BrezziDouglasMariniCubeEdge", "quad", 2, None),
           ("BrezziDouglasMariniCubeFace", "quad", 2, None), ("BrezziDouglasFortinMarini", "T", 2, None), ("Nedelec", "T", 2, None), ("Nedelec", "K", 2, "point"), ("Nedelec", "T", 3, "integral(1)"),
           ("NedelecSecondKind", "T", 2, None), ("NedelecSecondKind", "K", 1, "point"), ("GaussLobattoLegendre", "I", 4, None), ("GaussLegendre", "I", 3, None), ("GaussLobattoLegendre", "T", 3, None),
           ("Legendre", "I", 3, None), ("Legendre", "T", 2, "integral"), ("IntegratedLegendre", "I", 3, None), ("IntegratedLegendre", "T", 3, None), ("FDMLagrange", "I", 4, None), ("FDMDiscontinuousLagrange", "I", 3, None),
           ("FDMQuadrature", "I", 3, None), ("FDMBrokenH1", "I", 3, None), ("FDMBrokenL2", "I", 2, None), ("FDMBrokenL2", "I", 0, None), ("FDMHermite", "I", 4, None), ("HDivTrace", "T", 2, None)]


def cases(rng, tier):
    for s in SIMPLE + MORE:
        for order in ((1, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
            if tier == "quick" and ("hexa" in s or "(K" in s) and order > 2:
                order = 2
            yield "table", {"el": s, "order": order, "seed": rng.randrange(10**6)}
        yield "runtime", {"el": s, "order": rng.choice([0, 1]) if tier == "quick" and not ("hexa" in s or "(K,3" in s or "(K,4" in s) else 0, "seed": rng.randrange(10**6)}
    for k in (1, 2, 3, 4, 5):
        for o in (0, 1):
            yield "spectral", {"el": f"GaussLobattoLegendre(I,{k})", "order": o}
            yield "spectral", {"el": f"GaussLegendre(I,{k-1})", "order": o}
    for s in ("P(T,2)", "RaviartThomas(T,1)", "TPE(P(I,1),P(I,2))"):
        yield "discontinuous", {"el": s, "order": 1, "seed": 5}
    for name, c, k, v in LIBRARY:
        yield "family", {"name": name, "cell": c, "degree": k, "variant": v}
    for c, n in (("I", 4), ("T", 3), ("K", 2), ("TPC(I,I)", 3)):
        yield "quadrature", {"cell": c, "degree": n}


def check_family(name, cell, degree, variant):
    """the element of a family against the one of that name which the reference library builds"""
    c = NS[cell]
    kw = {} if variant is None else {"variant": variant}
    try:
        want = getattr(FIAT, name)(c, degree, **kw)
    except (ValueError, NotImplementedError):
        return
    e = getattr(finat, name)(c, degree, **kw)
    require(e.space_dimension() == want.space_dimension() and tuple(e.value_shape) == tuple(want.value_shape()), "dimension or value shape")
    ent = (c.get_dimension(), 0)
    if name == "HDivTrace":
        ent = (1, 0)
    pts = rand_points(c.construct_subelement(ent[0]), sd(degree), 4)
    order = 0 if name == "HDivTrace" else 1
    got, ref = tabulate(e, order, PointSet(pts), ent), fiat_tables(want, order, pts, ent)
    require(set(got) == set(ref), "derivatives")
    for a in ref:
        if ref[a] is not None:
            close(np.asarray(got[a]).reshape(ref[a].shape), ref[a], f"derivative {a}", 1e-8)


def fiat_tables(fe, order, pts, ent):
    """{alpha: (npts, nb, value...)} from the reference element itself"""
    r = fe.tabulate(order, pts, ent)
    out = {}
    for a, t in r.items():
        out[a] = None if isinstance(t, Exception) else np.moveaxis(np.asarray(t).reshape((fe.space_dimension(),) + tuple(fe.value_shape()) + (len(pts),)), -1, 0)
    return out


def compare(got, want, msg, tol=1e-8):
    require(set(got) == set(want), f"{msg}: derivative multi-indices {sorted(got)} expected {sorted(want)}")
    for a in want:
        if want[a] is None:
            require(got[a] is None, f"{msg}: failure node expected")
        else:
            scale = max(1.0, float(np.max(np.abs(want[a]))) if want[a].size else 1.0)
            require(got[a] is not None, f"{msg}: unexpected failure node")
            close(got[a] / scale, want[a] / scale, f"{msg} derivative {a}", tol)


def check_table(el, order, seed):
    e = element(el)
    fe = e._element
    rng = sd(seed)
    for ent in [None] + cell_entities(e.cell):
        cell = e.cell.construct_subelement(ent[0]) if ent else e.cell
        pts = rand_points(cell, rng, 4)
        sets = [PointSet(pts), PointSingleton(pts[0])]
        if pts.shape[1] >= 2 and "quad" in el:
            sets.append(TensorPointSet([PointSet(pts[:2, :1]), PointSet(pts[:3, 1:])]))
        for ps in sets:
            try:
                want = fiat_tables(fe, order, ps.points, ent)
            except Exception:
                continue
            if any(w is not None and np.isnan(w).any() for w in want.values()):
                continue          # the reference element is not defined there
            got = tabulate(e, order, ps, ent)
            compare(got, want, f"{type(ps).__name__} on {ent}")
            d = e.cell.get_spatial_dimension()
            require(set(got) == {a for o in range(order + 1) for a in mis(d, o)}, f"multi-indices {sorted(got)}")


def check_runtime(el, order, seed):
    e = element(el)
    fe = e._element
    rng = sd(seed)
    for ent in [None] + cell_entities(e.cell):
        cell = e.cell.construct_subelement(ent[0]) if ent else e.cell
        pts = rand_points(cell, rng, 2)
        try:
            want = fiat_tables(fe, order, pts, ent or (e.cell.get_dimension(), 0))
            if any(w is not None and np.isnan(w).any() for w in want.values()):
                continue
            fe.tabulate(order, [__import__("sympy").symbols("X Y Z")[:pts.shape[1]]], ent or (e.cell.get_dimension(), 0))
        except Exception:
            continue      # the reference element has no symbolic tabulation there
        if pts.shape[1] == 0:
            got = {}
            for a, x in e.point_evaluation(order, gem.Zero((0,)), ent).items():
                if isinstance(x, gem.gem.Failure):
                    got[a] = None
                    continue
                r = evalgem(x)
                got[a] = np.broadcast_to(r.reshape((1,) + r.shape), (2,) + r.shape)
        else:
            got = tabulate_points(e, order, pts, ent)
        compare(got, want, f"run-time on {ent}", 1e-6)


def check_spectral(el, order):
    e = element(el)
    nodes = np.array([list(n.get_point_dict())[0] for n in e._element.dual_basis()])
    n = e.space_dimension()
    for cls in (PointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet):
        if cls is not PointSet and (cls is GaussLobattoLegendrePointSet) != ("Lobatto" in el):
            continue
        for pts in (nodes, nodes[:1], np.vstack([nodes, [[0.37]]])):
            ps = cls(pts)
            got = tabulate(e, order, ps)
            compare(got, fiat_tables(e._element, order, pts, (1, 0)), f"{cls.__name__} with {len(pts)} points")
    # a spectral point set of the other kind with as many points is not the set of nodes
    oth = element((("GaussLegendre" if "Lobatto" in el else "GaussLobattoLegendre") + f"(I,{n - 1})")) if n > 1 else None
    if oth is not None:
        pts = np.array([list(x.get_point_dict())[0] for x in oth._element.dual_basis()])
        ps = (GaussLegendrePointSet if "Lobatto" in el else GaussLobattoLegendrePointSet)(pts)
        compare(tabulate(e, order, ps), fiat_tables(e._element, order, pts, (1, 0)), "other spectral points")
    q = finat.quadrature.make_quadrature(e.cell, 2 * n - 1)
    compare(tabulate(e, order, q.point_set), fiat_tables(e._element, order, q.point_set.points, (1, 0)), "Gauss rule of as many points")


def check_discontinuous(el, order, seed):
    e = element(el)
    d = finat.DiscontinuousElement(e)
    pts = rand_points(e.cell, sd(seed), 3)
    compare(tabulate(d, order, PointSet(pts)), tabulate(e, order, PointSet(pts)), "discontinuous")
    compare(tabulate_points(d, order, pts), tabulate_points(e, order, pts), "discontinuous run-time")
    for ent in cell_entities(e.cell):
        p = PointSet(rand_points(e.cell.construct_subelement(ent[0]), sd(seed), 2))
        compare(tabulate(d, order, p, ent), tabulate(e, order, p, ent), f"discontinuous on {ent}")


def check_quadrature(cell, degree):
    c = eval(cell, dict(NS))
    e = finat.make_quadrature_element(c, degree)
    ps = finat.quadrature.make_quadrature(c, degree).point_set
    t, = tabulate(e, 0, ps).values()
    close(t, np.eye(e.space_dimension()), "quadrature element")
