"""P05: H(div)/H(curl) product elements embed factor values consistently."""
from .common import *
from finat.point_set import PointSet
from .p02 import numeric_dual

# (kind, form degrees, mapping of the wrapped element): matrix from (flattened) wrapped value to embedded value
ELS = HDC + ["HDIV(TPE(P(I,3),DG(I,2)))", "HCURL(TPE(P(T,1),DG(I,0)))", "HDIV(TPE(Nedelec(T,2),DG(I,1)))", "HDIV(TPE(DG(T,0),P(I,2)))", "HCURL(TPE(BrezziDouglasMarini(T,1),P(I,2)))",
             "HCURL(TPE(NedelecSecondKind(T,1),P(I,1)))", "HDIV(TPE(NedelecSecondKind(T,1),DG(I,0)))", "HCURL(TPE(P(I,1),DG(I,1)))",
             "HDIV(TPE(ENR(HDIV(TPE(P(I,1),DG(I,0))),HDIV(TPE(DG(I,0),P(I,1)))),DG(I,0)))", "HCURL(TPE(ENR(HCURL(TPE(P(I,1),DG(I,0))),HCURL(TPE(DG(I,0),P(I,1)))),P(I,1)))"]
BAD = [("HDIV", "TPE(P(I,1),P(I,1))"), ("HDIV", "TPE(DG(I,1),DG(I,1))"), ("HCURL", "TPE(P(I,1),P(I,1))"), ("HCURL", "TPE(DG(I,0),DG(I,0))"), ("HDIV", "TPE(P(T,1),DG(I,0))"),
       ("HDIV", "TPE(P(T,1),P(I,1))"), ("HCURL", "TPE(RaviartThomas(T,1),DG(I,0))"), ("HCURL", "TPE(DG(T,0),P(I,1))"), ("HDIV", "TPE(RaviartThomas(T,1),P(I,1))"), ("HDIV", "TPE(Regge(T,0),P(I,1))"), ("HCURL", "TPE(Regge(T,0),P(I,1))")]


def spec_matrix(e):
    w = e.wrappee
    ks = tuple(f.formdegree for f in w.factors)
    dim = w.cell.get_spatial_dimension()
    m = w.mapping
    if isinstance(e, finat.HDivElement):
        return {(0, 1): [[-1], [0]], (1, 0): [[0], [1]], (2, 0): [[0], [0], [1]]}.get(ks) if ks != (1, 1) else \
            {"contravariant piola": [[1, 0], [0, 1], [0, 0]], "covariant piola": [[0, 1], [-1, 0], [0, 0]]}[m]
    if m == "affine":
        return {(1, 0): [[1], [0]], (0, 1): [[0]] * (dim - 1) + [[1]]}[ks]
    return {"covariant piola": [[1, 0], [0, 1], [0, 0]], "contravariant piola": [[0, -1], [1, 0], [0, 0]]}[m]


def cases(rng, tier):
    for s in ELS:
        for o in ((0, 1) if tier == "quick" else (0, 1, 2)):
            yield "embed", {"el": s, "order": o, "seed": rng.randrange(10**6)}
        yield "delegation", {"el": s}
        if "ENR" not in s:
            yield "dual", {"el": s}
    for k, s in BAD:
        yield "rejected", {"kind": k, "el": s}


def check_embed(el, order, seed):
    e = element(el)
    w = e.wrappee
    A = np.array(spec_matrix(e), dtype=float)
    rng = sd(seed)
    d = w.cell.get_spatial_dimension()
    require(tuple(e.value_shape) == (d,), "value shape")
    pts = rand_points(e.cell, rng, 3)
    for got, want in [(tabulate(e, order, PointSet(pts)), tabulate(w, order, PointSet(pts))), (tabulate_points(e, order, pts), tabulate_points(w, order, pts))]:
        require(set(got) == set(want), "derivatives")
        for al in want:
            t = want[al]
            t = t.reshape(t.shape[:2] + (-1,))
            close(got[al], np.einsum("dv,pbv->pbd", A, t), f"embedding, derivative {al}", 1e-7)
    for ent in cell_entities(e.cell):
        ps = PointSet(rand_points(e.cell.construct_subelement(ent[0]), rng, 2))
        try:
            want = tabulate(w, 0, ps, ent)
        except Exception:
            continue
        got = tabulate(e, 0, ps, ent)
        for al in want:
            t = want[al].reshape(want[al].shape[:2] + (-1,))
            close(got[al], np.einsum("dv,pbv->pbd", A, t), f"embedding on {ent}")


def check_delegation(el):
    e = element(el)
    w = e.wrappee
    require(e.entity_dofs() == w.entity_dofs(), "entity_dofs")
    require(e.entity_closure_dofs() == w.entity_closure_dofs(), "closure")
    require(e.space_dimension() == w.space_dimension() and tuple(e.index_shape) == tuple(w.index_shape), "dimension")
    require(e.cell is w.cell or e.cell == w.cell, "cell")
    require(e.degree == w.degree, "degree")
    d = e.cell.get_spatial_dimension()
    hdiv = isinstance(e, finat.HDivElement)
    require(e.formdegree == (d - 1 if hdiv else 1), "form degree")
    require(e.mapping == ("contravariant piola" if hdiv else "covariant piola"), "mapping")


def check_dual(el):
    e = element(el)
    A = np.array(spec_matrix(e), dtype=float)
    try:
        wa, wp, _, _ = numeric_dual(e.wrappee)
    except NotImplementedError:
        return
    a, p, Q, x = numeric_dual(e)
    close(p, wp, "dual points")
    nb = len(e.index_shape)
    wa = wa.reshape(wa.shape[:1 + nb] + (-1,))
    close(a, np.einsum("dv,...v->...d", A, wa), "dual weights")


def check_rejected(kind, el):
    w = element(el)
    try:
        NS[kind](w)
    except (ValueError, TypeError):
        return
    except AssertionError as ex:
        raise Broken(f"rejected with an assertion instead of an error: {ex}")
    raise Broken("a product whose form degree does not fit was accepted")
