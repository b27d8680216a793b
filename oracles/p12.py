"""P12: restriction keeps exactly the basis functions of the chosen domain."""
from .common import *
from finat.point_set import PointSet

DOMAINS = ["interior", "facet", "face", "edge", "vertex"]
EXTRA = ["P(T,3)", "P(K,4)", "P(I,3)", "DG(T,2)", "DG(I,1)", "Legendre(T,2)", "P(T,3,variant='spectral')", "TPE(P(I,3),P(I,2))", "TPE(P(T,3),P(I,3))", "TPE(P(I,3),P(I,3),P(I,2))", "FD(TPE(P(I,3),P(I,3)))", "FD(TPE(P(I,3),P(I,3),P(I,3)))",
         "FD(TPE(FD(TPE(P(I,3),P(I,2))),P(I,3)))", "FD(ENR(HDIV(TPE(P(I,2),DG(I,1))),HDIV(TPE(DG(I,1),P(I,2)))))", "FD(ENR(HCURL(TPE(P(I,2),DG(I,1))),HCURL(TPE(DG(I,1),P(I,2)))))", "V(P(T,3),2)", "VT(P(T,3),2)", "V(FD(TPE(P(I,3),P(I,3))),2,2)",
         "MIX(P(T,3),DG(T,1))", "MIX(V(P(T,3),2),P(T,2))", "MIX(RaviartThomas(T,2),DG(T,1))", "MIX(TPE(P(I,2),P(I,3)),TPE(DG(I,0),P(I,2)))", "ENR(P(T,1),Bubble(T,3))", "DISC(TPE(P(I,2),P(I,2)))", "DISC(P(T,2))", "NEN(P(T,2),Bubble(T,3))",
         "TPE(DG(T,1),P(I,2))", "TPE(RaviartThomas(T,2),P(I,2))", "HDivTrace(T,1)", "HDivTrace(K,1)", "TPE(TPE(P(I,2),P(I,3)),P(I,2))", "TPE(ENR(P(I,1),Bubble(I,2)),P(I,3))", "TPE(P(I,2),DG(I,1),P(I,3))", "Serendipity(quad,4)", "TPE(P(K,4),P(I,2))"]


def cases(rng, tier):
    els = list(dict.fromkeys(SIMPLE + COMPOSITE + EXTRA))
    for s in els:
        for d in DOMAINS:
            yield "restrict", {"el": s, "domain": d, "seed": rng.randrange(10**6)}
    for s in ("Hermite(T,3)", "Argyris(T,5)", "MardalTaiWinther(T,3)", "QE(T,2)", "V(Hermite(T,3),2)", "MIX(Hermite(T,3),P(T,1))", "ENR(Hermite(T,3),P(T,1))", "RTE", "DirectSerendipity(quad,2)", "V(QE(T,2),2)", "TPE(QE(I,1),P(I,1))", "MIX(QE(T,2),P(T,1))"):
        for d in ("interior", "facet", "vertex"):
            yield "rejected", {"el": s, "domain": d}
    for s in ("P(T,3)", "TPE(P(I,3),P(I,3))", "V(P(T,3),2)"):
        yield "bad_domain", {"el": s}
    for _ in range(30 if tier == "quick" else 400):
        yield "restrict", {"el": rand_element(rng, 2), "domain": rng.choice(DOMAINS), "seed": rng.randrange(10**6)}


def total(d):
    return sum(map(total, d)) if isinstance(d, tuple) else d


def target(cell, domain):
    """(lowest, highest) topological dimension of the entities the domain selects"""
    D = cell.get_spatial_dimension()
    if domain == "interior":
        return D, D
    t = {"facet": D - 1, "face": 2, "edge": 1, "vertex": 0}[domain]
    return 0, t


def check_restrict(el, domain, seed):
    e = element(el)
    D = e.cell.get_spatial_dimension()
    lo, hi = target(e.cell, domain)
    if hi > D or D == 0:
        return
    ed = e.entity_dofs()
    want = {(d, k): (list(l) if lo <= total(d) <= hi else []) for d, es in ed.items() for k, l in es.items()}
    keep = [i for l in want.values() for i in l]
    if isinstance(e, finat.fiat_elements.FiatElement):
        try:
            FIAT.RestrictedElement(e._element, restriction_domain=domain)
        except (NotImplementedError, AttributeError):
            # the reference element cannot be restricted: an error, not a result
            try:
                r = finat.RestrictedElement(e, domain)
            except Exception:
                return
            raise Broken(f"restriction returned {type(r).__name__} although the reference element cannot be restricted")
        except ValueError:
            pass
    try:
        r = finat.RestrictedElement(e, domain)
    except ValueError as ex:
        require("empty" in str(ex), f"ValueError: {ex}")
        require(not keep, f"reported as empty, but degrees of freedom {sorted(keep)} live on the {domain} part")
        return
    require(keep, "an empty restriction was not reported")
    rd = r.entity_dofs()
    require({(d, k) for d, es in rd.items() for k in es} == set(want), "entities differ")
    require(r.space_dimension() == len(keep), f"{r.space_dimension()} basis functions, expected {len(keep)}")
    pairs = []
    for (d, k), l in want.items():
        m = list(rd[d][k])
        require(len(m) == len(l), f"{len(m)} degrees of freedom on {(d, k)}, expected {len(l)}")
        pairs += list(zip(m, l))
    require(sorted(p[0] for p in pairs) == list(range(len(keep))), "numbering is not consecutive")
    if isinstance(e, finat.fiat_elements.FiatElement) and isinstance(r, finat.fiat_elements.FiatElement):
        require([p[1] for p in sorted(pairs)] == sorted(keep), "original order not kept")
    require(tuple(r.value_shape) == tuple(e.value_shape), "value shape changed")
    ents = [None]
    if "HDivTrace" in el:
        ents = [(D - 1, 0), (D - 1, 1)]
    for ent in ents:
        cell = e.cell if ent is None else e.cell.construct_subelement(ent[0])
        pts = rand_points(cell, sd(seed), 3)
        for order in (0, 1):
            if order and "HDivTrace" in el:
                continue
            a = tabulate(e, order, PointSet(pts), ent)
            b = tabulate(r, order, PointSet(pts), ent)
            require(set(a) == set(b), "derivatives differ")
            perm = [p[1] for p in sorted(pairs)]
            for al in a:
                if a[al] is None:
                    continue
                close(b[al], a[al][:, perm], f"tabulation of derivative {al}", 1e-8)


def check_rejected(el, domain):
    e = finat.RuntimeTabulated(FIAT.ufc_simplex(1), 2, variant="x", continuous=False) if el == "RTE" else element(el)
    try:
        r = finat.RestrictedElement(e, domain)
    except (NotImplementedError, AssertionError):
        return
    except ValueError:
        # a factor without such functions makes the product empty before the unsupported one is reached
        if el.startswith("TPE"):
            return
        raise
    raise Broken(f"restriction of an unsupported element returned {type(r).__name__}")


def check_bad_domain(el):
    e = element(el)
    for bad in ("corner", "cell", ""):
        try:
            r = finat.RestrictedElement(e, bad)
        except Exception:
            continue
        raise Broken(f"domain {bad!r} returned {type(r).__name__}")
    try:
        finat.RestrictedElement(e, "facet", indices=[0])
    except NotImplementedError:
        return
    raise Broken("indices were not rejected")
