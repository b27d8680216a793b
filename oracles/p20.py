"""P20: closure and support sets of entities are exact."""
from .common import *
from finat.point_set import PointSet

META = {"bounds": "the listed elements and random composites of depth at most 2; vanishing decided at 12 (400 for iso splits) random points per entity, relative threshold 1e-10"}
MACRO = ["P(T,1,variant='alfeld')", "P(T,2,variant='alfeld')", "P(I,1,variant='iso(2)')", "P(T,1,variant='iso(2)')", "P(I,1,variant='iso(4)')", "P(T,1,variant='iso(3)')", "P(T,1,variant='iso(4)')", "P(I,1,variant='iso(6)')",
         "P(T,2,variant='iso(3)')", "TPE(P(I,1,variant='iso(4)'),P(I,2))", "V(P(I,1,variant='iso(4)'),2)", "P(K,1,variant='iso(2)')",
         "P(I,9)", "P(T,7)", "DG(I,9)", "FD(TPE(P(I,6),P(I,6)))", "IntegratedLegendre(I,9)", "Bubble(I,9)", "Bubble(T,8)"]


def cases(rng, tier):
    els = list(dict.fromkeys(SIMPLE + COMPOSITE + ZANY + MACRO + ["QE(T,2)", "QE(I,3)", "TPE(QE(I,2),P(I,1))"]))
    els += [rand_element(rng, 2) for _ in range(60 if tier == "quick" else 800)]
    for s in els:
        yield "closure", {"el": s}
        yield "support", {"el": s, "seed": rng.randrange(10**6)}
        yield "rule", {"el": s}
    yield "rule", {"el": "FD(TPE(P(I,2),FD(TPE(P(I,2),P(I,2)))))"}


def subcells(cell):
    """entity -> all entities in its closure, from the vertices"""
    top = cell.get_topology()
    return {(d, k): [(a, b) for a, es in top.items() for b, w in es.items() if set(w) <= set(v)] for d, es0 in top.items() for k, v in es0.items()}


def check_closure(el):
    e = element(el)
    ed, cl = e.entity_dofs(), e.entity_closure_dofs()
    require({d: set(es) for d, es in cl.items()} == {d: set(es) for d, es in ed.items()}, "entities differ")
    sub = subcells(e.cell)
    for (d, k), ents in sub.items():
        want = sorted(i for a, b in ents for i in ed[a][b])
        require([int(x) for x in cl[d][k]] == want, f"closure of {(d, k)} is {list(cl[d][k])}, expected {want}")
        for a, b in ents:
            require(set(cl[a][b]) <= set(cl[d][k]), f"closure of {(a, b)} is not contained in that of {(d, k)}")


def offered(e):
    try:
        return e.entity_support_dofs()
    except (NotImplementedError, TypeError, AssertionError):  # AssertionError: no geometry for a physically mapped element
        return None


def check_support(el, seed):
    e = element(el)
    if "HDivTrace" in el:
        return
    s = offered(e)
    if s is None:
        require(not plain(e), "support sets of an element with plain tabulation are not reported")
        return
    rng = sd(seed)
    ed = e.entity_dofs()
    require({d: set(es) for d, es in s.items()} == {d: set(es) for d, es in ed.items()}, "entities differ")
    for d, es in ed.items():
        c = e.cell.construct_subelement(d)
        pts = rand_points(c, rng, 400 if "iso" in el else 12)
        if "iso" in el and d == c.get_dimension() and hasattr(c, "vertices"):
            vs = np.array(c.get_vertices())
            pts = np.concatenate([pts, 0.97 * vs + 0.03 * vs.mean(axis=0)])
        for k in es:
            ps = PointSet(pts)
            t, = tabulate(e, 0, ps, (d, k)).values()
            t = np.abs(t.reshape(t.shape[0], t.shape[1], -1)).max(axis=(0, 2))
            want = [i for i, x in enumerate(t) if x > 1e-10]
            got = [int(i) for i in s[d][k]]
            require(got == want, f"support of {(d, k)} is {got}, but the functions that do not vanish there are {want}")


def plain(e):
    """elements that can be tabulated without the geometry of the cell"""
    try:
        e.basis_evaluation(0, PointSet(np.array([[0.1] * e.cell.get_spatial_dimension()])))
        return True
    except Exception:
        return False


def flat(e, what):
    return {(d, k): [int(x) for x in l] for d, es in getattr(e, what)().items() for k, l in es.items()}


def check_rule(el):
    e = element(el)
    for what in ("entity_closure_dofs", "entity_support_dofs"):
        if what == "entity_support_dofs" and (offered(e) is None or "HDivTrace" in el):
            continue
        got = flat(e, what)
        if isinstance(e, finat.EnrichedElement):
            off = np.cumsum([0] + [x.space_dimension() for x in e.elements])
            want = {k: [] for k in got}
            for o, x in zip(off, e.elements):
                for k, l in flat(x, what).items():
                    want[k] += [int(o) + i for i in l]
            require(got == want, f"{what} is not the concatenation of that of the parts")
        elif isinstance(e, finat.TensorProductElement):
            import itertools
            fs = [getattr(f, what)() for f in e.factors]
            n = [f.space_dimension() for f in e.factors]
            for dim in itertools.product(*fs):
                for i, ks in enumerate(itertools.product(*[sorted(f[d]) for f, d in zip(fs, dim)])):
                    want = sorted(int(np.ravel_multi_index(t, n)) for t in itertools.product(*[f[d][k] for f, d, k in zip(fs, dim, ks)]))
                    require(got[dim, i] == want, f"{what} of {(dim, i)} is {got[dim, i]}, expected the product {want}")
        elif isinstance(e, finat.FlattenedDimensions):
            tot = lambda d: sum(map(tot, d)) if isinstance(d, tuple) else d
            want = {}
            cnt = {}
            p = getattr(e.product, what)()
            for d in sorted(p):
                for k in sorted(p[d]):
                    i = cnt.get(tot(d), 0)
                    cnt[tot(d)] = i + 1
                    want[tot(d), i] = [int(x) for x in p[d][k]]
            require(got == want, f"{what} is not that of the product, relabelled")
        elif isinstance(e, finat.TensorFiniteElement):
            b = e.base_element
            n, m = int(np.prod(e._shape)), b.space_dimension()
            for k, l in flat(b, what).items():
                want = sorted([i + c * m for i in l for c in range(n)] if e._transpose else [i * n + c for i in l for c in range(n)])
                require(got[k] == want, f"{what} of {k} is {got[k]}, expected {want}")
        elif hasattr(e, "wrappee") or type(e).__name__ == "MixedSubElement":
            require(got == flat(getattr(e, "wrappee", None) or e.element, what), f"{what} is not that of the wrapped element")
