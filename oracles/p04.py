"""P04: enriched and mixed elements concatenate their sub-elements exactly."""
from .common import *
from finat.point_set import PointSet, PointSingleton, TensorPointSet

ELS = [s for s in ENRS if s.startswith("ENR")] + MIXS[:-1] + [
    "ENR(P(T,1),V(P(T,1),1)) " .strip() if False else "ENR(P(I,1),DG(I,0),Bubble(I,2))", "MIX(P(I,1),DG(I,0),Bubble(I,2),P(I,3))", "MIX(V(P(T,1),3),P(T,2))",
    "MIX(P(T,2),V(P(T,1),3))", "MIX(P(T,1),RaviartThomas(T,1),V(DG(T,0),2,2))", "ENR(TPE(P(I,1),P(I,2)),TPE(DG(I,1),DG(I,0)),TPE(Bubble(I,2),P(I,1)))",
    "MIX(Regge(T,0),HellanHerrmannJohnson(T,0))", "ENR(V(P(T,1),2,3),V(DG(T,0),2,3))", "ENR(VT(P(T,1),2),V(Bubble(T,3),2))", "MIX(HDIV(TPE(P(I,1),DG(I,0))),TPE(DG(I,0),DG(I,1)))",
    "MIX(MIX(P(T,1),DG(T,0)),P(T,2))", "MIX(DISC(P(T,1)),P(T,1))", "ENR(FD(TPE(P(I,1),P(I,1))),FD(TPE(Bubble(I,2),Bubble(I,2))))"]


def cases(rng, tier):
    for s in ELS:
        for kind in ("set", "single", "runtime", "entities"):
            yield "concat", {"el": s, "kind": kind, "order": rng.choice([0, 1, 2, 3]) if kind != "entities" else 0, "seed": rng.randrange(10**6)}
        yield "numbering", {"el": s}
    for s in ("P(T,1)", "RaviartThomas(T,1)", "TPE(P(I,1),P(I,2))", "V(P(T,1),2)"):
        yield "single", {"el": s}
    yield "assoc", {"els": ["P(T,1)", "Bubble(T,3)", "DG(T,0)"]}
    yield "assoc", {"els": ["P(I,1)", "DG(I,0)", "Bubble(I,2)", "P(I,2)"]}
    yield "nodal", {"els": ["P(T,1)", "Bubble(T,3)"]}
    yield "nodal", {"els": ["P(I,1)", "Bubble(I,3)"]}
    for _ in range(20 if tier == "quick" else 300):
        r = rng.choice([rand_tri, rand_interval])
        n = rng.choice([2, 3, 4])
        subs = [r(rng) for _ in range(n)]
        if rng.random() < .5:
            subs = [f"V({x},{rand_shape(rng)})" if rng.random() < .5 else x for x in subs]
            s = "MIX(" + ",".join(subs) + ")"
        else:
            s = "ENR(" + ",".join(subs) + ")"
        yield "concat", {"el": s, "kind": rng.choice(["set", "single", "runtime"]), "order": rng.choice([0, 1]), "seed": rng.randrange(10**6)}


def parts(e):
    """[(sub-element, offset of its value block or None)]"""
    out, off = [], 0
    total = None
    if e.is_mixed:
        for m in e.elements:
            out.append((m.element, off))
            off += int(np.prod(m.element.value_shape, dtype=int))
        total = off
    else:
        out = [(p, None) for p in e.elements]
    return out, total


def spec(e, tab):
    """tab(sub) -> tables (npts, nb, value...); returns the tables of the enriched element"""
    ps, total = parts(e)
    tabs = [(tab(p), p, off) for p, off in ps]
    out = {}
    for al in tabs[0][0]:
        blocks = []
        for t, p, off in tabs:
            a = t[al]
            a = a.reshape(a.shape[0], int(np.prod(p.index_shape, dtype=int)), -1)
            if off is not None:
                w = np.zeros(a.shape[:2] + (total,))
                w[:, :, off:off + a.shape[2]] = a
                a = w
            blocks.append(a)
        r = np.concatenate(blocks, axis=1)
        vs = (total,) if total is not None else tuple(e.elements[0].value_shape)
        out[al] = r.reshape(r.shape[:2] + vs)
    return out


def check_concat(el, kind, order, seed):
    e = element(el)
    rng = sd(seed)
    ps_, total = parts(e)
    require(tuple(e.index_shape) == (sum(p.space_dimension() for p, _ in ps_),), f"index shape {e.index_shape}")
    require(tuple(e.value_shape) == ((total,) if total is not None else tuple(ps_[0][0].value_shape)), f"value shape {e.value_shape}")
    if kind == "entities":
        for ent in cell_entities(e.cell):
            ps = PointSet(rand_points(e.cell.construct_subelement(ent[0]), rng, 2))
            try:
                want = spec(e, lambda p: tabulate(p, 0, ps, ent))
            except Exception:
                continue
            got = tabulate(e, 0, ps, ent)
            for al in want:
                close(got[al], want[al], f"table on {ent}")
        return
    pts = rand_points(e.cell, rng, 1 if kind == "single" else 3)
    if kind == "runtime":
        got = tabulate_points(e, order, pts)
        want = spec(e, lambda p: tabulate(p, order, PointSet(pts)))
    else:
        ps = PointSet(pts) if kind == "set" else PointSingleton(pts[0])
        got = tabulate(e, order, ps)
        want = spec(e, lambda p: tabulate(p, order, ps))
    require(set(got) == set(want), "derivatives")
    for al in want:
        close(got[al], want[al], f"derivative {al}", 1e-7)


def check_numbering(el):
    """the numbers of a part's basis functions follow those of the parts before it, and the parts keep theirs"""
    e = element(el)
    fresh = [p for p, _ in parts(element(el))[0]]
    for name in ("entity_dofs", "entity_support_dofs"):
        try:
            want = {d: {k: [] for k in es} for d, es in e.cell.get_topology().items()}
            off = 0
            for p in fresh:
                for d, es in getattr(p, name)().items():
                    for k, v in es.items():
                        want[d][k] = want[d][k] + [off + x for x in v]
                off += p.space_dimension()
        except (NotImplementedError, TypeError):
            continue
        for _ in range(2):
            require(getattr(e, name)() == want, f"{name} of the combination: {getattr(e, name)()} expected {want}")
        for (p, _), f in zip(parts(e)[0], fresh):
            require(getattr(p, name)() == getattr(f, name)(), f"{name} of a part changed")
        require(getattr(element(el), name)() == want, f"{name} of another element of the same parts")


def check_single(el):
    e = element(el)
    r = finat.EnrichedElement([e])
    require(r is e, "a one-element enrichment is the element")


def check_assoc(els):
    es = [element(s) for s in els]
    E = finat.EnrichedElement
    flat = E(es)
    require(E([es[0], E(es[1:])]).elements == flat.elements and E([E(es[:-1]), es[-1]]).elements == flat.elements, "nesting is associative")
    require(tuple(flat.elements) == tuple(es), "element order")


def check_nodal(els):
    es = [element(s) for s in els]
    n = finat.NodalEnrichedElement(es)
    require(n.space_dimension() == sum(x.space_dimension() for x in es), "dimension")
    pts = rand_points(n.cell, sd(3), 20)
    a = tabulate(n, 0, PointSet(pts))
    b = np.concatenate([list(tabulate(x, 0, PointSet(pts)).values())[0] for x in es], axis=1)
    a = list(a.values())[0]
    c, res, rk, _ = np.linalg.lstsq(b, a, rcond=None)
    close(b @ c, a, "nodal enrichment spans the sum of the spaces")
    require(np.linalg.matrix_rank(a) == n.space_dimension(), "independent")
