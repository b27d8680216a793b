"""P19: entity permutations are valid and consistent with the numbering."""
import itertools
import functools
from .common import *

META = {"bounds": "the listed elements and random composites of depth at most 2"}
EXTRA = ["P(T,5)", "P(K,4)", "P(I,6)", "DG(T,4)", "DG(K,3)", "DG(I,4)", "Legendre(I,4)", "TPE(P(I,4),P(I,4))", "TPE(P(I,5),P(I,5),P(I,5))", "TPE(DG(I,3),DG(I,3))", "TPE(P(T,4),P(I,3))", "FD(TPE(P(I,4),P(I,4)))", "FD(TPE(P(I,3),P(I,3),P(I,3)))",
         "FD(TPE(DG(I,2),DG(I,2)))", "ENR(P(I,3),DG(I,2))", "ENR(P(T,3),DG(T,1))", "ENR(P(T,3),ENR(DG(T,2),P(T,4)))", "ENR(TPE(P(I,3),P(I,3)),TPE(DG(I,1),DG(I,1)))", "FD(ENR(TPE(P(I,3),P(I,3)),TPE(DG(I,1),DG(I,1))))",
         "DISC(DG(T,2))", "DISC(Bubble(I,3))", "DISC(Bubble(T,3))", "DISC(TPE(DG(I,1),DG(I,1)))", "DISC(P(T,3))", "HDIV(TPE(P(I,2),DG(I,1)))", "FD(ENR(HDIV(TPE(P(I,2),DG(I,1))),HDIV(TPE(DG(I,1),P(I,2)))))", "TPE(ENR(P(I,2),DG(I,1)),P(I,3))", "TPE(P(I,3),DG(I,1))",
         "TPE(TPE(P(I,3),P(I,2)),P(T,3))", "TPE(FD(TPE(P(I,3),P(I,3))),P(I,3))", "TPE(GaussLobattoLegendre(I,4),GaussLobattoLegendre(I,4))", "P(T,4,variant='spectral')", "NEN(P(T,2),Bubble(T,3))", "CrouzeixRaviart(T,1)", "KongMulderVeldhuizen(T,2)"]


def cases(rng, tier):
    els = list(dict.fromkeys(EXTRA + SIMPLE + COMPOSITE + ZANY))
    for s in els:
        yield "valid", {"el": s}
        yield "rule", {"el": s}
    for _ in range(60 if tier == "quick" else 800):
        s = rand_element(rng, 2)
        yield "valid", {"el": s}
        yield "rule", {"el": s}


def perms(e):
    try:
        return e.entity_permutations
    except NotImplementedError:
        return None
    except RuntimeError as ex:
        if "permut" in str(ex).lower():
            return None
        raise


@functools.lru_cache(None)
def reference(cell, dim):
    """orientation -> permutation of a reference element whose permutations on entities of this dimension are pairwise different"""
    if isinstance(cell, TensorProductCell):
        e = finat.TensorProductElement([ref1(c) for c in cell.cells])
    elif hasattr(cell, "product"):
        e = finat.FlattenedDimensions(finat.TensorProductElement([ref1(c) for c in cell.product.cells]))
    else:
        e = ref1(cell)
    m = e.entity_permutations[dim][0]
    require(len({tuple(p) for p in m.values()}) == len(m), "reference orientations are not distinct")
    inv = {tuple(p): o for o, p in m.items()}
    return m, {(a, b): inv[tuple(m[a][i] for i in m[b])] for a in m for b in m}


def ref1(c):
    if isinstance(c, TensorProductCell):
        return finat.TensorProductElement([ref1(x) for x in c.cells])
    if hasattr(c, "product"):
        return finat.FlattenedDimensions(ref1(c.product))
    d = c.get_spatial_dimension()
    return finat.Lagrange(c, d + 4) if d else finat.DiscontinuousLagrange(c, 0)


def swaps(e):
    """does an exchange of axes exchange unequal factors?"""
    if isinstance(e, finat.TensorProductElement):
        cs = e.cell.cells
        return len(set(cs)) == 1 and len({repr([sorted(f.entity_permutations.items())]) for f in e.factors}) > 1 or any(map(swaps, e.factors))
    if isinstance(e, finat.FlattenedDimensions):
        return swaps(e.product)
    if isinstance(e, finat.EnrichedElement):
        return any(map(swaps, e.elements))
    for a in ("element", "wrappee"):
        if hasattr(e, a):
            return swaps(getattr(e, a))
    return False


def check_valid(el):
    e = element(el)
    p = perms(e)
    if p is None:
        return
    ed = e.entity_dofs()
    require(set(p) == set(ed), f"dimensions {sorted(p)} differ from {sorted(ed)}")
    sw = swaps(e)
    for dim in ed:
        require(set(p[dim]) == set(ed[dim]), f"entities of dimension {dim}")
        ref = None
        if not nested(e):
            try:
                ref, table = reference(e.cell, dim)
            except NotImplementedError:
                pass
        for ent, dofs in ed[dim].items():
            m = p[dim][ent]
            n = len(dofs)
            for o, q in m.items():
                require(sorted(q) == list(range(n)), f"{(dim, ent)} orientation {o}: {list(q)} does not permute the {n} degrees of freedom of the entity")
            o0 = min(m)
            require(o0 == 0 or (isinstance(o0, tuple) and str(o0).replace("(", "").replace(")", "").replace(",", "").replace(" ", "").strip("0") == ""), f"no identity orientation: {sorted(m)}")
            require(list(m[o0]) == list(range(n)), f"{(dim, ent)}: the identity orientation gives {list(m[o0])}")
            if ref is not None:
                require(set(m) == set(ref), f"{(dim, ent)}: orientations {sorted(m)}, expected {sorted(ref)}")
                if sw:
                    continue
                for (a, b), c in table.items():
                    require([m[a][i] for i in m[b]] == list(m[c]), f"{(dim, ent)}: permutations of orientations {a} and {b} do not compose to that of {c}")


def nested(e):
    """is the element built on a product of products, whose orientations are not those of the flat cell?"""
    if isinstance(e, finat.FlattenedDimensions):
        return sorted(e.product.cell.get_topology()) != sorted(e.cell.product.get_topology()) or nested(e.product)
    return any(nested(x) for a in ("element", "wrappee", "base_element") for x in [getattr(e, a, None)] if x is not None) or any(map(nested, getattr(e, "elements", None) or getattr(e, "factors", None) or ()))


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def model(e):
    """permutations from those of the parts; None: the wrapped FIAT element's own"""
    if isinstance(e, finat.EnrichedElement):
        parts = [model(x) for x in e.elements]
        out = {}
        for part in parts:
            for d, es in part.items():
                for k, os in es.items():
                    for o, q in os.items():
                        l = out.setdefault(d, {}).setdefault(k, {}).setdefault(o, [])
                        l.append(list(q))
        return {d: {k: {o: [sum(map(len, ls[:i])) + v for i, l in enumerate(ls) for v in l] for o, ls in os.items()} for k, os in es.items()} for d, es in out.items()}
    if isinstance(e, finat.TensorProductElement):
        ms = [model(f) for f in e.factors]
        out = {}
        cells = [f.cell for f in e.factors]
        like = len(set(cells)) == 1
        for dim in itertools.product(*[sorted(m) for m in ms]):
            out[dim] = {}
            axes = sorted(itertools.permutations(range(len(ms)))) if like else [tuple(range(len(ms)))]
            axes = [a for a in axes if all(a[i] == i for i, d in enumerate(dim) if d == 0)]
            for n, ks in enumerate(itertools.product(*[sorted(m[d]) for m, d in zip(ms, dim)])):
                om = [m[d][k] for m, d, k in zip(ms, dim, ks)]
                out[dim][n] = {}
                for eo, ap in enumerate(axes):
                    inv = [ap.index(i) for i in range(len(ap))]
                    for os in itertools.product(*[sorted(m) for m in om]):
                        ps = [list(m[o]) for m, o in zip(om, os)]
                        shape = [len(ps[inv[k]]) for k in range(len(ps))]
                        r = []
                        for j in itertools.product(*[range(len(p)) for p in ps]):
                            v = 0
                            for k in range(len(ps)):
                                v = v * shape[k] + ps[inv[k]][j[inv[k]]]
                            r.append(v)
                        out[dim][n][(eo,) + os] = r
        return out
    if isinstance(e, finat.FlattenedDimensions):
        m = model(e.product)
        out = {}
        tot = lambda d: sum(map(tot, d)) if isinstance(d, tuple) else d
        for dim in sorted(m):
            t = out.setdefault(tot(dim), {})
            for k in sorted(m[dim]):
                t[len(t)] = {i: m[dim][k][o] for i, o in enumerate(sorted(m[dim][k]))}
        return out
    if isinstance(e, finat.DiscontinuousElement):
        return model(e.element)
    if hasattr(e, "wrappee"):
        return model(e.wrappee)
    return e.entity_permutations


def listed(p):
    return {d: {k: {o: list(map(int, q)) for o, q in os.items()} for k, os in es.items()} for d, es in p.items()}


def offered(e):
    """do all the parts offer permutations?"""
    for a in ("elements", "factors"):
        if hasattr(e, a):
            return all(map(offered, getattr(e, a)))
    if isinstance(e, finat.DiscontinuousElement):
        return offered(e.element) and e.element.entity_dofs() == e.entity_dofs()
    for a in ("product", "wrappee"):
        if hasattr(e, a):
            return offered(getattr(e, a))
    return perms(e) is not None


def check_rule(el):
    e = element(el)
    p = perms(e)
    if p is None:
        if isinstance(e, (finat.EnrichedElement, finat.TensorProductElement, finat.FlattenedDimensions, finat.DiscontinuousElement)) or hasattr(e, "wrappee"):
            try:
                m = offered(e) and model(e)
            except Exception:
                m = False
            require(not m or "(" in str(e.cell.get_topology().keys()) and unsupported(e), "all parts offer permutations but the composite does not")
        return
    require(listed(p) == listed(model(e)), "permutations differ from the combination of those of the parts")
    if isinstance(e, finat.fiat_elements.FiatElement):
        require(listed(p) == listed(e._element.entity_permutations()), "permutations differ from those of the reference element")


def unsupported(e):
    """cells whose axes the reference library does not compose"""
    cs = getattr(e.cell, "cells", None)
    return cs is not None and len(set(cs)) != len(cs) and not (len(set(cs)) == 1 and type(cs[0]).__name__ == "UFCInterval")
