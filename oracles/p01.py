"""P01: degree-of-freedom numbering is a partition, with the documented order for composites."""
from .common import *
from FIAT.reference_element import compute_unflattening_map

EXTRA = ["DirectSerendipity(quad,%d)" % r for r in (1, 2, 3, 4, 5)] + ["QE(I,3)", "QE(T,4)", "QE(K,2)", "QE(TPC(I,I),3)", "QE(quad,2)"]


def cases(rng, tier):
    els = SIMPLE + COMPOSITE + ZANY + EXTRA
    for s in els:
        yield "partition", {"el": s}
    for s in COMPOSITE:
        yield "layout", {"el": s}
    for _ in range(60 if tier == "quick" else 600):
        s = rand_element(rng)
        yield "partition", {"el": s}
        yield "layout", {"el": s}


def check_partition(el):
    e = element(el)
    n = e.space_dimension()
    require(int(n) == int(np.prod(e.index_shape, dtype=int)), f"space dimension {n} vs index shape {e.index_shape}")
    top = e.cell.get_topology()
    d = e.entity_dofs()
    require(set(d) == set(top), f"dimensions {sorted(map(str, d))} are not those of the cell")
    for dim in top:
        require(set(d[dim]) == set(top[dim]), f"entities of dimension {dim}: {sorted(d[dim])}")
    allv = sorted(int(v) for v in flat_dofs(d))
    require(allv == list(range(n)), f"DoFs are not each of 0..{n-1} exactly once: {allv[:40]}")


def spec_dofs(e):
    """the documented numbering of a composite element from that of its parts"""
    if isinstance(e, finat.EnrichedElement):
        top = e.cell.get_topology()
        out = {d: {i: [] for i in es} for d, es in top.items()}
        off = 0
        for p in e.elements:
            for d, es in spec_dofs(p).items():
                for i, l in es.items():
                    out[d][i] += [off + v for v in l]
            off += p.space_dimension()
        return out
    if isinstance(e, finat.mixed.MixedSubElement):
        return spec_dofs(e.element)
    if isinstance(e, finat.TensorProductElement):
        parts = [spec_dofs(f) for f in e.factors]
        dims = [f.space_dimension() for f in e.factors]
        out = {}
        for d in itertools.product(*parts):
            out[d] = {}
            for num, es in enumerate(itertools.product(*[sorted(p[x]) for p, x in zip(parts, d)])):
                l = []
                for vs in itertools.product(*[p[x][i] for p, x, i in zip(parts, d, es)]):
                    n = 0
                    for v, m in zip(vs, dims):
                        n = n * m + v
                    l.append(n)
                out[d][num] = l
        return out
    if isinstance(e, finat.FlattenedDimensions):
        un = compute_unflattening_map(e.product.cell.get_topology())
        p = spec_dofs(e.product)
        out = {}
        for (d, i), (pd, pi) in un.items():
            out.setdefault(d, {})[i] = p[pd][pi]
        return out
    if isinstance(e, finat.TensorFiniteElement):
        b = e.base_element
        dim = b.space_dimension()
        nc = int(np.prod(e._shape, dtype=int))
        return {d: {i: ([v + c * dim for c in range(nc) for v in l] if e._transpose else [v * nc + c for v in l for c in range(nc)])
                    for i, l in es.items()} for d, es in spec_dofs(b).items()}
    if isinstance(e, (finat.HDivElement, finat.HCurlElement)):
        return spec_dofs(e.wrappee)
    if isinstance(e, finat.DiscontinuousElement):
        out = {d: {i: [] for i in es} for d, es in e.cell.get_topology().items()}
        out[e.cell.get_dimension()][0] = list(range(e.space_dimension()))
        return out
    return e.entity_dofs()


def check_layout(el):
    e = element(el)
    got = {d: {i: [int(v) for v in l] for i, l in es.items()} for d, es in e.entity_dofs().items()}
    want = {d: {i: [int(v) for v in l] for i, l in es.items()} for d, es in spec_dofs(e).items()}
    require(got == want, f"numbering {got} expected {want}")
