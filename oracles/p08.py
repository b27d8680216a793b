"""P08: scaling of the transformation by the vertex mesh sizes is local and consistent."""
from .common import *
from .p07 import FAMILIES, UNAVERAGED, Geometry, setup, transformation, physical_nodal_basis, points
from FIAT.reference_element import ufc_simplex

VERTEX_STRESS = ("ArnoldWinther(", "HuZhang(")       # vertex values of the stress, scaled like second derivatives
EDGE_DERIVATIVE = ("Morley(", "variant='point'")     # unaveraged normal derivatives at or over an edge


def cases(rng, tier):
    for s, d in FAMILIES + [(u, 2) for u in UNAVERAGED]:
        if d == 3 and tier == "quick" and "GuzmanNeilan" in s:
            continue
        yield "power", {"el": s, "dim": d, "seed": rng.randrange(10**6)}
        yield "unit", {"el": s, "dim": d, "seed": rng.randrange(10**6)}
        if d == 2:
            yield "shared", {"el": s, "dim": d, "seed": rng.randrange(10**6)}


def exponents(el, e):
    """per basis function: list of (kind, entity, power)"""
    fe = e._element
    nodes = fe.dual_basis()
    top = e.cell.get_topology()
    out = {}
    for dim, ents in e.entity_dofs().items():
        for k, dofs in ents.items():
            for i in dofs:
                p = 0
                if dim == 0:
                    if el.startswith(VERTEX_STRESS):
                        p = 2
                    elif e.value_shape == ():
                        p = nodes[i].max_deriv_order
                elif dim == 1 and e.value_shape == () and (el.startswith("Morley(") or (el.startswith("Argyris(") and "point" in el)):
                    p = 1
                out[i] = (top[dim][k], p)
    return out


def factor(verts, p, h):
    return np.mean([h[v] for v in verts]) ** -p


def check_power(el, dim, seed):
    rng = sd(seed + 1)
    h = [rng.uniform(0.1, 4.0) for _ in range(dim + 1)]
    e, ref, phys, geo, _ = setup(el, dim, seed, False, h)
    M = transformation(e, geo)
    M1 = transformation(e, Geometry(ref, phys))
    ex = exponents(el, e)
    require(sorted(ex) == list(range(e.space_dimension())), f"degrees of freedom {sorted(ex)}")
    D = np.array([factor(*ex[i], h) for i in range(e.space_dimension())])
    # interior degrees of freedom of vertex-unattached kind and all others scale as a fixed power
    close(M, D[:, None] * M1, f"scaling with vertex sizes {h}", 1e-9)


def check_unit(el, dim, seed):
    e, ref, phys, geo, rng = setup(el, dim, seed, True)
    M = transformation(e, Geometry(ref, phys, np.ones(dim + 1)))
    if "avg" not in el and el in UNAVERAGED:
        return
    got, want = physical_nodal_basis(el, e, phys, M, geo.A, geo.b, points(e, ref, rng), e.space_dimension())
    s = max(1.0, np.abs(want).max())
    close(got / s, want / s, "unit sizes", 1e-6)


def check_shared(el, dim, seed):
    """two cells sharing an edge: the sizes at the vertex opposite do not matter for the shared degrees of freedom"""
    rng = sd(seed + 2)
    h = [rng.uniform(0.1, 4.0) for _ in range(dim + 1)]
    e, ref, phys, geo, _ = setup(el, dim, seed, False, h)
    M = transformation(e, geo)
    ed = e.entity_dofs()
    top = e.cell.get_topology()
    for v in range(dim + 1):
        h2 = list(h)
        h2[v] = rng.uniform(0.1, 4.0)
        M2 = transformation(e, Geometry(ref, phys, h2))
        for d in range(dim + 1):
            for k, verts in top[d].items():
                if v in verts:
                    continue
                for i in ed[d][k]:
                    close(M2[i], M[i], f"degree of freedom {i} on {(d, k)} depends on the size at vertex {v}", 1e-12)
