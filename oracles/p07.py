"""P07: physically mapped elements recover the physical nodal basis on any affine cell."""
from .common import *
from finat.physically_mapped import PhysicalGeometry
from FIAT.reference_element import make_affine_mapping, ufc_simplex

# expression over a cell C (the same expression builds the element on the reference and on the physical cell)
FAMILIES = [("Hermite(C,3)", 1), ("Hermite(C,3)", 2), ("Hermite(C,3)", 3), ("Morley(C,2)", 2), ("Bell(C,5)", 2), ("Argyris(C,5,avg=True)", 2), ("Argyris(C,6,avg=True)", 2), ("Argyris(C,7,avg=True)", 2),
            ("Argyris(C,5,variant='point')", 2), ("HsiehCloughTocher(C,3,avg=True)", 2), ("HsiehCloughTocher(C,4,avg=True)", 2), ("HsiehCloughTocher(C,5,avg=True)", 2), ("ReducedHsiehCloughTocher(C,3)", 2),
            ("QuadraticPowellSabin6(C,2)", 2), ("QuadraticPowellSabin12(C,2,avg=True)", 2), ("MardalTaiWinther(C,3)", 2), ("ReducedArnoldQin(C,2)", 2), ("ArnoldWinther(C,3)", 2), ("ArnoldWintherNC(C,2)", 2),
            ("HuZhang(C,3)", 2), ("HuZhang(C,4)", 2), ("HuZhang(C,3,variant='point')", 2), ("HuZhang(C,4,variant='point')", 2), ("JohnsonMercier(C,1)", 2), ("JohnsonMercier(C,1)", 3),
            ("AlfeldSorokina(C,2)", 2), ("AlfeldSorokina(C,2)", 3), ("BernardiRaugel(C,1)", 2), ("BernardiRaugel(C,1)", 3), ("BernardiRaugel(C,2)", 3), ("BernardiRaugelBubble(C,2)", 2), ("BernardiRaugelBubble(C,3)", 3),
            ("ChristiansenHu(C,1)", 2), ("ChristiansenHu(C,1)", 3), ("GuzmanNeilanFirstKindH1(C,1)", 2), ("GuzmanNeilanFirstKindH1(C,1)", 3), ("GuzmanNeilanSecondKindH1(C,1)", 2), ("GuzmanNeilanSecondKindH1(C,1)", 3),
            ("GuzmanNeilanBubble(C,2)", 2), ("GuzmanNeilanBubble(C,3)", 3), ("GuzmanNeilanH1div(C,2)", 2), ("GuzmanNeilanH1div(C,3)", 3)]
UNAVERAGED = ["Argyris(C,5)", "Argyris(C,6)", "Argyris(C,7)", "HsiehCloughTocher(C,3)", "HsiehCloughTocher(C,4)", "HsiehCloughTocher(C,5)", "QuadraticPowellSabin12(C,2)"]
HIGHER = [("Argyris(C,8,avg=True)", 2), ("HsiehCloughTocher(C,6,avg=True)", 2), ("HsiehCloughTocher(C,7,avg=True)", 2), ("HuZhang(C,5)", 2), ("HuZhang(C,5,variant='point')", 2)]
SLOW3D = ("GuzmanNeilanH1div(C,3)", "GuzmanNeilanSecondKindH1(C,1)", "GuzmanNeilanFirstKindH1(C,1)")


def cases(rng, tier):
    for s, d in FAMILIES:
        big = d == 3
        for k in range((1 if big else 3) if tier == "quick" else (4 if big else 15)):
            yield "mapping", {"el": s, "dim": d, "seed": rng.randrange(10**6), "flip": k % 2 == 1 if not big else bool(rng.randrange(2))}
    for s, d in HIGHER:
        for k in range(1 if tier == "quick" else 3):
            yield "mapping", {"el": s, "dim": d, "seed": rng.randrange(10**6), "flip": bool(k % 2)}
    for n in range(6):
        yield "determinant", {"n": n, "seed": rng.randrange(10**6)}
    for s in UNAVERAGED:
        for k in range(2 if tier == "quick" else 8):
            yield "unaveraged", {"el": s, "dim": 2, "seed": rng.randrange(10**6), "flip": bool(k % 2)}
    for s, d in FAMILIES:
        if d == 2:
            yield "derivatives", {"el": s, "dim": d, "seed": rng.randrange(10**6), "flip": False}


def rand_cell(dim, rng, flip):
    while True:
        v = np.array([[rng.uniform(-1.5, 1.5) for _ in range(dim)] for _ in range(dim + 1)])
        A = (v[1:] - v[0]).T
        det = np.linalg.det(A)
        if np.linalg.cond(A) < 6 and abs(det) > 0.2:
            break
    if (det < 0) != flip:
        v[[0, 1]] = v[[1, 0]] if dim > 1 else v[[1, 0]]
    c = ufc_simplex(dim)
    c.vertices = tuple(tuple(float(x) for x in r) for r in v)
    return c


class Geometry(PhysicalGeometry):
    """exact geometry of an affine cell, from its vertices"""
    def __init__(self, ref, phys, h=None):
        self.ref, self.phys = ref, phys
        self.A, self.b = make_affine_mapping(ref.vertices, phys.vertices)
        self.h = np.ones(len(ref.vertices)) if h is None else np.asarray(h, float)
        self.v = np.asarray(phys.vertices, float)
        d = self.v.shape[1]
        self.dim = d
        if d == 2:
            ed = [(1, 2), (0, 2), (0, 1)]
            t = np.array([self.v[b] - self.v[a] for a, b in ed])
            self.len = np.linalg.norm(t, axis=1)
            self.t = t / self.len[:, None]
            self.n = np.array([[x[1], -x[0]] for x in self.t])
            rv = np.asarray(ref.vertices, float)
            rt = np.array([rv[b] - rv[a] for a, b in ed])
            rt /= np.linalg.norm(rt, axis=1)[:, None]
            self.rn = np.array([[x[1], -x[0]] for x in rt])
    def cell_size(self):
        return self.h
    def detJ_at(self, p):
        return gem.Literal(np.linalg.det(self.A))
    def jacobian_at(self, p):
        return gem.Literal(self.A)
    def reference_normals(self):
        return gem.Literal(self.rn)
    def physical_normals(self):
        return gem.Literal(self.n)
    def physical_tangents(self):
        return gem.Literal(self.t)
    def physical_edge_lengths(self):
        if self.dim == 2:
            return gem.Literal(self.len)
        return gem.Literal(np.array([self.phys.volume_of_subcomplex(1, i) for i in sorted(self.phys.get_topology()[1])]))
    def physical_points(self, ps, entity=None):
        return gem.Literal(np.asarray([self.A @ x + self.b for x in ps.points]))
    def physical_vertices(self):
        return gem.Literal(self.v)


def build(el, C):
    return eval(el, dict(NS, C=C))


def pull(mapping, J, ref):
    """reference table (n, value..., pts) pulled back to the physical cell"""
    if mapping == "affine":
        return ref
    K = []
    if "covariant" in mapping:
        K.append(np.linalg.inv(J).T)
    if "contravariant" in mapping:
        K.append(J / np.linalg.det(J))
    if ref.ndim == 4:
        return np.einsum("ij,njkp,lk->nilp", K[0], ref, K[-1])
    return np.einsum("ij,njp->nip", K[0], ref)


def points(el, ref, rng):
    """reference points: some in the interior of every sub-cell"""
    cx = el._element.get_reference_complex()
    d = ref.get_spatial_dimension()
    pts = []
    for e in cx.get_topology()[d]:
        v = np.asarray(cx.get_vertices_of_subcomplex(cx.get_topology()[d][e]))
        for _ in range(max(3, el._element.degree() + 1)):
            w = np.array([rng.random() for _ in v]) + 0.02
            pts.append(w @ v / w.sum())
    return np.array(pts)


def transformation(e, geo):
    if not hasattr(e, "basis_transformation"):
        return np.eye(e.space_dimension())
    M = e.basis_transformation(geo)
    require(tuple(M.shape) == (e.space_dimension(), e._element.space_dimension()), f"transformation has shape {M.shape}, expected {(e.space_dimension(), e._element.space_dimension())}")
    return evalgem(M)


_built = {}


def setup(el, dim, seed, flip, h=None):
    rng = sd(seed)
    ref = ufc_simplex(dim)
    phys = rand_cell(dim, rng, flip)
    if (el, dim) not in _built:
        _built[el, dim] = build(el, ref)
    e = _built[el, dim]
    ref = e.cell
    return e, ref, phys, Geometry(ref, phys, h), rng


def physical_nodal_basis(el, e, phys, M, J, b, pts, n):
    ref_el = e._element
    d = ref_el.get_reference_element().get_spatial_dimension()
    z = (0,) * d
    ref = np.asarray(ref_el.tabulate(0, pts)[z])
    got = np.tensordot(M, pull(ref_el.mapping()[0], J, ref), (1, 0))
    phys_el = build(el, phys)._element
    want = np.asarray(phys_el.tabulate(0, np.array([J @ x + b for x in pts]))[z])[:n]
    return got, want


def check_determinant(n, seed):
    """determinant and adjugate of random real matrices"""
    from finat.piola_mapped import determinant, adjugate
    rng = np.random.RandomState(seed)
    for _ in range(3):
        A = rng.uniform(-1, 1, (n, n))
        require(abs(determinant(A) - (np.linalg.det(A) if n else 1)) < 1e-9, f"determinant of {A.tolist()}")
        if 1 <= n <= 4:
            close(np.array(adjugate(A), dtype=float) @ A, np.linalg.det(A) * np.eye(n), "adjugate")


def check_mapping(el, dim, seed, flip):
    e, ref, phys, geo, rng = setup(el, dim, seed, flip)
    M = transformation(e, geo)
    got, want = physical_nodal_basis(el, e, phys, M, geo.A, geo.b, points(e, ref, rng), e.space_dimension())
    s = max(1.0, np.abs(want).max())
    close(got / s, want / s, "transformed basis against the basis of the physical cell", 1e-6)
    check_symbolic_table(e, geo, M, rng)


def check_symbolic_table(e, geo, M, rng):
    """basis_evaluation with a coordinate mapping is the transformation applied to the reference tables"""
    from finat.point_set import PointSet
    pts = points(e, e.cell, rng)[:4]
    if not hasattr(e, "basis_transformation"):
        return
    for order in (0, 1):
        res = e.basis_evaluation(order, PointSet(pts), coordinate_mapping=geo)
        ref = e._element.tabulate(order, pts)
        require(set(res) == set(ref), f"multi-indices {sorted(res)}")
        ps = PointSet(pts)
        res = e.basis_evaluation(order, ps, coordinate_mapping=geo)
        for a in ref:
            r = evalgem(res[a], ps.indices)
            w = np.moveaxis(np.tensordot(M, np.asarray(ref[a]), (1, 0)), -1, 0)
            s = max(1.0, np.abs(w).max())
            close(r / s, w / s, f"tabulation {a} of the transformed basis", 1e-8)


def check_derivatives(el, dim, seed, flip):
    e, ref, phys, geo, rng = setup(el, dim, seed, flip)
    if not hasattr(e, "basis_transformation"):
        return
    try:
        e.basis_evaluation(0, None)
    except Exception:
        pass
    else:
        raise Broken("tabulation without a coordinate mapping was not rejected")


def check_unaveraged(el, dim, seed, flip):
    e, ref, phys, geo, rng = setup(el, dim, seed, flip)
    av = el.replace(")", ",avg=True)")
    e2, *_ = setup(av, dim, seed, flip)
    M, M2 = transformation(e, geo), transformation(e2, geo)
    vorder = 2 if "Argyris" in el else 1
    eorder = 0 if "Powell" in el else e.degree - (5 if vorder == 2 else 3)
    S = np.ones(e.space_dimension())
    for f, dofs in e.entity_dofs()[1].items():
        for k in range(eorder + 1):
            S[dofs[k]] = geo.len[f]
    close(S[:, None] * M, M2, "integral normal moments are the averaged ones times the edge length", 1e-9)
