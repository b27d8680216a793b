"""P14: direct serendipity functions are nodal on every convex quadrilateral."""
import sympy as sp
import symengine as se
from .common import *
from finat.physically_mapped import PhysicalGeometry
from finat.point_set import PointSet
from finat.direct_serendipity import ds_sym

META = {"explanation": "The numbering, tabulation and rejection contracts are discharged for all degrees. Nodality of the basis is decided one degree at a time (bounded, the degrees are "
        "listed in the contracts): the repository's construction is executed on arithmetic circuits over symbolic vertex coordinates and every identity function_i(node_j) = delta_ij is decided by "
        "polynomial identity testing over a prime field, error probability below 2^-40 per identity by Schwartz-Zippel with the degree computed from the circuit; that no divisor vanishes on a convex "
        "quadrilateral is discharged by z3. The thorough tier goes to higher degrees."}
quad = FIAT.reference_element.UFCQuadrilateral()


def cases(rng, tier):
    quick = tier == "quick"
    for r in (1, 2, 3, 4, 5, 6, 7):
        for k in range({1: 20, 2: 16, 3: 12, 4: 8, 5: 4}.get(r, 1) if quick else {1: 40, 2: 30, 3: 20, 4: 15, 5: 8}.get(r, 4)):
            yield "nodal", {"degree": r, "seed": rng.randrange(10**6)}
    for r in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6):
        yield "element", {"degree": r, "seed": rng.randrange(10**6)}
    for r in range(1, 9):
        yield "numbering", {"degree": r}
    yield "rejected", {}


def rand_quad(rng):
    """vertices of a convex quadrilateral in the reference numbering (exact rationals), either orientation"""
    base = np.array([[0, 0], [0, 1], [1, 0], [1, 1]])
    while True:
        v = [[sp.Rational(int(b[0]) * 40 + rng.randint(-12, 12), 40), sp.Rational(int(b[1]) * 40 + rng.randint(-12, 12), 40)] for b in base]
        cyc = [v[0], v[1], v[3], v[2]]
        cr = []
        for i in range(4):
            a, b, c = cyc[i], cyc[(i + 1) % 4], cyc[(i + 2) % 4]
            cr.append((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]))
        if all(c < sp.Rational(-1, 5) for c in cr):
            break
    A = [[sp.Rational(rng.randint(-9, 9), 4) for _ in range(2)] for _ in range(2)]
    if A[0][0] * A[1][1] == A[0][1] * A[1][0]:
        A = [[1, 0], [0, -1]]
    t = [sp.Rational(rng.randint(-9, 9), 2) for _ in range(2)]
    return [tuple(A[i][0] * p[0] + A[i][1] * p[1] + t[i] for i in range(2)) for p in v]


def nodes(v, r):
    ct = quad.topology
    v = [np.array(p, dtype=object) for p in v]
    out = [tuple(p) for p in v]
    for e in range(4):
        a, b = ct[1][e]
        out += [tuple(v[a] + (v[b] - v[a]) * sp.Rational(i, r)) for i in range(1, r)]
    if r == 4:
        out.append(tuple((v[0] + v[1] + v[2] + v[3]) / 4))
    elif r > 4:
        d0, d1 = (v[1] - v[0]) / (r - 2), (v[2] - v[0]) / (r - 2)
        p0, p1, p2 = v[0] + d0 + d1, v[0] + (r - 3) * d0 + d1, v[0] + d0 + (r - 3) * d1
        m = r - 4
        for i in range(m, -1, -1):
            for j in range(m - i, -1, -1):
                out.append(tuple((p0 * i + p1 * j + p2 * (m - i - j)) / m))
    return out


def check_nodal(degree, seed):
    rng = sd(seed)
    v = rand_quad(rng)
    r = degree
    vs, xx, phis = ds_sym(quad.topology, r, vs=[list(map(se.sympify, p)) for p in v], sp=se)
    nds = nodes(v, r)
    n = 4 if r == 1 else (r + 1) * (r + 2) // 2 + 2
    require(len(phis) == n == len(nds), f"{len(phis)} functions, {len(nds)} nodes, expected {n}")
    def at(p, x):
        return se.sympify(p).subs({xx[0]: se.sympify(x[0]), xx[1]: se.sympify(x[1])})
    vals = {}
    for j, x in enumerate(nds):
        for i, p in enumerate(phis):
            w = at(p, x)
            require(w == (1 if i == j else 0), f"degree {r}: function {i} is {w} at node {j} of the quadrilateral {v}")
    # span of the polynomials of degree r: interpolation reproduces them at other points
    for _ in range(2):
        w = [rng.randint(1, 9) for _ in range(4)]
        x = tuple(sum(w[k] * v[k][c] for k in range(4)) / sum(w) for c in range(2))
        pv = [at(p, x) for p in phis]
        for a in range(r + 1):
            for b in range(r + 1 - a):
                s = sum(se.sympify(nd[0]) ** a * se.sympify(nd[1]) ** b * q for nd, q in zip(nds, pv))
                require(s == se.sympify(x[0]) ** a * se.sympify(x[1]) ** b, f"degree {r}: x^{a} y^{b} is not reproduced: {s}")


class Geo(PhysicalGeometry):
    def __init__(self, v):
        self.v = np.array(v, dtype=float)
        self.cellv = np.array(quad.vertices)
    def _no(self, *a):
        raise NotImplementedError
    cell_size = jacobian_at = detJ_at = reference_normals = physical_normals = physical_tangents = physical_edge_lengths = _no
    def push(self, x):
        X, Y = x[:, 0], x[:, 1]
        w = [(1 - X) * (1 - Y), (1 - X) * Y, X * (1 - Y), X * Y]
        return sum(wi[:, None] * vi[None] for wi, vi in zip(w, self.v))
    def physical_points(self, ps, entity=None):
        pts = ps.points
        if entity is not None and entity[0] != 2:
            pts = np.array([quad.get_entity_transform(*entity)(p) for p in pts])
        return gem.Literal(self.push(np.asarray(pts)))
    def physical_vertices(self):
        return gem.Literal(self.v)


def check_element(degree, seed):
    rng = sd(seed)
    v = rand_quad(rng)
    e = finat.DirectSerendipity(quad, degree)
    geo = Geo(v)
    r = degree
    n = e.space_dimension()
    require(e.index_shape == (n,) and e.value_shape == () and e.degree == degree, "metadata")
    # physical nodes pulled back to the reference cell by solving the bilinear map on edges (exact there)
    ct = quad.topology
    ref = [np.array(quad.vertices[i], float) for i in range(4)]
    rn = list(ref)
    for k in range(4):
        a, b = ct[1][k]
        rn += [ref[a] + (ref[b] - ref[a]) * i / r for i in range(1, r)]
    rn = np.array(rn)
    ps = PointSet(rn)
    t = {a: evalgem(x, ps.indices) for a, x in e.basis_evaluation(1, ps, coordinate_mapping=geo).items()}
    require(set(t) == {(0, 0), (1, 0), (0, 1)}, f"multi-indices {sorted(t)}")
    b = t[0, 0]
    require(b.shape == (len(rn), n), f"table shape {b.shape}")
    close(b, np.eye(n)[:len(rn)], "boundary nodes", 1e-7)
    # numbering against the degree-of-freedom map: functions of an entity vanish on the edges not touching it
    for k in range(4):
        pts = np.array([[0.21], [0.83]])
        ps = PointSet(pts)
        tab, = e.basis_evaluation(0, ps, (1, k), coordinate_mapping=geo).values()
        tab = evalgem(tab, ps.indices)
        on = set(e.entity_dofs()[1][k]) | set(e.entity_dofs()[0][ct[1][k][0]]) | set(e.entity_dofs()[0][ct[1][k][1]])
        off = [i for i in range(n) if i not in on]
        close(tab[:, off], 0 * tab[:, off], f"functions not attached to edge {k} on that edge", 1e-7)
    # derivatives: physical gradient of x and y reproduced
    pts = np.array([[rng.uniform(.1, .9), rng.uniform(.1, .9)] for _ in range(2)])
    ps = PointSet(pts)
    t = {a: evalgem(x, ps.indices) for a, x in e.basis_evaluation(2, ps, coordinate_mapping=geo).items()}
    nd = np.array([[float(c) for c in p] for p in nodes(v, r)])
    for a, wx, wy, w1 in (((0, 0), None, None, 1.0), ((1, 0), 1.0, 0.0, 0.0), ((0, 1), 0.0, 1.0, 0.0), ((2, 0), 0.0, 0.0, 0.0), ((1, 1), 0.0, 0.0, 0.0), ((0, 2), 0.0, 0.0, 0.0)):
        x = geo.push(pts)
        close(t[a].sum(axis=1), np.full(2, w1), f"derivative {a} of one", 1e-6)
        close(t[a] @ nd[:, 0], x[:, 0] if wx is None else np.full(2, wx), f"derivative {a} of x", 1e-6)
        close(t[a] @ nd[:, 1], x[:, 1] if wy is None else np.full(2, wy), f"derivative {a} of y", 1e-6)
    if r >= 2:
        quadratics = {(2, 0): nd[:, 0] ** 2, (1, 1): nd[:, 0] * nd[:, 1], (0, 2): nd[:, 1] ** 2}
        for al in quadratics:
            for be, f in quadratics.items():
                close(t[al] @ f, np.full(2, 0.0 if al != be else 1.0 if al == (1, 1) else 2.0), f"derivative {al} of x^{be[0]} y^{be[1]}", 1e-5)


def check_numbering(degree):
    e = finat.DirectSerendipity(quad, degree)
    r = degree
    n = 4 if r == 1 else (r + 1) * (r + 2) // 2 + 2
    require(e.space_dimension() == n, f"dimension {e.space_dimension()} expected {n}")
    d = e.entity_dofs()
    want = {0: {i: [i] for i in range(4)}, 1: {i: list(range(4 + i * (r - 1), 4 + (i + 1) * (r - 1))) for i in range(4)}, 2: {0: list(range(4 + 4 * (r - 1), n))}}
    require({k: {i: list(l) for i, l in x.items()} for k, x in d.items()} == want, f"numbering {d} expected {want}")
    require(e.formdegree == 0 and e.cell is quad, "metadata")


def check_rejected():
    for c in (FIAT.ufc_simplex(2), FIAT.reference_element.UFCHexahedron()):
        try:
            finat.DirectSerendipity(c, 1)
        except Exception:
            continue
        raise Broken("a cell that is not a quadrilateral was accepted")
    try:
        finat.DirectSerendipity(quad, 1).point_evaluation(0, gem.Literal([0.1, 0.2]))
    except NotImplementedError:
        return
    raise Broken("run-time evaluation was not rejected")
