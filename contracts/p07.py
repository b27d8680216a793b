"""Physically mapped elements: for every affine cell the transformation M(J) maps the pulled-back reference basis to the basis
dual to the physical degrees of freedom.  Post-condition of basis_transformation: M(J) B(J)^T = [I 0], where B[k,j](J) is the
physical degree of freedom k (dofspec: a combination of point values and derivatives along vectors polynomial in J, fitted to FIAT
once and re-validated against FIAT on every run by the concrete contracts) of the pulled-back reference basis function j.
The identity is discharged in Q(J)[L_e]: for all cells, hence "bounded" only in the families and degrees listed."""
import functools
import itertools
import os
import gem
import numpy as np
import finat
from finat.physically_mapped import PhysicalGeometry
from FIAT.reference_element import ufc_simplex
from oracles.common import NS
from oracles.p07 import FAMILIES, UNAVERAGED
from . import dofspec
from .symgem import *
from .evals import *
from finat.fiat_elements import FiatElement, ScalarFiatElement
from finat.physically_mapped import PhysicallyMappedElement
import gem.optimise

EXTRA = [("Argyris(C,8,avg=True)", 2), ("HsiehCloughTocher(C,6,avg=True)", 2), ("HuZhang(C,5)", 2), ("HuZhang(C,5,variant='point')", 2), ("GuzmanNeilanFirstKindH1(C,2)", 3)]
EXTRA += [(f"{f}(C,0)", d) for f in ("BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1") for d in (2, 3)] + [("GuzmanNeilanSecondKindH1(C,2)", 3)]
EXTRA += [("Argyris(C,9,avg=True)", 2), ("HsiehCloughTocher(C,7,avg=True)", 2), ("HuZhang(C,6)", 2), ("HuZhang(C,6,variant='point')", 2), ("HuZhang(C,7)", 2)] if os.environ.get("VERIF_TIER") == "thorough" else []
MAPPED = FAMILIES + EXTRA
# families of which every admissible degree is listed above; the others take any degree from their lowest one
OPEN = ("Argyris", "HsiehCloughTocher", "HuZhang")


def bound(expr):
    return "this degree of the family; all cells" if expr.split("(")[0] in OPEN else None


class Geo(PhysicalGeometry):
    """the geometry of the physical cell as gem variables"""
    def __init__(self, d, hsym=False):
        self.d, self.hsym = d, hsym
        nf = d + 1
        self.v = {"J": gem.Variable("J", (d, d)), "det": gem.Variable("det", ()), "n": gem.Variable("n", (nf, d)), "t": gem.Variable("t", (nf, d)),
                  "L": gem.Variable("L", ({1: 1, 2: 3, 3: 6}[d],)), "h": gem.Variable("h", (nf,))}
    def cell_size(self): return self.v["h"]
    def jacobian_at(self, p): return self.v["J"]
    def detJ_at(self, p): return self.v["det"]
    def reference_normals(self):
        if self.d != 2: raise Unsupported("reference normals")
        rv = dofspec.ref_vertices(2)
        t = np.array([(rv[b] - rv[a]) / np.linalg.norm(rv[b] - rv[a]) for a, b in dofspec.EDGES])
        return gem.Literal(np.stack([t[:, 1], -t[:, 0]], 1))
    def physical_normals(self): return self.v["n"]
    def physical_tangents(self): return self.v["t"]
    def physical_edge_lengths(self): return self.v["L"]
    def physical_points(self, ps, entity=None): raise Unsupported("physical points")
    def physical_vertices(self): raise Unsupported("physical vertices")


class Setting:
    """the ring of the geometric quantities of a d-dimensional affine cell"""
    def __init__(self, d):
        self.d, F = d, Field()
        self.F = F
        self.J = [[Poly.var(F.new(f"J{i}{j}")) for j in range(d)] for i in range(d)]
        self.det = Poly.var(F.new("det"))
        self.vecs = dofspec.vectors(d, self.J)
        self.absdet = Poly.var(F.new("|det|"))
        nlen = {1: 1, 2: 3, 3: 6}[d]
        self.L = [Poly.var(F.new(f"L{e}")) for e in range(nlen)]
        self.h = [Poly.var(F.new(f"h{v}")) for v in range(d + 1)]
        names = {1: ["e0"], 2: ["t0", "t1", "t2"], 3: [f"s{k}" for k in range(6)]}[d]
        # edges of a tetrahedron in FIAT's numbering
        if d == 3:
            top = ufc_simplex(3).get_topology()[1]
            names = [f"s{list(itertools.combinations(range(4), 2)).index(tuple(top[k]))}" for k in sorted(top)]
        for e, nm in enumerate(names):
            x = self.vecs[nm] if d > 1 else [self.J[0][0]]
            F.square[F.names.index(f"L{e}")] = sum((c * c for c in x[1:]), x[0] * x[0])
        F.value[F.names.index("det")] = leibniz(self.J)
        adj = adjugate_(self.J)
        self.K = [[a / self.det for a in r] for r in adj]        # inverse Jacobian
        one = Poly.of(1.0)
        self.n = self.t = None
        if d == 2:
            self.t = [[x / self.L[e] for x in self.vecs[f"t{e}"]] for e in range(3)]
            self.n = [[x / self.L[e] for x in self.vecs[f"n{e}"]] for e in range(3)]
    def env(self, h=None):
        e = {"J": np.array(self.J, dtype=object), "det": arr0(self.det), "L": np.array(self.L, dtype=object), "h": np.array(self.h if h is None else h, dtype=object)}
        if self.d == 2:
            e["n"], e["t"] = np.array(self.n, dtype=object), np.array(self.t, dtype=object)
        return e
    def matrix(self, e, h=None):
        return evaluate(self.F, e, self.env([Poly.of(1.0)] * (self.d + 1) if h is None else h))


def arr0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def leibniz(A):
    n, s = len(A), Poly()
    for p in itertools.permutations(range(n)):
        sg = (-1) ** sum(p[i] < p[j] for i in range(n) for j in range(i))
        t = Poly.of(float(sg))
        for i in range(n): t = t * A[i][p[i]]
        s = s + t
    return s


def adjugate_(A):
    n = len(A)
    minor = lambda i, j: [[A[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
    return [[(leibniz(minor(j, i)) if n > 1 else Poly.of(1.0)) * float((-1) ** (i + j)) for j in range(n)] for i in range(n)]


@functools.lru_cache(None)
def element(expr, d):
    return eval(expr, dict(NS, C=ufc_simplex(d)))


def pulled_rows(S, el, mapping, rule, tables):
    """row of B: the physical degree of freedom given by its rule, applied to every pulled-back reference basis function"""
    d = S.d
    n = el.space_dimension()
    row = [Poly() for _ in range(n)]
    for t in rule:
        (ents, pw) = t["scale"]
        sc = Poly.of(1.0)
        for k, p in ents:
            if d == 2: sc = sc * (S.L[k] ** p if p >= 0 else Poly.of(1.0) / S.L[k] ** -p)
            else: raise Unsupported("area scaling")
        if pw: sc = sc * (S.absdet ** pw if pw > 0 else Poly.of(1.0) / S.absdet ** -pw)
        weights = dofspec.comps(d, t["order"], value_rank(t, el), S.vecs, t["dir"])
        # physical (derivative, component) pairs, expanded in reference derivatives and components with rational coefficients
        coeff = {}
        for (al, comp), w in weights.items():
            if isinstance(w, Poly) and not w.t: continue
            dirs = tuple(i for i, a in enumerate(al) for _ in range(a))
            for rd in itertools.product(range(d), repeat=len(dirs)):
                x = Poly.of(w)
                for i, a in zip(dirs, rd): x = x * S.K[a][i]
                for rc, y in pull(S, mapping, comp):
                    z = x * y
                    ra = [0] * d
                    for a in rd: ra[a] += 1
                    key = tuple(ra), rc
                    coeff[key] = coeff[key] + z if key in coeff else z
        for key, x in coeff.items():
            ra, rc = key
            num = np.zeros(n)
            for p, c in t["c"].items():
                num = num + c * tables(p, ra)[(slice(None),) + rc]
            for j in np.nonzero(abs(num) > 1e-13 * max(1.0, abs(num).max(initial=0.0)))[0]:
                row[j] = row[j] + x * sc * float(num[j])
    return row


def value_rank(t, el):
    return len(el.value_shape())


def pull(S, mapping, comp):
    """component of the pulled-back function in terms of the reference components"""
    if mapping == "affine":
        return [(comp, Poly.of(1.0))]
    out = [((), Poly.of(1.0))]
    kinds = mapping.replace("double ", "").split()
    kind = kinds[0]
    two = mapping.startswith("double")
    if kind not in ("contravariant", "covariant") or len(comp) != (2 if two else 1): raise Unsupported(mapping)
    for i in comp:
        m = [(S.J[i][j] / S.det if kind == "contravariant" else S.K[j][i]) for j in range(S.d)]
        out = [(rc + (j,), x * m[j]) for rc, x in out for j in range(S.d)]
    return out


def table_of(el, d):
    cache = {}
    def tables(p, al):
        k = p, sum(al)
        if k not in cache:
            cache[k] = {a: np.asarray(v)[..., 0] for a, v in el.tabulate(sum(al), [p]).items()}
        return cache[k][al]
    return tables


def nodal(expr, d, spec=None, unav=False):
    def run(c):
        S = Setting(d)
        fe = element(expr, d)
        el = fe._element
        R = dofspec.rules(spec or expr, d)
        if any(r is None for r in R): raise Unsupported(f"no rule for FIAT's degrees of freedom {[i for i, r in enumerate(R) if r is None]}")
        geo = Geo(d)
        c.cover(True)
        M = fe.basis_transformation(geo)
        c.cover(False)
        n, m = fe.space_dimension(), el.space_dimension()
        if not c.prove(tuple(M.shape) == (n, m), "shape (space dimension, dimension of the reference space)", M.shape): return
        M = S.matrix(M)
        tables = table_of(el, d)
        fac = [Poly.of(1.0)] * m
        if unav:
            for e, dofs in fe.entity_dofs()[1].items():
                for k in dofs[:unaveraged_moments(expr, fe)]: fac[k] = S.L[e]
        B = [[x * fac[k] for x in pulled_rows(S, el, el.mapping()[0], R[k], tables)] for k in range(m)]
        for i in range(n):
            bad = None
            for k in range(m):
                s, size = Poly(), 0.0
                for j in range(m):
                    if M[i, j].t and B[k][j].t:
                        p = M[i, j] * B[k][j]
                        s = s + p
                        size = max(size, p.size())
                ok, num = S.F.is_zero(s - (1.0 if i == k else 0.0), size)
                if not ok:
                    bad = f"degree of freedom {k} of basis function {i} differs from {int(i == k)}: {num.clean(TOL)}"
                    break
            c.prove(bad is None, f"basis function {i} is dual to the physical degrees of freedom", bad)
    return run


def unaveraged_moments(expr, fe):
    """number of normal-derivative moments per edge, listed first"""
    if "Powell" in expr: return 1
    return fe.degree - (5 if "Argyris" in expr else 3) + 1


CONTRACTS = [RunContract(f"{finat_name} on every affine {'interval triangle tetrahedron'.split()[int(d) - 1]}: transformed basis dual to the physical degrees of freedom", nodal(finat_name, int(d)),
                         bounded=bound(finat_name)) for finat_name, d in MAPPED]
CONTRACTS += [RunContract(f"{s} (moments not averaged) on every affine triangle: transformed basis dual to the physical degrees of freedom", nodal(s, 2, s.replace(")", ",avg=True)"), True),
                          bounded=bound(s)) for s in UNAVERAGED]

# ------------------------------------------------------------------ the transformation applied to the tables (any element, any point set)
def same_value(it, a, kw):
    """gem.optimise rewrites returning one expression (or one per argument): the same tensor"""
    it.eng.assumptions.add("gem.optimise constant_fold_zero and aggressive_unroll preserve the denotation")
    v = a[0]
    return v


OPT = {gem.optimise.constant_fold_zero: same_value, gem.optimise.aggressive_unroll: same_value}


def table_setup(cls):
    def setup(it):
        n, m = z3.Int("n"), z3.Int("m")
        it.eng.assume(n >= 1); it.eng.assume(m >= 1)
        vsh = Seq([], "tuple") if issubclass(cls, ScalarFiatElement) else shape_fun("vshape", (), it)
        o = new(it, cls)
        a = rargs(it)
        cm = SU(z3.Const("mapping", U))
        it.eng.assume(cm.e != z3.Const("None", U))
        tables = {}
        def base(it2, args, kw):
            v = dict(zip(["self", "order", "ps", "entity", "coordinate_mapping"], args)); v.update(kw)
            al = fresh_u("alpha")
            od = order_term(it2, v["order"])
            T = gm.tensor("tab", [al, od] + as_args(point_args(it2, v["ps"])) + [token(it2, v.get("entity"))], Seq([Elem(SInt(m))] + list(vsh.pieces), "tuple"))
            return PDict(it2.eng, Seq([Flat(al, Dom(keys=KeySet("derivatives", [od], U)), Seq([Elem((SU(al), T))]))]))
        def trans(it2, args, kw):
            v = dict(zip(["self", "coordinate_mapping"], args)); v.update(kw)
            return gm.tensor("M", [token(it2, v["coordinate_mapping"])], Seq([Elem(SInt(n)), Elem(SInt(m))], "tuple"))
        def value_shape(it2, args, kw): return it2.mk(vsh, "tuple")
        it.contracts = {**(it.contracts or {}), FiatElement.basis_evaluation: base, cls.basis_transformation: trans, FiatElement.value_shape.fget: value_shape}
        return [o, *a], {"coordinate_mapping": cm}, (n, m, vsh, a, cm)
    return setup


def table_ens(it, ctx, r):
    n, m, vsh, (order, ps, ent), cm = ctx
    al = fresh_u("alpha")
    ks = KeySet("derivatives", [order.e], U)
    T = gm.tensor("tab", [al, order.e, token(it, ps), token(it, ent)], Seq([Elem(SInt(m))] + list(vsh.pieces), "tuple"))
    M = gm.tensor("M", [cm.e], Seq([Elem(SInt(n)), Elem(SInt(m))], "tuple"))
    j = gm.new_index(it)
    i = gm.new_index(it)
    v = index_tuple(it, vsh)
    body = gm.node_op(it, "*", gm.indexed(it, M, Seq([Elem(i), Elem(j)], "tuple")), gm.indexed(it, T, Seq([Elem(j)] + list(v.pieces), "tuple")))
    want = gm.component_tensor(it, gm.index_sum(it, body, Seq([Elem(j)], "tuple")), Seq([Elem(i)] + list(v.pieces), "tuple"))
    it.eng.equal(r, PDict(it.eng, Seq([Flat(al, Dom(keys=ks), Seq([Elem((SU(al), want))]))])), "transformation applied to every table of the reference element")


def nomap_setup(cls):
    def setup(it):
        o = new(it, cls)
        return [o, *rargs(it)], {}, None
    return setup


def setup_classes():
    import finat as f
    return [c for c in vars(f).values() if isinstance(c, type) and issubclass(c, PhysicallyMappedElement) and issubclass(c, FiatElement)]


for cls in sorted(set(setup_classes()), key=lambda c: c.__name__):
    CONTRACTS.append(Contract(f"{cls.__name__}.basis_evaluation: the transformation applied to the reference tables", table_setup(cls), meth("basis_evaluation"), table_ens, models=OPT))
    CONTRACTS.append(Contract(f"{cls.__name__}.basis_evaluation without a coordinate mapping is rejected", nomap_setup(cls), meth("basis_evaluation"), must_raise, raises=lambda it, ctx, e: it.eng.ok("rejected")))


# ------------------------------------------------------------------ helpers
def sym_matrix(c, n, m=None):
    F = Field()
    A = [[Poly.var(F.new(f"a{i}{j}")) for j in range(m or n)] for i in range(n)]
    V = gem.Variable("A", (n, m or n))
    return F, A, np.array([[V[i, j] for j in range(m or n)] for i in range(n)], dtype=object).reshape(n, m or n)


def value(F, A, e):
    if isinstance(e, (int, float, np.number)): return Poly.of(float(e))
    return evaluate(F, e, {"A": np.array(A, dtype=object)})[()]


def det_run(n):
    def run(c):
        from finat.piola_mapped import determinant
        F, A, a = sym_matrix(c, n)
        c.cover(True)
        d = determinant(a)
        c.cover(False)
        diff = value(F, A, d) - leibniz(A)
        c.prove(diff.size() <= TOL, "Leibniz formula", diff)
    return run


def adj_run(n):
    def run(c):
        from finat.piola_mapped import adjugate
        F, A, a = sym_matrix(c, n)
        c.cover(True)
        r = adjugate(a)
        c.cover(False)
        if not c.prove(np.shape(r) == (n, n), "shape", np.shape(r)): return
        B = [[value(F, A, r[i][j]) for j in range(n)] for i in range(n)]
        det = leibniz(A)
        for i in range(n):
            for j in range(n):
                s = sum((A[i][k] * B[k][j] for k in range(1, n)), A[i][0] * B[0][j]) - (det if i == j else 0.0)
                c.prove(s.size() <= TOL, f"entry {(i, j)} of A adj(A) = det(A) I", s)
    return run


def piola_run(d):
    def run(c):
        from finat.piola_mapped import piola_inverse
        S = Setting(d)
        c.cover(True)
        r = piola_inverse(ufc_simplex(d), Geo(d).v["J"], Geo(d).v["det"])
        c.cover(False)
        for i in range(d):
            for j in range(d):
                s = Poly()
                for k in range(d):
                    e = r[i][k]
                    v = Poly.of(float(e)) if isinstance(e, (int, float, np.number)) else S.matrix(e)[()]
                    s = s + v * S.J[k][j] / S.det
                c.prove(S.F.is_zero(s - (1.0 if i == j else 0.0), s.size())[0], f"entry {(i, j)} of the inverse of the Piola map", s)
    return run


def identity_run(shape):
    def run(c):
        from finat.physically_mapped import identity
        c.cover(True)
        r = identity(*shape)
        c.cover(False)
        full = shape if len(shape) == 2 else shape * 2
        if not c.prove(r.shape == full, "shape", r.shape): return
        ok = all((isinstance(r[i], gem.gem.Zero) and i[0] != i[1]) or (not isinstance(r[i], gem.gem.Zero) and isinstance(r[i], gem.Literal) and r[i].value == float(i[0] == i[1])) for i in np.ndindex(*full))
        c.prove(ok, "zeros off the diagonal, ones on it", r)
    return run


CONTRACTS += [RunContract(f"determinant of a {n} x {n} matrix", det_run(n), bounded="matrices of this size; all entries") for n in (0, 1, 2, 3, 4, 5)]
CONTRACTS += [RunContract(f"adjugate of a {n} x {n} matrix", adj_run(n), bounded="matrices of this size; all entries") for n in (1, 2, 3, 4)]
CONTRACTS += [RunContract(f"piola_inverse in {d} dimensions", piola_run(d), bounded="this dimension; all cells") for d in (1, 2, 3)]
CONTRACTS += [RunContract(f"identity{shape}", identity_run(shape), bounded="this shape") for shape in [(1,), (4,), (5, 3), (3, 5), (21, 18)]]
