"""P20: closure and support sets of entities."""
from .evals import *
import numpy
from fractions import Fraction
import FIAT
import gem
import finat
from FIAT.reference_element import (Point, UFCInterval, UFCTriangle, UFCTetrahedron, UFCQuadrilateral, UFCHexahedron, TensorProductCell)
from gem.interpreter import evaluate
from finat.finiteelementbase import FiniteElementBase
from finat.quadrature import make_quadrature
from finat import enriched, tensor_product, tensorfiniteelement, discontinuous, hdivcurl, mixed, cube, finiteelementbase
from . import p01

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


class Plain(FiniteElementBase):
    """an element that inherits everything the base class provides; what it must define comes from the instance"""
    cell = complex = degree = formdegree = entity_dofs = space_dimension = index_shape = value_shape = basis_evaluation = point_evaluation = mapping = None


# ------------------------------------------------------------------ closures: any cell, any numbering
def sorted_model(it, a, kw):
    """sorted(l): the list with the members of l in increasing order (kept as a term; equal to sorted(m) when l is m)"""
    if kw:
        raise Unsupported("sorted with a key")
    s = it.eng.norm(it.iter_seq(a[0]))
    return App("sorted", (s.as_kind("list"),))


def closure_cell(it):
    cell = CellFam()
    nsub = lambda d, e: z3.Function("nsub", U, I, I)(d, e)
    sd = lambda d, e, j: z3.Function("subdim", U, I, I, U)(d, e, j)
    se = lambda d, e, j: z3.Function("subent", U, I, I, I)(d, e, j)
    d, e, j = z3.Const("d", U), z3.Int("e"), z3.Int("j")
    it.eng.fact(z3.ForAll([d, e], nsub(d, e) >= 0, patterns=[nsub(d, e)]))
    # the sub-entities of an entity are entities of the cell
    it.eng.fact(z3.ForAll([d, e, j], z3.And(cell.dims(()).member(sd(d, e, j)), cell.ents((), sd(d, e, j)).member(se(d, e, j))), patterns=[sd(d, e, j)]))
    it.eng.fact(z3.ForAll([d, e, j], z3.And(cell.dims(()).member(sd(d, e, j)), cell.ents((), sd(d, e, j)).member(se(d, e, j))), patterns=[se(d, e, j)]))
    def leaf(d, e):
        k = fresh_int()
        return PList(it.eng, Seq([Flat(k, Dom(n=nsub(d, e)), Seq([Elem((SU(sd(d, e, k)), SInt(se(d, e, k))))]))], "list"))
    cell.schema.attrs["sub_entities"] = lambda it2, o: cell.topology(it2, o, leaf)
    return cell, (nsub, sd, se)


def closure_setup(it):
    cell, subs = closure_cell(it)
    el = ElementFam("el", cell)
    o = new(it, Plain, cell=cell.obj(), entity_dofs=Model(lambda it2, a, k: el.dofdict(it2, el.obj(), "el_dof"), "entity_dofs"))
    return [o], {}, (cell, subs)


def closure_ens(it, ctx, r):
    cell, (nsub, sd, se) = ctx
    def leaf(d, e):
        j, k = fresh_int("j"), fresh_int("k")
        ln = z3.Function("el_dof_len", U, I, I)
        f = z3.Function("el_dof", U, I, I, I)
        return App("sorted", (Seq([Flat(j, Dom(n=nsub(d, e)), Seq([Flat(k, Dom(n=ln(sd(d, e, j), se(d, e, j))), Seq([Elem(SInt(f(sd(d, e, j), se(d, e, j), k)))]))]))], "list"),))
    it.eng.equal(r, cell.topology(it, cell.obj(), leaf), "the degrees of freedom of all sub-entities of the entity, sorted")


C("FiniteElementBase.entity_closure_dofs[any cell, any numbering]", closure_setup, meth("entity_closure_dofs"), closure_ens, models={sorted: sorted_model})


# ------------------------------------------------------------------ wrappers report those of the wrapped element
def wrapped_setup(cls, field, cellfield=False):
    def setup(it):
        cell = CellFam()
        el = ElementFam("el", cell)
        return [new(it, cls, **{field: el.obj()})], {}, (cell, el)
    return setup


def same(fname):
    def ens(it, ctx, r):
        cell, el = ctx
        it.eng.equal(r, el.dofdict(it, el.obj(), fname), "those of the wrapped element")
    return ens


for cls, field in ((hdivcurl.HDivElement, "wrappee"), (hdivcurl.HCurlElement, "wrappee"), (mixed.MixedSubElement, "element")):
    for m, f in (("entity_closure_dofs", "el_cdof"), ("entity_support_dofs", "el_sdof"), ("entity_dofs", "el_dof")):
        C(f"{cls.__name__}.{m}", wrapped_setup(cls, field), meth(m), same(f))
C("DiscontinuousElement.entity_support_dofs", wrapped_setup(discontinuous.DiscontinuousElement, "element"), meth("entity_support_dofs"), same("el_sdof"))


# ------------------------------------------------------------------ composites combine those of their parts in their own numbering
C("EnrichedElement.entity_support_dofs", p01._ee_setup("el"), meth("entity_support_dofs"), p01._concat_spec("el_sdof"))


def tfe_setup(transpose):
    def setup(it):
        cell = CellFam()
        el = ElementFam("base", cell)
        shape = sym_shape(it, "shape")
        o = it.construct(tensorfiniteelement.TensorFiniteElement, [el.obj(), shape], {"transpose": transpose})
        return [o], {}, (cell, el, el.obj(), shape, transpose)
    return setup


def tfe_ens(it, ctx, r):
    cell, el, base, shape, transpose = ctx
    eng = it.eng
    u = fresh_int()
    nd = eng.sum_over(u, shape.pieces[0].dom, subst(shape.pieces[0].body.pieces[0].v, [(shape.pieces[0].var, u)]).e, "PROD")
    ln, dof = z3.Function("base_sdof_len", U, I, I), z3.Function("base_sdof", U, I, I, I)
    dim = el.dim(it, base).e
    def leaf(d, e):
        i, k = fresh_int("c"), fresh_int("k")
        if transpose:
            return PList(eng, Seq([Flat(i, Dom(n=nd), Seq([Flat(k, Dom(n=ln(d, e)), Seq([Elem(SInt(dof(d, e, k) + i * dim))]))]))]))
        return PList(eng, Seq([Flat(k, Dom(n=ln(d, e)), Seq([Flat(i, Dom(n=nd), Seq([Elem(SInt(dof(d, e, k) * nd + i))]))]))]))
    eng.equal(r, cell.topology(it, cell.obj(), leaf), "every component of the base element's")


for tr in (False, True):
    C(f"TensorFiniteElement.entity_support_dofs[transpose={tr}]", tfe_setup(tr), meth("entity_support_dofs"), tfe_ens)


def tp_ens(it, ctx, r):
    """as the numbering of P01, with the support sets in place of the degrees of freedom"""
    cells, els = ctx
    eng = it.eng
    n = len(cells)
    dims = [e.dim(it, e.obj()).e for e in els]
    ds, es, ks = [fresh_u("d") for _ in range(n)], [fresh_int("e") for _ in range(n)], [fresh_int("k") for _ in range(n)]
    nents = [c.nents((), d) for c, d in zip(cells, ds)]
    dofs = [z3.Function(f"f{i}_sdof", U, I, I, I)(ds[i], es[i], ks[i]) for i in range(n)]
    lens = [z3.Function(f"f{i}_sdof_len", U, I, I)(ds[i], es[i]) for i in range(n)]
    num, ent = dofs[0], es[0]
    for i in range(1, n):
        num, ent = num * dims[i] + dofs[i], ent * nents[i] + es[i]
    body = Seq([Elem(SInt(num))])
    for i in reversed(range(n)):
        body = Seq([Flat(ks[i], Dom(n=lens[i]), body)])
    inner = Seq([Elem((SInt(ent), PList(eng, body)))])
    for i in reversed(range(n)):
        inner = Seq([Flat(es[i], Dom(n=nents[i]), inner)])
    items = Seq([Elem((tuple(SU(d) for d in ds), PDict(eng, inner)))])
    for i in reversed(range(n)):
        items = Seq([Flat(ds[i], Dom(keys=cells[i].dims(())), items)])
    eng.equal(r, PDict(eng, items), "products of the factors' support sets, last factor fastest")


for ar in (1, 2, 3):
    C(f"TensorProductElement.entity_support_dofs[{ar} factors]", p01._tpe_setup(ar), meth("entity_support_dofs"), tp_ens)


# ------------------------------------------------------------------ support of simple elements: every reference cell, any tabulation
Iv = UFCInterval
CELLS = {"point": Point, "interval": Iv, "triangle": UFCTriangle, "tetrahedron": UFCTetrahedron, "quadrilateral": UFCQuadrilateral, "hexahedron": UFCHexahedron,
         "interval x interval": lambda: TensorProductCell(Iv(), Iv()), "triangle x interval": lambda: TensorProductCell(UFCTriangle(), Iv()), "interval x interval x interval": lambda: TensorProductCell(Iv(), Iv(), Iv()),
         "quadrilateral x interval": lambda: TensorProductCell(UFCQuadrilateral(), Iv())}
EPS = 1e-8


def evaluate_model(it, a, kw):
    """gem.interpreter.evaluate: the entries of expressions without free indices"""
    it.eng.assumptions.add("gem.interpreter.evaluate gives the values of GEM expressions (arithmetic on reals)")
    out = []
    for x in as_seq_(as_seq(it.eng.force(deref(a[0])))).items():
        g = gm.as_node(it, x)
        sh = [zi(v) for v in as_seq_(it.eng.norm(g.shape)).items()]
        arr = NArr(sh, lambda it2, ix, g=g: SReal(gm.den(it2, g, [gm.Slot("i", t) for t in ix])))
        out.append(Obj("evaluated", (), Schema("evaluated", {"arr": lambda it2, o, arr=arr: arr, "fids": lambda it2, o: ()})))
    return it.eng.new_list(seq_of(out, "list"))


class Rules:
    pass


def rule_of(it, tag):
    n = z3.Function("rule_n", U, I)(tag)
    it.eng.fact(n >= 1)
    q = gm.GIndex("q", (tag,))
    gm.store_extent(it, q, SInt(n))
    ps = Obj("rule_ps", (tag,), Schema("rule_ps", {"indices": lambda it2, o: (q,)}))
    w = gm.indexed(it, gm.tensor("rule_w", [tag], Seq([Elem(SInt(n))], "tuple")), Seq([Elem(q)], "tuple"))
    return Obj("rule", (tag,), Schema("rule", {"point_set": lambda it2, o: ps, "weight_expression": lambda it2, o: w})), ps, w, q


def dim_tag(d):
    return z3.Const("dim_" + "_".join(map(str, d if isinstance(d, tuple) else (d,))), U)


def support_setup(cellname, irank, vrank, deg):
    def setup(it):
        cell = CELLS[cellname]()
        rec = Rules()
        rec.rules = {}
        ish = tuple(SInt(z3.Int(f"i{k}")) for k in range(irank))
        vsh = tuple(SInt(z3.Int(f"v{k}")) for k in range(vrank))
        for s in ish + vsh:
            it.eng.assume(s.e >= 1)
        cplx = Obj("complex", (), Schema("complex", {"construct_subcomplex": lambda it2, o: Model(lambda it3, a, k: Obj("subcomplex", (dim_tag(it3.concretize(a[0])),), Schema("subcomplex", {})), "construct_subcomplex")}))
        dg = tuple(z3.Int(f"deg{k}") for k in range(deg or 1))
        for d in dg:
            it.eng.assume(d >= 0)
        degree = SInt(dg[0]) if not deg else tuple(SInt(d) for d in dg)
        def mkq(it2, a, kw):
            v = dict(zip(["ref_el", "degree", "scheme"], a)); v.update(kw)
            c = deref(v["ref_el"])
            if not (isinstance(c, Obj) and c.name == "subcomplex"):
                raise Unsupported(f"quadrature on {c!r}")
            it2.eng.assumptions.add("make_quadrature(cell, degree): exact to the degree (P10)")
            got = it2.eng.force(deref(v["degree"]))
            got = [it2.eng.force(x) for x in as_seq_(as_seq(got)).items()] if as_seq(got) is not None else [got] * len(dg)
            it2.eng.prove(z3.And(z3.BoolVal(len(got) == len(dg)), *[zi(g) >= 2 * d for g, d in zip(got, dg)]), "the rule integrates squares of basis functions exactly")
            return rule_of(it2, c.params[0])[0]
        def tab(it2, o, a, kw):
            v = dict(zip(["order", "ps", "entity", "coordinate_mapping"], a)); v.update(kw)
            it2.eng.equal(v["order"], 0, "values")
            ps = deref(v["ps"])
            d, f = it2.concretize(v["entity"])
            it2.eng.prove(z3.BoolVal(isinstance(ps, Obj) and z3.eq(ps.params[0], dim_tag(d))), "at the points of the entity's own rule")
            t = table(it2, d, f, ish, vsh)
            return PDict(it2.eng, Seq([Elem((SU(z3.Const("zero_alpha", U)), t))]))
        top = cell.get_topology()
        dofs = {d: {f: [] for f in es} for d, es in top.items()}
        o = new(it, Plain, cell=cell, complex=cplx, degree=degree, index_shape=ish, value_shape=vsh,
                entity_dofs=Model(lambda it2, a, k: it2.lift(dofs), "entity_dofs"), basis_evaluation=Model(lambda it2, a, k: tab(it2, None, a, k), "basis_evaluation"))
        it.contracts = {**it.contracts, make_quadrature: mkq}
        return [o], {}, (top, ish, vsh)
    return setup


def table(it, d, f, ish, vsh):
    """values of the basis functions at the points of the rule of dimension d on entity f of that dimension"""
    tag = dim_tag(d)
    _, ps, w, q = rule_of(it, tag)
    n = z3.Function("rule_n", U, I)(tag)
    t = gm.tensor("basis", [tag, z3.IntVal(f)], Seq([Elem(SInt(n))] + [Elem(x) for x in ish + vsh], "tuple"))
    ix = index_tuple(it, Seq([Elem(x) for x in ish + vsh], "tuple"))
    return gm.component_tensor(it, gm.indexed(it, t, Seq([Elem(q)] + list(ix.pieces), "tuple")), ix)


def support_ens(it, ctx, r):
    top, ish, vsh = ctx
    e = it.eng
    N = z3.IntVal(1)
    for s in ish:
        N = N * s.e
    out = []
    for d, es in top.items():
        inner = []
        for f in es:
            t = table(it, d, f, ish, vsh)
            _, ps, w, q = rule_of(it, dim_tag(d))
            u = fresh_int("dof")
            b = index_tuple(it, Seq([Elem(x) for x in ish], "tuple"))
            z = index_tuple(it, Seq([Elem(x) for x in vsh], "tuple"))
            v = gm.indexed(it, t, Seq(list(b.pieces) + list(z.pieces), "tuple"))
            sq = gm.scalar_op(it, "prod", gm.scalar_op(it, "prod", v, v), w)
            node = gm.component_tensor(it, gm.index_sum(it, sq, Seq([Elem(q)] + list(z.pieces), "tuple")), b)
            val = gm.den(it, node, gm.unravel_slots(it, Seq([Elem(x) for x in ish], "tuple"), u))
            c = val > z3.RealVal(str(Fraction(EPS)))
            inner.append((f, PList(e, Seq([Flat(u, Dom(n=N), Seq([Alt([(c, Seq([Elem(SInt(u))])), (z3.Not(c), Seq())])]))]))))
        out.append((d, PDict(e, Seq([Elem(p) for p in inner]))))
    e.equal(r, PDict(e, Seq([Elem(p) for p in out])), "the functions whose square has a non-zero integral over the entity")


for cellname in CELLS:
    C(f"FiniteElementBase.entity_support_dofs[{cellname}, scalar]", support_setup(cellname, 1, 0, 0), meth("entity_support_dofs"), support_ens, models={evaluate: evaluate_model})
for vr in (1, 2):
    C(f"FiniteElementBase.entity_support_dofs[triangle, value rank {vr}]", support_setup("triangle", 1, vr, 0), meth("entity_support_dofs"), support_ens, models={evaluate: evaluate_model})
for ir in (2, 3):
    C(f"FiniteElementBase.entity_support_dofs[product cell, index rank {ir}]", support_setup("interval x interval", ir, 0, 2), meth("entity_support_dofs"), support_ens, models={evaluate: evaluate_model})


# ---- flattened cells
from . import flat # noqa: E402
flat.dofs_contracts(C, "entity_support_dofs")
