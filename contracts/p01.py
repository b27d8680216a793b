import z3
from operator import methodcaller
from pyvc.values import *
from pyvc.verify import Contract
from pyvc.engine import deref
from .schemas import *
from finat import enriched, tensor_product, tensorfiniteelement

CONTRACTS = []


def _concat_setup(it):
    cell = CellFam()
    el = ElementFam("el", cell)
    n = z3.Int("n")
    it.eng.assume(n >= 1)
    els = family(el.obj, n)
    return [cell.obj(), els, methodcaller("entity_dofs")], {}, (cell, el, n)


def _concat_ensures(it, ctx, r):
    cell, el, n = ctx
    eng = it.eng
    u = fresh_int()
    def leaf(d, e):
        i, k = fresh_int("i"), fresh_int("k")
        nd = z3.Function("el_dof_len", z3.IntSort(), U, z3.IntSort(), z3.IntSort())
        dof = z3.Function("el_dof", z3.IntSort(), U, z3.IntSort(), z3.IntSort(), z3.IntSort())
        dim = z3.Function("el_dim", z3.IntSort(), z3.IntSort())
        off = eng.sum_over(u, Dom(n=i), dim(u))
        return PList(eng, Seq([Flat(i, Dom(n=n), Seq([Flat(k, Dom(n=nd(i, d, e)), Seq([Elem(SInt(off + dof(i, d, e, k)))]))]))]))
    eng.equal(r, cell.topology(it, cell.obj(), leaf), "consecutive blocks in element order")


CONTRACTS.append(Contract("concatenate_entity_dofs", _concat_setup, enriched.concatenate_entity_dofs, _concat_ensures))


# ---- TensorFiniteElement._entity_dofs
def _tfe_setup(transpose):
    def setup(it):
        cell = CellFam()
        el = ElementFam("base", cell)
        base = el.obj()
        shape = sym_shape(it, "shape")
        o = it.construct(tensorfiniteelement.TensorFiniteElement, [base, shape], {"transpose": transpose})
        return [o], {}, (cell, el, base, shape, transpose)
    return setup


def _tfe_ensures(it, ctx, r):
    cell, el, base, shape, transpose = ctx
    eng = it.eng
    u = fresh_int()
    nd = eng.sum_over(u, shape.pieces[0].dom, subst(shape.pieces[0].body.pieces[0].v, [(shape.pieces[0].var, u)]).e, "PROD")
    ln = z3.Function("base_dof_len", U, z3.IntSort(), z3.IntSort())
    dof = z3.Function("base_dof", U, z3.IntSort(), z3.IntSort(), z3.IntSort())
    dim = z3.Int("base_dim") if False else el.dim(it, base).e
    def leaf(d, e):
        i, k = fresh_int("c"), fresh_int("k")
        if transpose:
            return PList(eng, Seq([Flat(i, Dom(n=nd), Seq([Flat(k, Dom(n=ln(d, e)), Seq([Elem(SInt(dof(d, e, k) + i * dim))]))]))]))
        return PList(eng, Seq([Flat(k, Dom(n=ln(d, e)), Seq([Flat(i, Dom(n=nd), Seq([Elem(SInt(dof(d, e, k) * nd + i))]))]))]))
    eng.equal(r, cell.topology(it, cell.obj(), leaf), "component-" + ("slowest" if transpose else "fastest") + " numbering")


for tr in (False, True):
    CONTRACTS.append(Contract(f"TensorFiniteElement._entity_dofs[transpose={tr}]", _tfe_setup(tr),
                              tensorfiniteelement.TensorFiniteElement._entity_dofs.func, _tfe_ensures))


# ---- productise
def _prod_setup(arity):
    def setup(it):
        cells = [RangeCellFam(f"cell{i}") for i in range(arity)]
        els = [ElementFam(f"f{i}", c) for i, c in enumerate(cells)]
        return [tuple(e.obj() for e in els), methodcaller("entity_dofs")], {}, (cells, els)
    return setup


def _prod_ensures(it, ctx, r):
    cells, els = ctx
    eng = it.eng
    n = len(cells)
    objs = [e.obj() for e in els]
    dims = [e.dim(it, o).e for e, o in zip(els, objs)]
    ds = [fresh_u("d") for _ in range(n)]
    es = [fresh_int("e") for _ in range(n)]
    ks = [fresh_int("k") for _ in range(n)]
    nents = [c.nents((), d) for c, d in zip(cells, ds)]
    dofs = [z3.Function(f"f{i}_dof", U, z3.IntSort(), z3.IntSort(), z3.IntSort())(ds[i], es[i], ks[i]) for i in range(n)]
    lens = [z3.Function(f"f{i}_dof_len", U, z3.IntSort(), z3.IntSort())(ds[i], es[i]) for i in range(n)]
    num = dofs[0]
    for i in range(1, n):
        num = num * dims[i] + dofs[i]
    body = Seq([Elem(SInt(num))])
    for i in reversed(range(n)):
        body = Seq([Flat(ks[i], Dom(n=lens[i]), body)])
    ent = es[0]
    for i in range(1, n):
        ent = ent * nents[i] + es[i]
    inner = Seq([Elem((SInt(ent), PList(eng, body)))])
    for i in reversed(range(n)):
        inner = Seq([Flat(es[i], Dom(n=nents[i]), inner)])
    items = Seq([Elem((tuple(SU(d) for d in ds), PDict(eng, inner)))])
    for i in reversed(range(n)):
        items = Seq([Flat(ds[i], Dom(keys=cells[i].dims(())), items)])
    eng.equal(r, PDict(eng, items), "last factor fastest")


for ar in (1, 2, 3):
    CONTRACTS.append(Contract(f"productise[{ar} factors]", _prod_setup(ar), tensor_product.productise, _prod_ensures,
                              bounded=f"number of factors = {ar}"))


# ================================================================ further elements
from .common import attr, meth, new, flat, driver, wrapz, zi, Choice, opaque
from finat import discontinuous, quadrature_element, direct_serendipity, cube, fiat_elements
import numpy
import FIAT
import os


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


# ---- EnrichedElement.entity_dofs: the method itself, including the choice of the reference cell
def _ee_setup(name):
    def setup(it):
        cell = CellFam()
        el = ElementFam("el", cell, extra={"cell": lambda it, o: cell.obj()})
        n = z3.Int("n")
        it.eng.assume(n >= 1)
        return [new(it, enriched.EnrichedElement, elements=family(el.obj, n))], {}, (cell, el, n)
    return setup


def _concat_spec(fname):
    def ens(it, ctx, r):
        cell, el, n = ctx
        eng = it.eng
        u = fresh_int()
        def leaf(d, e):
            i, k = fresh_int("i"), fresh_int("k")
            nd = z3.Function(fname + "_len", z3.IntSort(), U, z3.IntSort(), z3.IntSort())
            dof = z3.Function(fname, z3.IntSort(), U, z3.IntSort(), z3.IntSort(), z3.IntSort())
            dim = z3.Function("el_dim", z3.IntSort(), z3.IntSort())
            off = eng.sum_over(u, Dom(n=i), dim(u))
            return PList(eng, Seq([Flat(i, Dom(n=n), Seq([Flat(k, Dom(n=nd(i, d, e)), Seq([Elem(SInt(off + dof(i, d, e, k)))]))]))]))
        eng.equal(r, cell.topology(it, cell.obj(), leaf), "consecutive blocks in element order")
    return ens


C("EnrichedElement.entity_dofs", _ee_setup("el"), meth("entity_dofs"), _concat_spec("el_dof"))


# ---- TensorProductElement.entity_dofs (method)
def _tpe_setup(arity):
    def setup(it):
        cells = [RangeCellFam(f"cell{i}") for i in range(arity)]
        els = [ElementFam(f"f{i}", c) for i, c in enumerate(cells)]
        return [new(it, tensor_product.TensorProductElement, factors=tuple(e.obj() for e in els))], {}, (cells, els)
    return setup


C("TensorProductElement.entity_dofs[2 factors]", _tpe_setup(2), meth("entity_dofs"), _prod_ensures, bounded="number of factors = 2")


# ---- everything in the interior
def _interior_cell():
    top = z3.Const("top", U)
    c = RangeCellFam("icell")
    c.schema.attrs["get_dimension"] = method(lambda it, o: SU(top))
    return c, top


def _interior_pre(it, cell, top):
    eng = it.eng
    eng.assume(cell.dims(()).member(top))
    eng.assume(cell.nents((), top) == 1)


def _interior_ens(it, ctx, r):
    cell, top, dim = ctx
    eng = it.eng
    def leaf(d, e):
        k = fresh_int("k")
        return PList(eng, Seq([Alt([(d == top, Seq([Flat(k, Dom(n=dim), Seq([Elem(SInt(k))]))])), (d != top, Seq())])]))
    eng.equal(r, cell.topology(it, cell.obj(), leaf), "all degrees of freedom in the interior, in order")


def _disc_setup(it):
    cell, top = _interior_cell()
    _interior_pre(it, cell, top)
    el = ElementFam("base", cell)
    dim = el.dim(it, el.obj()).e
    return [it.construct(discontinuous.DiscontinuousElement, [el.obj()], {})], {}, (cell, top, dim)


C("DiscontinuousElement.entity_dofs", _disc_setup, meth("entity_dofs"), _interior_ens)


def _quad_setup(it):
    cell, top = _interior_cell()
    _interior_pre(it, cell, top)
    ext = z3.Function("extent", z3.IntSort(), z3.IntSort())
    x = z3.Int("x")
    it.eng.fact(z3.ForAll([x], ext(x) >= 0, patterns=[ext(x)]))
    n = z3.Int("nidx")
    it.eng.assume(n >= 0)
    ps = Obj("ps", (), Schema("ps", {"indices": lambda it, o: family(lambda i: Obj("index", (i,), Schema("index", {"extent": lambda it, o: SInt(ext(o.params[0]))})), n)}))
    rule = Obj("rule", (), Schema("rule", {"point_set": lambda it, o: ps}))
    o = new(it, quadrature_element.QuadratureElement, cell=cell.obj(), _rule=rule)
    u = fresh_int()
    return [o], {}, (cell, top, it.eng.sum_over(u, Dom(n=n), ext(u), "PROD"))


C("QuadratureElement.entity_dofs", _quad_setup, meth("entity_dofs"), _interior_ens)


# ---- serendipity numbering: vertices, edges in order, interior; every degree
def _ds_setup(it):
    d = z3.Int("degree")
    it.eng.assume(d >= 1)
    quad = Obj("quadrilateral", (), Schema("quadrilateral", cls=(FIAT.reference_element.UFCQuadrilateral,)))
    return [it.construct(direct_serendipity.DirectSerendipity, [quad, SInt(d)], {})], {}, d


def ds_spec(it, d):
    """vertices 0..3, then d-1 per edge in edge order, then the interior"""
    eng = it.eng
    k = fresh_int("k")
    run = lambda lo, n: PList(eng, Seq([Flat(k, Dom(n=n), Seq([Elem(SInt(lo + k))]))]))
    inter = z3.If(d >= 4, (d - 3) * (d - 2) / 2, 0)
    def D(pairs):
        return PDict(eng, Seq([Elem(p) for p in pairs]))
    return D([(0, D([(i, PList(eng, Seq([Elem(i)]))) for i in range(4)])),
              (1, D([(i, run(4 + i * (d - 1), d - 1)) for i in range(4)])),
              (2, D([(0, run(4 + 4 * (d - 1), inter))]))])


def _ds_ens(it, d, r):
    it.eng.equal(r, ds_spec(it, d), "vertices, edges in order, interior")


C("DirectSerendipity.entity_dofs[every degree >= 1]", _ds_setup, meth("entity_dofs"), _ds_ens)


def _ds_dim(it, d, r):
    inter = z3.If(d >= 4, (d - 3) * (d - 2) / 2, 0)
    it.eng.equal(r, SInt(4 + 4 * (d - 1) + inter), "4 vertices + 4(d-1) edge nodes + interior")


C("DirectSerendipity.space_dimension[every degree >= 1]", _ds_setup, meth("space_dimension"), _ds_dim)


# ---- flattened cells
from . import flat # noqa: E402
flat.dofs_contracts(C, "entity_dofs")
