"""P02: tensor-product elements: tables are products of the factors' tables."""
from itertools import product as iproduct
import FIAT
from FIAT.polynomial_set import mis
from FIAT.reference_element import TensorProductCell
from .evals import *
import gem
from finat import tensor_product, cube
from finat.tensor_product import TensorProductElement
from finat.point_set import PointSet, PointSingleton, TensorPointSet
from pyvc.ndarray import NArr
from pyvc.models import model

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


class FactorCell(RangeCellFam):
    """reference cell of a factor, of known spatial dimension"""
    def __init__(self, name, sd):
        super().__init__(name)
        self.sd = sd
        self.schema.attrs["get_spatial_dimension"] = method(lambda it, o: sd)
        self.schema.attrs["get_dimension"] = method(lambda it, o: sd)
        self.schema.attrs["construct_subelement"] = lambda it, o: Model(lambda it2, a, k: self.sub(it2, a[0]), "construct_subelement")
        self.schema.attrs["is_simplex"] = method(lambda it, o: True)
    def sub(self, it, d):
        d = it.eng.force(deref(d))
        s = self.subdim(it, d)
        return Obj(self.name + "_sub", (token(it, d),), Schema("sub", {"get_spatial_dimension": method(lambda it2, o: s)}))
    def subdim(self, it, d):
        return d
    def count(self, it, d):
        n = z3.Int(f"{self.name}_n{d}")
        it.eng.assume(n >= 1)
        return n
    def topology(self, it, o, leaf=None):
        """any number n_d >= 1 of entities of each dimension (one cell)"""
        leaf = leaf or (lambda d, e: App("vertices", (wrapz(d), SInt(e))))
        items = []
        for d in range(self.sd + 1):
            e = fresh_int("ent")
            n = self.count(it, d) if d < self.sd else z3.IntVal(1)
            items.append(Elem((d, PDict(it.eng, Seq([Flat(e, Dom(n=n), Seq([Elem((SInt(e), leaf(z3.IntVal(d), e)))]))])))))
        return PDict(it.eng, Seq(items))


def tpc_model(it, a, kw):
    """FIAT.reference_element.TensorProductCell: product of the given cells"""
    cells = []
    for x in a:
        if isinstance(x, Star):
            s = it.eng.norm(x.seq)
            if not s.concrete:
                raise Unsupported("TensorProductCell of a symbolic number of cells")
            cells += [it.eng.force(deref(v)) for v in s.items()]
        else:
            cells.append(it.eng.force(deref(x)))
    cells = tuple(cells)
    call = lambda c, n: it.call(it.getattr(c, n), [], {})
    def gsd(it2, o):
        r = 0
        for c in cells:
            r = it2.binop("+", r, call(c, "get_spatial_dimension"))
        return r
    it.eng.assumptions.add("FIAT TensorProductCell(*cells): cells, dimension tuples and spatial dimension (sum) of the factors")
    return Obj("tpcell", (), Schema("tpcell", {"cells": lambda it2, o: cells, "get_spatial_dimension": method(gsd),
                                               "get_dimension": method(lambda it2, o: tuple(call(c, "get_dimension") for c in cells))},
                                    cls=(TensorProductCell,)))


MODELS = {TensorProductCell: tpc_model}


class Factor(EvalFam):
    """factor element whose tables have every derivative multi-index up to the order"""
    def __init__(self, i, sd, scalar=True):
        self.fc = FactorCell(f"cell{i}", sd)
        self.sd = sd
        super().__init__(f"f{i}", self.fc, vshape=(lambda it, ps: ()) if scalar else None)
    def tables(self, it, ps, order, pts, entity, cm=None, what="tab", f=lambda al, t: t):
        order = z3.simplify(order)
        if not z3.is_int_value(order):
            raise Unsupported("symbolic order")
        items = []
        for n in range(order.as_long() + 1):
            for al in mis(self.sd, n):
                t = gm.tensor(f"{self.name}_{what}_{'_'.join(map(str, al))}", [order] + as_args(pts) + [entity] + ([cm] if cm is not None else []), self.shape(it, ps))
                items.append(Elem((tuple(al), f(tuple(al), t))))
        return PDict(it.eng, Seq(items))


def all_derivs(sd, order):
    return [tuple(a) for n in range(order + 1) for a in mis(sd, n)]


def product_spec(it, fs, tabs):
    """tabs: one node per factor"""
    ish = [list(f.ishape_f(it, ()).pieces) for f in fs]
    vsh = [list(f.vshape_f(it, ()).pieces) for f in fs]
    full = Seq([p for s in ish + vsh for p in s], "tuple")
    def fn(s):
        s = list(s)
        parts = []
        for sh in ish + vsh:
            parts.append(s[:len(sh)])
            s = s[len(sh):]
        n = len(fs)
        r = None
        for k in range(n):
            x = gm.den(it, tabs[k], parts[k] + parts[n + k])
            r = x if r is None else r * x
        return r
    return gm.Fun(full, fn)


def split(Delta, sds):
    out, o = [], 0
    for d in sds:
        out.append(Delta[o:o + d])
        o += d
    return out


def build(it, sds, vector):
    fs = [Factor(i, sd, scalar=(i != vector)) for i, sd in enumerate(sds)]
    if vector is not None:
        # the one factor that may have a value shape
        r = z3.Int(f"f{vector}_vshape_rank")
        it.eng.assume(r >= 1)
    o = it.construct(TensorProductElement, [tuple(f.obj() for f in fs)], {})
    return fs, o


def merge_setup(sds, order, vector):
    def setup(it):
        fs, o = build(it, sds, vector)
        t = z3.Const("pt", U)
        res = [f.tables(it, (), z3.IntVal(order), t, t) for f in fs]
        return [o, res], {}, (fs, sds, order, t)
    return setup


def merge_ens(it, ctx, r):
    fs, sds, order, t = ctx
    items = []
    for Delta in all_derivs(sum(sds), order):
        tabs = [it.getitem(f.tables(it, (), z3.IntVal(order), t, t), d) for f, d in zip(fs, split(Delta, sds))]
        items.append(Elem((Delta, product_spec(it, fs, tabs))))
    it.eng.equal(r, PDict(it.eng, Seq(items)), "product of the factors' derivatives, basis indices in factor order then value indices")


CONFIGS = [((1,), None), ((2,), 0), ((1, 1), None), ((2, 1), None), ((2, 1), 0), ((1, 2), 1), ((1, 1), 1), ((1, 1, 1), None), ((1, 1, 1), 1), ((2, 1, 1), 0)]
for sds, v in CONFIGS:
    for order in (0, 1, 2, 3):
        if order == 3 and len(sds) > 2:
            continue
        C(f"TensorProductElement._merge_evaluations[factor dimensions {sds}, order {order}, {'scalar' if v is None else f'factor {v} with a value shape'}]",
          merge_setup(sds, order, v), meth("_merge_evaluations"), merge_ens, models=MODELS,
          bounded=f"number of factors {len(sds)}, their dimensions, derivative order {order}")


# ---- basis_evaluation on an entity of the product cell, factored points
def entity_of(it, fs, dims):
    """(entity argument, factor entities): every entity of the given dimensions"""
    ents, ns = [], []
    for f, d in zip(fs, dims):
        n = f.fc.count(it, d) if d < f.sd else z3.IntVal(1)
        e = fresh_int("e")
        it.eng.assume(z3.And(e >= 0, e < n))
        ents.append(e)
        ns.append(SInt(n))
    return (tuple(dims), SInt(gm.ravel(it, [SInt(e) for e in ents], ns))), [(d, SInt(e)) for d, e in zip(dims, ents)]


def point_set(name, dim, cls=PointSet):
    return Obj(name, (), Schema(name, {"dimension": lambda it, o: dim}, cls=(cls,), notcls=(TensorPointSet, PointSingleton)))


def be_setup(sds, order, vector, dims):
    def setup(it):
        fs, o = build(it, sds, vector)
        if dims is None:
            ent, ents = None, [(sd, 0) for sd in sds]
        else:
            ent, ents = entity_of(it, fs, dims)
        pss = [point_set(f"ps{i}", d) for i, (d, _) in enumerate(ents)]
        ps = it.construct(TensorPointSet, [tuple(pss)], {})
        return [o, order, ps, ent], {}, (fs, sds, order, ents, [token(it, p) for p in pss])
    return setup


def be_ens(what):
    def ens(it, ctx, r):
        fs, sds, order, ents, pts = ctx
        none = z3.Const("None", U) if what == "tab" else None
        items = []
        tabs = [f.tables(it, (), z3.IntVal(order), p, token(it, e), none, what) for f, p, e in zip(fs, pts, ents)]
        for Delta in all_derivs(sum(sds), order):
            items.append(Elem((Delta, product_spec(it, fs, [it.getitem(t, d) for t, d in zip(tabs, split(Delta, sds))]))))
        it.eng.equal(r, PDict(it.eng, Seq(items)), "product of the factors' derivatives at their own points on their own entity")
    return ens


def label(sds, order, v, dims):
    return f"factor dimensions {sds}, order {order}, {'scalar' if v is None else f'factor {v} with a value shape'}, " + \
        ("default entity" if dims is None else f"entities of dimension {dims}")


CELLS = [((1,), None), ((1, 1), None), ((1, 1), 1), ((2, 1), None), ((2, 1), 0), ((1, 1, 1), None), ((1, 1, 1), 2)]
for sds, v in CELLS:
    for dims in [None] + list(iproduct(*[range(sd + 1) for sd in sds])):
        for order in ((0, 1, 2) if len(sds) < 3 else (1,)):
            C(f"TensorProductElement.basis_evaluation[factored points, {label(sds, order, v, dims)}]", be_setup(sds, order, v, dims),
              meth("basis_evaluation"), be_ens("tab"), models=MODELS, bounded="number and dimensions of the factors, derivative order")


# ---- unfactored points: a vector of points with symbolic coordinates, a single point, a tensor set of other structure
def unfactored(it, kind, dim):
    if kind == "vector":
        n = z3.Int("npts")
        it.eng.assume(n >= 1)
        return it.construct(PointSet, [NArr.opaque("X", [], [n, dim])], {})
    if kind == "single":
        return it.construct(PointSingleton, [NArr.opaque("X", [], [dim])], {})
    if isinstance(kind, tuple):
        # a tensor set whose factors (of these dimensions) do not correspond to the element's factors; the array of
        # its points is taken from the contract of TensorPointSet.points (P11): one row per tuple of point indices
        out, rows = [], z3.IntVal(1)
        for i, d in enumerate(kind):
            n = z3.Int(f"npts{i}")
            it.eng.assume(n >= 1)
            rows = rows * n
            out.append(it.construct(PointSet, [NArr.opaque(f"X{i}", [], [n, d])], {}))
        ps = it.construct(TensorPointSet, [it.mk(Seq([Elem(x) for x in out], "list"), "list")], {})
        it.setattr(ps, "points", NArr.opaque("X", [], [rows if len(kind) > 1 else z3.Int("npts0"), sum(kind)]))
        return ps
    raise Unsupported(kind)


def regroupings(pdims):
    """tensor sets of the same dimension with another number of factors than the element"""
    D = sum(pdims)
    ks = [(D,)] + ([(1,) * D] if D != len(pdims) else [])
    return [k for k in ks if D and len(k) != len(pdims)]


def ub_setup(sds, order, vector, dims, kind):
    def setup(it):
        fs, o = build(it, sds, vector)
        ent, ents = (None, [(sd, 0) for sd in sds]) if dims is None else entity_of(it, fs, dims)
        ps = unfactored(it, kind, sum(d for d, _ in ents))
        coords = point_coords(it, ps)
        pts = split(coords, [d for d, _ in ents])
        return [o, order, ps, ent], {}, (fs, sds, order, ents, pts)
    return setup


for sds, v in CELLS:
    for dims in [None] + list(iproduct(*[range(sd + 1) for sd in sds])):
        for order in ((0, 1, 2) if len(sds) < 3 else (1,)):
            for kind in ("vector", "single", *(regroupings(sds if dims is None else dims) if order == 1 else ())):
                C(f"TensorProductElement.basis_evaluation[unfactored points: {kind if isinstance(kind, str) else 'tensor of dimensions ' + str(kind)}, {label(sds, order, v, dims)}]", ub_setup(sds, order, v, dims, kind),
                  meth("basis_evaluation"), be_ens("tab"), models=MODELS, bounded="number and dimensions of the factors, derivative order")


# ---- point_evaluation: the coordinates of the point split along the factors
def pe_setup(sds, order, vector, dims):
    def setup(it):
        fs, o = build(it, sds, vector)
        ent, ents = (None, [(sd, 0) for sd in sds]) if dims is None else entity_of(it, fs, dims)
        n = sum(d for d, _ in ents)
        X = gm.tensor("point", [], Seq([Elem(n)], "tuple"))
        coords = [gm.indexed(it, X, Seq([Elem(i)], "tuple")) for i in range(n)]
        pts = split(coords, [d for d, _ in ents])
        return [o, order, X, ent], {}, (fs, sds, order, ents, pts)
    return setup


for sds, v in CELLS:
    for dims in [None] + list(iproduct(*[range(sd + 1) for sd in sds])):
        if dims is not None and sum(dims) == 0:
            continue
        for order in ((0, 1, 2) if len(sds) < 3 else (1,)):
            C(f"TensorProductElement.point_evaluation[{label(sds, order, v, dims)}]", pe_setup(sds, order, v, dims),
              meth("point_evaluation"), be_ens("ptab"), models=MODELS, bounded="number and dimensions of the factors, derivative order")


# ---- dual basis: products of the factors' dual weights on the tensor product of their points
def db_setup(sds, vector):
    def setup(it):
        fs, o = build(it, sds, vector)
        return [o], {}, (fs,)
    return setup


def db_ens(it, ctx, r):
    fs, = ctx
    Q, ps = r
    duals = [f.dual(it, f.obj()) for f in fs]
    fac = it.getattr(ps, "factors")
    it.eng.equal(fac, tuple(d[1] for d in duals), "tensor product of the factors' point sets, in factor order")
    it.eng.equal(Q, product_spec(it, fs, [d[0] for d in duals]), "product of the factors' dual weights")


for sds, v in CELLS:
    C(f"TensorProductElement.dual_basis[{len(sds)} factors, {'scalar' if v is None else f'factor {v} with a value shape'}]", db_setup(sds, v),
      attr("dual_basis"), db_ens, models=MODELS, bounded="number of factors")


# ---- flattened cells
from . import flat # noqa: E402
flat.eval_contracts(C)
