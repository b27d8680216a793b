"""P09: dual evaluation."""
from .evals import *
import itertools
import numpy
import gem
from finat import finiteelementbase, quadrature_element
from finat.finiteelementbase import FiniteElementBase
from finat.fiat_elements import FiatElement
from finat.quadrature_element import QuadratureElement
from pyvc.ndarray import NArr, MArr
from pyvc.verify import driver

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


# ---- FiniteElementBase.dual_evaluation: any element, any index and value shapes, any function
class DualFam(EvalFam):
    """element whose dual evaluation is the base class's, with k point indices"""
    def __init__(self, k, vshape=None):
        super().__init__("el", CellFam(), vshape=vshape)
        self.k = k
    def points_indices(self, it, o):
        if not hasattr(self, "ix"):
            self.ix = []
            for i in range(self.k):
                n = z3.Int(f"npts{i}")
                it.eng.assume(n >= 1)
                g = gm.GIndex(f"pt{i}", ())
                gm.store_extent(it, g, SInt(n))
                self.ix.append(g)
        return self.ix


def deval_setup(k, fsize):
    def setup(it):
        el = DualFam(k)
        o = el.obj()
        pts = el.points(it, o)
        ix = el.points_indices(it, o)
        vsh = Seq(list(as_seq_(el.vshape_f(it, ())).pieces), "tuple")
        extra = [gm.new_index(it, SInt(z3.Int("arg_n")))] if fsize else []
        if fsize:
            it.eng.assume(z3.Int("arg_n") >= 1)
        F = gm.tensor("fn", [], Seq([Elem(gm.extent_of(it, i)) for i in ix + extra] + list(vsh.pieces), "tuple"))
        def call(it2, a, kw):
            it2.eng.equal(a[0], pts, "fn is evaluated at the dual basis points")
            idx = index_tuple(it2, vsh)
            return gm.component_tensor(it2, gm.indexed(it2, F, Seq([Elem(i) for i in ix + extra] + list(idx.pieces), "tuple")), idx)
        return [o, Model(call, "fn")], {}, (el, F, ix, extra)
    return setup


def deval_ens(it, ctx, r):
    el, F, ix, extra = ctx
    expr, idx = r
    got = gm.component_tensor(it, expr, gm.as_mi(it, idx))
    ish = list(as_seq_(el.ishape_f(it, ())).pieces)
    vsh = list(as_seq_(el.vshape_f(it, ())).pieces)
    Q, _ = el.dual(it, el.obj())
    w, b = index_tuple(it, Seq(vsh, "tuple")), index_tuple(it, Seq(ish, "tuple"))
    node = gm.index_sum(it, gm.scalar_op(it, "prod", gm.indexed(it, Q, Seq(list(b.pieces) + list(w.pieces), "tuple")),
                                         gm.indexed(it, F, Seq([Elem(q) for q in ix + extra] + list(w.pieces), "tuple"))),
                        Seq([Elem(q) for q in ix] + list(w.pieces), "tuple"))
    it.eng.equal(got, gm.component_tensor(it, node, b), "the weights contracted with the function over points and value components")


@driver
def base_deval(it, args, kw):
    return it.call(FiniteElementBase.dual_evaluation, args, kw)


for k in (0, 1, 2, 3):
    for arg in (False, True):
        C(f"FiniteElementBase.dual_evaluation[{k} point indices{', function with an argument index' if arg else ''}]", deval_setup(k, arg), base_deval, deval_ens)


# ---- FiatElement.dual_basis: the functionals' weights at the collected points
FN = lambda p, cmp: z3.Function("fn_at", *[z3.RealSort()] * len(p), *[I] * len(cmp), z3.RealSort())(*[z3.RealVal(str(x)) for x in p], *[z3.IntVal(c) for c in cmp])


def functionals(spec):
    """spec: per functional a list of (point, [components]) ; every weight is an unknown real"""
    out = []
    for i, d in enumerate(spec):
        pd = {}
        for p, cmps in d:
            pd[p] = [(z3.Real("w_%d_%s_%s" % (i, "_".join(map(str, p)), "_".join(map(str, c)))), c) for c in cmps]
        out.append(pd)
    return out


def fd_setup(spec):
    def setup(it):
        fs = functionals(spec)
        objs = []
        for i, d in enumerate(fs):
            pd = {p: [(SReal(w), c) for w, c in ws] for p, ws in d.items()}
            objs.append(Obj(f"functional{i}", (), Schema(f"functional{i}", {"deriv_dict": lambda it2, o: it2.eng.new_dict(Seq()) if hasattr(it2.eng, "new_dict") else PDict(it2.eng, Seq()),
                                                                            "get_point_dict": method(lambda it2, o, pd=pd: it2.lift(pd))})))
        fe = Obj("fe", (), Schema("fe", {"dual_basis": method(lambda it2, o: it2.eng.new_list(Seq([Elem(x) for x in objs], "list")))}))
        return [it.construct(FiatElement, [fe], {})], {}, (spec, fs)
    return setup


@driver
def fd_twice(it, args, kw):
    return it.getattr(args[0], "dual_basis"), it.getattr(args[0], "dual_basis")


def fd_ens(it, ctx, r):
    """both dual bases are the functionals, and they share no point index: the same element may be a factor of a product twice"""
    seen = []
    for t in r:
        Q, ps = as_seq_(as_seq(it.eng.force(deref(t)))).items()
        fd_one(it, ctx, (it.eng.force(Q), it.eng.force(deref(ps))))
        for g in as_seq_(as_seq(it.eng.force(deref(it.getattr(ps, "indices"))))).items():
            it.eng.prove(z3.BoolVal(all(g.id != h.id for h in seen)), "no point index is used twice")
            seen.append(g)


def fd_one(it, ctx, r):
    spec, fs = ctx
    Q, ps = r
    pts = it.eng.force(deref(it.getattr(ps, "points")))
    pts = it.concretize(pts)
    (q,) = it.concretize_idx(ps) if hasattr(it, "concretize_idx") else list(as_seq_(as_seq(it.eng.force(deref(it.getattr(ps, "indices"))))).items())
    n = it.eng.force(gm.extent_of(it, q))
    it.eng.equal(n, len(pts), "one entry per point")
    shape = it.eng.norm(Q.shape).items()
    it.eng.equal(shape[0], len(spec), "one row per functional")
    for i, d in enumerate(fs):
        want = z3.Sum([z3.RealVal(0)] + [w * FN(p, c) for p, ws in d.items() for w, c in ws])
        got = [z3.RealVal(0)]
        ranges = [range(int(it.concretize(x))) for x in shape[1:]]
        for k in range(len(pts)):
            for c in itertools.product(*ranges):
                got.append(gm.den(it, Q, [gm.Slot("i", z3.IntVal(i))] + [gm.Slot("i", z3.IntVal(x)) for x in c], (("i", q.id, q.ps, z3.IntVal(k)),)) * FN(tuple(pts[k]), c))
        it.eng.prove(z3.Sum(got) == want, f"row {i}: the weights at the points are functional {i}")


P0, P1, P2 = (0.0,), (0.5,), (1.0,)
X0, X1, X2 = (0.0, 0.0), (1.0, 0.0), (0.0, 1.0)
SPECS = {
    "one point evaluation": [[(P0, [()])]],
    "two point evaluations": [[(P0, [()])], [(P1, [()])]],
    "three point evaluations in any order": [[(P1, [()])], [(P0, [()])], [(P2, [()])]],
    "moments sharing a rule": [[(P0, [()]), (P1, [()])], [(P1, [()]), (P0, [()])]],
    "a moment and a point evaluation at one of its points": [[(P0, [()]), (P2, [()])], [(P2, [()])]],
    "repeated point": [[(P0, [()])], [(P0, [()])]],
    "points which differ in the last digits only": [[((0.5,), [()])], [((0.5000000001,), [()])], [((0.49999999999999994,), [()])]],
    "moments at points which differ in the last digits only": [[((0.5,), [()]), ((1.0,), [()])], [((0.5000000001,), [()]), ((1.0,), [()])]],
    "points at the corner and next to it": [[((0.0,), [()])], [((1e-14,), [()])], [((-1e-14,), [()])]],
    "one moment": [[(P0, [()]), (P1, [()]), (P2, [()])]],
    "vector components at one point": [[(X0, [(0,), (1,)])], [(X0, [(1,)])]],
    "one vector functional": [[(X1, [(0,), (1,)])]],
    "vector moments": [[(X0, [(0,), (1,)]), (X1, [(0,), (1,)])], [(X0, [(1,)]), (X1, [(0,), (1,)])]],
    "last component only": [[(X0, [(1,)])], [(X1, [(1,)])]],
    "matrix components": [[(X0, [(0, 0), (0, 1), (1, 0), (1, 1)])], [(X1, [(1, 1), (0, 1)])]],
    "different component sets": [[(X0, [(0,)])], [(X1, [(1,)])], [(X2, [(0,), (1,)])]],
}
def zeros(it, a, kw):
    """numpy.zeros of a known shape: an array of exact zeros"""
    sh = it.concretize(a[0] if a else kw["shape"])
    z = numpy.empty(sh, dtype=object)
    z.fill(0)
    return MArr(z)


DMODELS = {numpy.zeros: zeros}
for nm, spec in SPECS.items():
    C(f"FiatElement.dual_basis[{nm}, any weights]", fd_setup(spec), fd_twice, fd_ens, models=DMODELS, bounded="number and supports of the functionals")


# ---- dual bases of composite and quadrature elements (contracts shared with their own properties)
from . import p02, p03, p05, p21     # noqa: E402
for mod in (p02, p03, p05, p21):
    CONTRACTS += [c for c in mod.CONTRACTS if "dual_" in c.name]
