"""P03: TensorFiniteElement - basis functions are scalar functions times unit tensors; dual basis likewise."""
from .evals import *
from finat import tensorfiniteelement, finiteelementbase
from finat.tensorfiniteelement import TensorFiniteElement

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


SHAPES = [("rank 1", 1), ("rank 2", 2), ("any rank >= 1", None)]


def base_tfe(it, transpose, rank):
    cell = CellFam()
    el = EvalFam("base", cell)
    shape = sym_shape(it, "shape", rank)
    o = it.construct(TensorFiniteElement, [el.obj(), shape], {"transpose": transpose})
    return el, shape, o


def layout(it, el, shape, transpose):
    sh = list(as_seq_(shape).pieces)
    ish = list(as_seq_(el.ishape_f(it, ())).pieces)
    vsh = list(as_seq_(el.vshape_f(it, ())).pieces)
    full = Seq((sh + ish if transpose else ish + sh) + sh + vsh, "tuple")
    def split(s):
        n, a, v = len(sh), len(ish), len(vsh)
        if transpose:
            t1, i, t2, w = s[:n], s[n:n + a], s[n + a:2 * n + a], s[2 * n + a:]
        else:
            i, t1, t2, w = s[:a], s[a:a + n], s[a + n:a + 2 * n], s[a + 2 * n:]
        return i, t1, t2, w
    return full, split


def tens_spec(it, el, shape, transpose, scalar):
    full, split = layout(it, el, shape, transpose)
    def fn(s):
        i, t1, t2, w = split(s)
        return z3.If(eq_slots(t1, t2), gm.den(it, scalar, i + w), z3.RealVal(0))
    return gm.Fun(full, fn)


def eval_setup(transpose, rank):
    def setup(it):
        el, shape, o = base_tfe(it, transpose, rank)
        a = rargs(it)
        return [o, *a], {}, (el, shape, transpose, a)
    return setup


def eval_ensures(what):
    def ens(it, ctx, r):
        el, shape, tr, (order, ps, ent) = ctx
        none = z3.Const("None", U)
        cm = none if what == "tab" else None
        it.eng.equal(r, el.tables(it, (), order.e, ps.e, ent.e, cm, what, f=lambda al, t: tens_spec(it, el, shape, tr, t)),
                     "scalar basis function times unit tensor, component order of the layout")
    return ens


for tr in (False, True):
    for nm, rank in SHAPES:
        C(f"TensorFiniteElement.basis_evaluation[transpose={tr}, shape of {nm}]", eval_setup(tr, rank), meth("basis_evaluation"), eval_ensures("tab"))
        C(f"TensorFiniteElement.point_evaluation[transpose={tr}, shape of {nm}]", eval_setup(tr, rank), meth("point_evaluation"), eval_ensures("ptab"))


def dual_setup(transpose, rank):
    def setup(it):
        el, shape, o = base_tfe(it, transpose, rank)
        return [o], {}, (el, shape, transpose)
    return setup


def dual_ensures(it, ctx, r):
    el, shape, tr = ctx
    Q, pts = r
    bQ, bpts = el.dual(it, el.obj())
    it.eng.equal(pts, bpts, "the base element's points")
    it.eng.equal(Q, tens_spec(it, el, shape, tr, bQ), "base dual weights times unit tensor")


for tr in (False, True):
    for nm, rank in SHAPES:
        C(f"TensorFiniteElement.dual_basis[transpose={tr}, shape of {nm}]", dual_setup(tr, rank), attr("dual_basis"), dual_ensures)


# dual evaluation of fn: sum over points and value components of the base weights times fn's component
def deval_setup(transpose, rank):
    def setup(it):
        el, shape, o = base_tfe(it, transpose, rank)
        pts = el.points(it, el.obj())
        vsh = Seq(list(as_seq_(shape).pieces) + list(as_seq_(el.vshape_f(it, ())).pieces), "tuple")
        ix = el.points_indices(it, el.obj())
        fsh = Seq([Elem(gm.extent_of(it, i)) for i in ix] + list(vsh.pieces), "tuple")
        F = gm.tensor("fn", [], fsh)
        def call(it2, a, kw):
            it2.eng.equal(a[0], pts, "fn is evaluated at the dual basis points")
            idx = index_tuple(it2, vsh)
            return gm.component_tensor(it2, gm.indexed(it2, F, Seq([Elem(i) for i in ix] + list(idx.pieces), "tuple")), idx)
        return [o, Model(call, "fn")], {}, (el, shape, transpose, F, ix)
    return setup


def deval_ensures(it, ctx, r):
    el, shape, tr, F, ix = ctx
    expr, idx = r
    got = gm.component_tensor(it, expr, gm.as_mi(it, idx))
    sh = list(as_seq_(shape).pieces)
    ish = list(as_seq_(el.ishape_f(it, ())).pieces)
    vsh = list(as_seq_(el.vshape_f(it, ())).pieces)
    full = Seq(sh + ish if tr else ish + sh, "tuple")
    bQ, _ = el.dual(it, el.obj())
    def fn(s):
        t, i = (s[:len(sh)], s[len(sh):]) if tr else (s[len(ish):], s[:len(ish)])
        # sum over points, base value components of bQ[i, w] * F[q, t, w]
        w = index_tuple(it, Seq(vsh, "tuple"))
        env = []
        bi = index_tuple(it, Seq(ish, "tuple"))
        ti = index_tuple(it, Seq(sh, "tuple"))
        node = gm.index_sum(it, gm.scalar_op(it, "prod", gm.indexed(it, bQ, Seq(list(bi.pieces) + list(w.pieces), "tuple")),
                                             gm.indexed(it, F, Seq([Elem(q) for q in ix] + list(ti.pieces) + list(w.pieces), "tuple"))),
                            Seq([Elem(q) for q in ix] + list(w.pieces), "tuple"))
        return gm.den(it, gm.component_tensor(it, node, Seq(list(ti.pieces) + list(bi.pieces), "tuple")), t + i)
    it.eng.equal(got, gm.Fun(full, fn), "sum over points and value components, per component of the shape")


for tr in (False, True):
    for nm, rank in SHAPES:
        C(f"TensorFiniteElement.dual_evaluation[transpose={tr}, shape of {nm}]", deval_setup(tr, rank), meth("dual_evaluation"), deval_ensures)
