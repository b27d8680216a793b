"""P05: HDivElement / HCurlElement: signed coordinate embedding of the wrapped element's values."""
from .evals import *
from FIAT.reference_element import LINE
from finat import hdivcurl
from finat.hdivcurl import HDivElement, HCurlElement
from finat.tensor_product import TensorProductElement

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


def wrappee_fam(ks, dim, mapping, vshape):
    """tensor product of two factors (the second on an interval) with the given form degrees"""
    cell = CellFam()
    cell.schema.attrs["get_spatial_dimension"] = method(lambda it, o: wrap(dim))
    lc = CellFam("linecell")
    lc.schema.attrs["get_shape"] = method(lambda it, o: LINE)
    bc = CellFam("basecell")
    bc.schema.attrs["get_shape"] = method(lambda it, o: SInt(z3.Int("baseshape")))
    f0 = Obj("factor0", (), Schema("factor0", {"formdegree": lambda it, o: wrap(ks[0]), "cell": lambda it, o: bc.obj()}))
    f1 = Obj("factor1", (), Schema("factor1", {"formdegree": lambda it, o: wrap(ks[1]), "cell": lambda it, o: lc.obj()}))
    return EvalFam("tpe", cell, vshape=vshape, cls=(TensorProductElement,),
                   extra={"factors": lambda it, o: (f0, f1), "mapping": lambda it, o: mapping})


def wrap(v):
    return SInt(v) if isinstance(v, z3.ExprRef) else v


neg = lambda x: -x
# (class, form degrees, dimension, mapping of the product, value components, embedding: list of (sign, component) or 0)
S, V0, V1 = "s", 0, 1
CASES = [
    (HDivElement, (0, 1), 2, "affine", None, [(-1, S), 0]),
    (HDivElement, (1, 0), 2, "affine", None, [0, (1, S)]),
    (HDivElement, (2, 0), 3, "affine", None, [0, 0, (1, S)]),
    (HDivElement, (1, 1), 3, "contravariant piola", 2, [(1, 0), (1, 1), 0]),
    (HDivElement, (1, 1), 3, "covariant piola", 2, [(1, 1), (-1, 0), 0]),
    (HCurlElement, (1, 0), 2, "affine", None, [(1, S), 0]),
    (HCurlElement, (0, 1), 2, "affine", None, [0, (1, S)]),
    (HCurlElement, (0, 1), 3, "affine", None, [0, 0, (1, S)]),
    (HCurlElement, (1, 0), 3, "covariant piola", 2, [(1, 0), (1, 1), 0]),
    (HCurlElement, (1, 0), 3, "contravariant piola", 2, [(-1, 1), (1, 0), 0]),
]


def setup_of(case):
    cls, ks, dim, mapping, nv, emb = case
    def setup(it):
        el = wrappee_fam(ks, dim, mapping, (lambda i2, ps: (nv,)) if nv else (lambda i2, ps: ()))
        o = it.construct(cls, [el.obj()], {})
        return [o, *rargs(it)], {}, (el, case, rargs(it))
    return setup


def embed_spec(it, el, case, t):
    cls, ks, dim, mapping, nv, emb = case
    ish = list(as_seq_(el.ishape_f(it, ())).pieces)
    def fn(s):
        i, z = s[:len(ish)], s[len(ish)].term
        r = z3.RealVal(0)
        for c, x in enumerate(emb):
            if x == 0:
                continue
            v = gm.den(it, t, i + ([] if x[1] == S else [gm.Slot("i", z3.IntVal(x[1]))]))
            r = z3.If(z == c, x[0] * v, r)
        return r
    return gm.Fun(Seq(ish + [Elem(dim)], "tuple"), fn)


def eval_ens(what):
    def ens(it, ctx, r):
        el, case, (order, ps, ent) = ctx
        cm = z3.Const("None", U) if what == "tab" else None
        it.eng.equal(r, el.tables(it, (), order.e, ps.e, ent.e, cm, what, f=lambda al, t: embed_spec(it, el, case, t)), "embedding of the factor value")
    return ens


def dual_setup(case):
    f = setup_of(case)
    def setup(it):
        a, k, ctx = f(it)
        return a[:1], k, ctx
    return setup


def dual_ens(it, ctx, r):
    el, case, _ = ctx
    Q, x = r
    bQ, bx = el.dual(it, el.obj())
    it.eng.equal(x, bx, "the wrapped element's points")
    it.eng.equal(Q, embed_spec(it, el, case, bQ), "embedding of the dual weights")


for case in CASES:
    cls, ks, dim, mapping, nv, emb = case
    nm = f"{cls.__name__}, form degrees {ks}, dimension {dim}, {mapping}"
    C(f"basis_evaluation[{nm}]", setup_of(case), meth("basis_evaluation"), eval_ens("tab"))
    C(f"point_evaluation[{nm}]", setup_of(case), meth("point_evaluation"), eval_ens("ptab"))
    C(f"dual_basis[{nm}]", dual_setup(case), attr("dual_basis"), dual_ens)


# ---- degrees of freedom and numbering are those of the wrapped element
def same_setup(case):
    f = setup_of(case)
    def setup(it):
        a, k, ctx = f(it)
        return a[:1], k, ctx
    return setup


def same_as(name, call):
    @driver
    def t(it, args, kw):
        v = it.getattr(args[0], name)
        return it.call(v, [], {}) if call else v
    def ens(it, ctx, r):
        w = it.getattr(ctx[0].obj(), name)
        it.eng.equal(r, it.call(w, [], {}) if call else w, f"{name} of the wrapped element")
    return t, ens


for case in (CASES[0], CASES[5]):
    for name, call in (("entity_dofs", True), ("entity_closure_dofs", True), ("entity_support_dofs", True), ("space_dimension", True),
                       ("index_shape", False), ("entity_permutations", False), ("cell", False)):
        t, ens = same_as(name, call)
        C(f"{case[0].__name__}.{name}", same_setup(case), t, ens)


# ---- admissibility: form degrees that do not fit are rejected
@driver
def construct(it, args, kw):
    return it.construct(args[0], list(args[1:]), {})


def bad_sum(cls):
    def setup(it):
        k0, k1, dim = z3.Int("k0"), z3.Int("k1"), z3.Int("dim")
        it.eng.assume(z3.And(k0 >= 0, k1 >= 0, k1 <= 1, dim >= 1))
        it.eng.assume(k0 + k1 != (dim - 1 if cls is HDivElement else 1))
        el = wrappee_fam((k0, k1), dim, "affine", lambda i2, ps: ())
        return [cls, el.obj()], {}, None
    return setup


def none_degree(cls, ks):
    def setup(it):
        k = z3.Int("k")
        it.eng.assume(k >= 0)
        el = wrappee_fam(tuple(k if x else None for x in ks), 2, "affine", lambda i2, ps: ())
        return [cls, el.obj()], {}, None
    return setup


for cls in (HDivElement, HCurlElement):
    C(f"{cls.__name__}: form degree that does not fit", bad_sum(cls), construct, must_raise, raises=raises(ValueError, AssertionError))
    for ks in ((0, 1), (1, 0), (0, 0)):
        C(f"{cls.__name__}: no form degree {ks}", none_degree(cls, ks), construct, must_raise, raises=raises(ValueError, AssertionError))


# any admissible degrees whatsoever either are one of the cases above or are rejected: mapping that is neither
def other(cls):
    def setup(it):
        k0, k1, dim = z3.Int("k0"), z3.Int("k1"), z3.Int("dim")
        it.eng.assume(z3.And(k0 >= 0, k1 >= 0, dim >= 1))
        ks = [c[1] for c in CASES if c[0] is cls]
        it.eng.assume(z3.Not(z3.Or(*[z3.And(k0 == a, k1 == b) for a, b in ks])))
        el = wrappee_fam((k0, k1), dim, "affine", lambda i2, ps: ())
        return [cls, el.obj()], {}, None
    return setup


for cls in (HDivElement, HCurlElement):
    C(f"{cls.__name__}: form degrees without an embedding", other(cls), construct, must_raise, raises=raises(ValueError, AssertionError))
