"""P23: the element of the reference library that an element converts to is built from those of its parts, in their order."""
from .evals import *
import FIAT
from FIAT import hdivcurl as fiat_hdivcurl, tensor_product as fiat_tensor
from finat import enriched, mixed, tensor_product, cube, discontinuous, hdivcurl, nodal_enriched, tensorfiniteelement, runtime_tabulated, direct_serendipity, fiat_elements
from finat.finiteelementbase import FiniteElementBase
from finat.mixed import MixedSubElement
from . import p21
from pyvc.values import Star

META = {"assumptions": ["FIAT: EnrichedElement and MixedElement concatenate their arguments, TensorProductElement, FlattenedDimensions, Hdiv, Hcurl and DiscontinuousElement transform theirs as documented (checked on concrete elements)",
                        "parts are an arbitrary family of elements with uninterpreted equivalents"]}
CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


def equivalent(i):
    return App("equivalent", (SInt(i) if not isinstance(i, int) else i,))


FAM = {}


def fam(name="el", extra=None, **k):
    ex = {"fiat_equivalent": lambda it, o: App(name + " equivalent", tuple(SInt(p) for p in o.params)), "get_reference_complex": method(lambda it, o: App("complex", ()))}
    ex.update(extra or {})
    return EvalFam(name, CellFam(), extra=ex, **k)


def eq(name, *ps):
    return App(name + " equivalent", tuple(SInt(p) for p in ps))


def gather(it, a):
    """the sequence of all arguments, unpacked ones included"""
    parts = []
    for x in a:
        if isinstance(x, Star):
            parts += list(it.eng.norm(it.iter_seq(x.seq)).pieces)
        else:
            parts.append(Elem(it.eng.force(deref(x))))
    return Seq(parts, "tuple")


def record(name, spread=False, params=()):
    """model of a constructor of the reference library: an uninterpreted function of its arguments"""
    def mdl(it, a, kw):
        if spread:
            return App(name, (gather(it, a),), kw)
        vals = list(a) + [kw.pop(p) for p in params[len(a):] if p in kw]
        vals = [it.eng.force(deref(v)) for v in vals]
        return App(name, tuple(vals), {k: it.eng.force(deref(v)) for k, v in kw.items()})
    return mdl


def mixed_model(it, a, kw):
    names = ("elements", "ref_el", "mapping")
    d = dict(zip(names, a))
    d.update(kw)
    return App("mixed", (Seq(list(it.eng.norm(it.iter_seq(d["elements"])).pieces), "tuple"),), {k: it.eng.force(deref(v)) for k, v in d.items() if k != "elements" and v is not None})


MODELS = {FIAT.EnrichedElement: record("enriched", True), FIAT.NodalEnrichedElement: record("nodal", True), FIAT.MixedElement: mixed_model,
          FIAT.TensorProductElement: record("product", params=("A", "B")), FIAT.DiscontinuousElement: record("discontinuous", params=("element",)),
          fiat_tensor.FlattenedDimensions: record("flattened", params=("element",)), fiat_hdivcurl.Hdiv: record("hdiv", params=("element",)), fiat_hdivcurl.Hcurl: record("hcurl", params=("element",))}


@driver
def equivalent_of(it, args, kw):
    return it.getattr(args[0], "fiat_equivalent")


def built(it, r, name):
    r = it.eng.force(deref(r))
    it.eng.prove(z3.BoolVal(isinstance(r, App) and r.fn == name), f"an element of the kind '{name}'")
    return r


def sequence(it, r, want, what):
    it.eng.equal(r.args[0], Seq(want, "tuple"), what)


# ---- enriched: the equivalents of all parts, in order
def ee_setup(n=None):
    def setup(it):
        el = fam(notcls=(enriched.EnrichedElement, MixedSubElement))
        if n is None:
            k = z3.Int("n")
            it.eng.assume(k >= 2)
            els = family(el.obj, k)
        else:
            k, els = n, tuple(el.obj(z3.IntVal(i)) for i in range(n))
        return [it.construct(enriched.EnrichedElement, [els], {})], {}, k
    return setup


def listed(k, name="el"):
    if isinstance(k, int):
        return [Elem(eq(name, z3.IntVal(i))) for i in range(k)]
    i = fresh_int("i")
    return [Flat(i, Dom(n=k), Seq([Elem(eq(name, i))]))]


def ee_ens(it, k, r):
    sequence(it, built(it, r, "enriched"), listed(k), "the parts' equivalents in order")


C("EnrichedElement.fiat_equivalent[any number of parts]", ee_setup(), equivalent_of, ee_ens, models=MODELS)
for n in (2, 3):
    C(f"EnrichedElement.fiat_equivalent[{n} parts]", ee_setup(n), equivalent_of, ee_ens, models=MODELS)


# ---- mixed: the equivalents of the wrapped elements, in order
def mx_setup(n=None):
    def setup(it):
        el = fam(notcls=(enriched.EnrichedElement, MixedSubElement))
        sub = fam("sub", extra={"element": lambda it2, o: el.obj(*o.params), "size": lambda it2, o: SInt(z3.Int("size")), "offset": lambda it2, o: SInt(z3.Function("offset", z3.IntSort(), z3.IntSort())(*o.params))},
                  cls=(MixedSubElement, FiniteElementBase), notcls=(enriched.EnrichedElement,))
        if n is None:
            k = z3.Int("n")
            it.eng.assume(k >= 2)
            els = family(sub.obj, k)
            o = it.construct(enriched.EnrichedElement, [els], {})
        else:
            k = n
            o = it.construct(mixed.MixedElement, [tuple(el.obj(z3.IntVal(i)) for i in range(n))], {}) if False else it.call(mixed.MixedElement, [tuple(el.obj(z3.IntVal(i)) for i in range(n))], {})
        return [o], {}, k
    return setup


def mx_ens(it, k, r):
    sequence(it, built(it, r, "mixed"), listed(k), "the equivalents of the elements, in order")


C("EnrichedElement.fiat_equivalent[mixed, any number of parts]", mx_setup(), equivalent_of, mx_ens, models=MODELS)
for n in (2, 3):
    C(f"MixedElement.fiat_equivalent[{n} elements]", mx_setup(n), equivalent_of, mx_ens, models=MODELS)


# ---- tensor products
def tp_setup(n):
    def setup(it):
        el = fam(vshape=lambda i2, ps: ())
        return [it.construct(tensor_product.TensorProductElement, [tuple(el.obj(z3.IntVal(i)) for i in range(n))], {})], {}, None
    return setup


def tp_ens(it, _, r):
    r = built(it, r, "product")
    it.eng.equal(tuple(r.args), (eq("el", z3.IntVal(0)), eq("el", z3.IntVal(1))), "first and second factor")


C("TensorProductElement.fiat_equivalent", tp_setup(2), equivalent_of, tp_ens, models=MODELS)


# ---- wrappers of one element
def one(it, key, name):
    def ens(it2, _, r):
        r = built(it2, r, name)
        it2.eng.equal(tuple(r.args), (eq("el"),), "of the wrapped element's equivalent")
    return ens


def fd_setup(it):
    el = fam()
    return [new(it, cube.FlattenedDimensions, product=el.obj())], {}, None


def di_setup(it):
    return [it.construct(discontinuous.DiscontinuousElement, [fam().obj()], {})], {}, None


def w_setup(cls):
    def setup(it):
        return [new(it, cls, wrappee=fam().obj())], {}, None
    return setup


C("FlattenedDimensions.fiat_equivalent", fd_setup, equivalent_of, one(None, None, "flattened"), models=MODELS)
C("DiscontinuousElement.fiat_equivalent", di_setup, equivalent_of, one(None, None, "discontinuous"), models=MODELS)
C("HDivElement.fiat_equivalent", w_setup(hdivcurl.HDivElement), equivalent_of, one(None, None, "hdiv"), models=MODELS)
C("HCurlElement.fiat_equivalent", w_setup(hdivcurl.HCurlElement), equivalent_of, one(None, None, "hcurl"), models=MODELS)


# ---- nodal enrichment: the reference element itself is that of the parts
def ne_setup(n=None):
    def setup(it):
        el = fam()
        k = n
        if n is None:
            k = z3.Int("n")
            it.eng.assume(k >= 1)
            els = family(el.obj, k)
        else:
            els = tuple(el.obj(z3.IntVal(i)) for i in range(n))
        return [it.construct(nodal_enriched.NodalEnrichedElement, [els], {})], {}, k
    return setup


def ne_ens(it, k, r):
    sequence(it, built(it, r, "nodal"), listed(k), "the parts' equivalents in order")


for n in (None, 1, 2, 3):
    C(f"NodalEnrichedElement.fiat_equivalent[{'any number of' if n is None else n} parts]", ne_setup(n), equivalent_of, ne_ens, models=MODELS)


# ---- elements of the reference library are their own equivalent
def fe_setup(it):
    f = Obj("fiat", (), Schema("fiat", {}))
    return [it.construct(fiat_elements.FiatElement, [f], {})], {}, f


C("FiatElement.fiat_equivalent", fe_setup, equivalent_of, lambda it, f, r: it.eng.equal(r, f, "the element of the reference library itself"), models=MODELS)


# ---- the points and weights of a quadrature element
CONTRACTS += [c for c in p21.CONTRACTS if "fiat_equivalent" in c.name]


# ---- no equivalent: an error, not another element
def none_setup(cls, **attrs):
    def setup(it):
        return [new(it, cls, **{k: v() for k, v in attrs.items()})], {}, None
    return setup


C("TensorFiniteElement.fiat_equivalent: none", none_setup(tensorfiniteelement.TensorFiniteElement, _base_element=lambda: fam().obj(), _shape=lambda: (2,), _transpose=lambda: False), equivalent_of, must_raise, raises=raises(NotImplementedError))
C("RuntimeTabulated.fiat_equivalent: none", none_setup(runtime_tabulated.RuntimeTabulated, degree=lambda: 2), equivalent_of, must_raise, raises=raises(NotImplementedError))
C("DirectSerendipity.fiat_equivalent: none", none_setup(direct_serendipity.DirectSerendipity, _degree=lambda: 2), equivalent_of, must_raise, raises=raises(NotImplementedError))
C("MixedSubElement.fiat_equivalent: none", none_setup(MixedSubElement, element=lambda: fam().obj(), size=lambda: 3, offset=lambda: 0), equivalent_of, must_raise, raises=raises(NotImplementedError))
for n in (1, 3):
    C(f"TensorProductElement.fiat_equivalent[{n} factors]: none", tp_setup(n), equivalent_of, must_raise, models=MODELS, raises=raises(ValueError))
