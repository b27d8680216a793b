"""P12: restriction keeps exactly the basis functions of the chosen domain.

The recursion goes through restrict's own contract: restrict(e, domain, closure) is either the sentinel for "no basis
functions" or an element made of exactly those functions of e; each handler is checked against it for arbitrary parts."""
from .evals import *
from itertools import product as cartesian
import FIAT
import finat
from finat import restricted
from finat.restricted import restrict, null_element, RestrictedElement, r_to_codim, codim_to_r
from finat.fiat_elements import FiatElement
from finat.mixed import MixedSubElement
from finat.physically_mapped import PhysicallyMappedElement
from pyvc.engine import PyRaise

CONTRACTS = []
DOMAINS = ("interior", "facet", "face", "edge", "vertex")


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


def entdim(dom, D):
    """dimension of the entities a domain names in a cell of dimension D"""
    return {"interior": D, "facet": D - 1, "face": 2, "edge": 1, "vertex": 0}[dom]


def dispatched(it, args, kw):
    """the handler registered for the element's class"""
    impl = restrict.dispatch(args[0].cls if isinstance(args[0], PObj) else args[0].schema.cls[0])
    if impl in it.contracts:
        raise Unsupported("handler under its own contract")
    return it.call(impl, args, kw)


dispatched._driver = True


class Parts:
    """abstract sub-elements; `log` records the answers of restrict on them"""
    def __init__(self, **attrs):
        self.attrs = attrs
        self.cls = ()
        self.rcls, self.rnot = (), ()
        self.rattrs = {}
    def part(self, i, **more):
        k = z3.IntVal(i) if isinstance(i, int) else i
        return Obj("part", (k,), Schema("part", {**self.attrs, **more}, cls=self.cls))
    def answer(self, it, o, domain, closure, forced=None):
        """restrict's contract on a part"""
        if not (isinstance(domain, str) and isinstance(closure, bool)):
            raise Unsupported(f"restriction of a part to {domain!r}, {closure!r}")
        tag = f"{domain}_{'closure' if closure else 'own'}"
        empty = forced if forced is not None else it.truth(SBool(z3.Function("empty_" + tag, I, z3.BoolSort())(o.params[0])))
        if empty:
            return null_element
        return self.kept(o, tag)
    def kept(self, o, tag):
        return Obj("kept_" + tag, o.params, Schema("kept_" + tag, {**o.schema.attrs, **self.rattrs}, cls=self.rcls, notcls=self.rnot))


def contract_of(parts, forced=None):
    def m(it, a, kw):
        v = dict(zip(["element", "domain", "take_closure"], a)); v.update(kw)
        o = deref(v["element"])
        if not (isinstance(o, Obj) and o.name in ("part", "product")):
            raise Unsupported(f"restriction of {o!r}")
        return parts.answer(it, o, it.eng.force(v["domain"]), it.eng.force(v["take_closure"]), forced)
    return {restrict: m}


# ------------------------------------------------------------------ names of entity sets
def names_setup(r):
    def setup(it):
        D = z3.Int("dim")
        it.eng.assume(z3.And(D >= 1, D <= 3))
        return [r, SInt(D)], {}, (r, D)
    return setup


def names_ens(it, ctx, c):
    r, D = ctx
    it.eng.prove(D - zi(c) == entdim(r, D), "the codimension of the entities named")


for r in DOMAINS:
    C(f"r_to_codim[{r}]", names_setup(r), r_to_codim, names_ens)
C("r_to_codim rejects other names", lambda it: (["corner", SInt(z3.Int("dim"))], {}, None), r_to_codim, must_raise, raises=raises(ValueError))


def codim_setup(it):
    D, c = z3.Int("dim"), z3.Int("codim")
    it.eng.assume(z3.And(D >= 0, D <= 3, c >= 0, c <= D))
    return [SInt(c), SInt(D)], {}, (c, D)


def codim_ens(it, ctx, r):
    c, D = ctx
    r = it.eng.force(r)
    it.eng.prove(z3.BoolVal(r in DOMAINS), "a name of an entity set")
    it.eng.prove(D - c == entdim(r, D), "names the entities of that codimension")


C("codim_to_r[every codimension of cells up to dimension 3]", codim_setup, codim_to_r, codim_ens)


# ------------------------------------------------------------------ the entry point
def top_setup(dom, **kw):
    def setup(it):
        p = Parts()
        return [p.part(0), dom], kw, p
    return setup


def top_ens(it, p, r):
    it.eng.equal(r, p.kept(p.part(0), DOM[0] + "_closure"), "the element's restriction to the domain with everything in its closure")


for dom in DOMAINS:
    def ens(it, p, r, dom=dom):
        it.eng.equal(r, p.kept(p.part(0), dom + "_closure"), "the restriction to the domain with everything in its closure")
    def exc(it, p, e, dom=dom):
        it.eng.prove(z3.And(z3.BoolVal(e.exc is ValueError), z3.Function(f"empty_{dom}_closure", I, z3.BoolSort())(0)), "an error only when nothing is left")
    parts = Parts()
    C(f"RestrictedElement[{dom}]", top_setup(dom), RestrictedElement, ens, raises=exc, contracts=contract_of(parts))
C("RestrictedElement rejects lists of indices", top_setup("facet", indices=(0,)), RestrictedElement, must_raise, raises=raises(NotImplementedError), contracts=contract_of(Parts()))
C("RestrictedElement reports empty restrictions", top_setup("facet"), RestrictedElement, must_raise, raises=raises(ValueError), contracts=contract_of(Parts(), True))


# ------------------------------------------------------------------ unsupported elements
for cls in (finat.QuadratureElement, finat.RuntimeTabulated, finat.DirectSerendipity, finat.Hermite, finat.Argyris, finat.Morley, finat.MardalTaiWinther, finat.JohnsonMercier, finat.ArnoldWinther, finat.Bell,
            finat.HsiehCloughTocher, finat.AlfeldSorokina, finat.BernardiRaugel, finat.ChristiansenHu, finat.HuZhang, finat.QuadraticPowellSabin6, finat.GuzmanNeilanFirstKindH1):
    def setup(it, cls=cls):
        return [Obj("unsupported", (), Schema("unsupported", {}, cls=(cls,))), "facet", True], {}, None
    C(f"restriction of {cls.__name__} is rejected", setup, dispatched, must_raise, raises=raises(NotImplementedError), contracts=contract_of(Parts()))


# ------------------------------------------------------------------ simple elements
def fiat_restricted(fiat_el, dom, closure):
    return App("FIAT.RestrictedElement", (fiat_el, dom, closure))


def fiat_models():
    def m(it, a, kw):
        v = dict(zip(["element", "indices", "restriction_domain", "take_closure"], a)); v.update(kw)
        v.setdefault("take_closure", True)
        if v.get("indices") is not None:
            raise Unsupported("restriction to a list of functions")
        it.eng.assumptions.add("FIAT.RestrictedElement(e, restriction_domain=d, take_closure=c) keeps exactly the functions of e on d (with its closure), in their order; ValueError when there are none")
        dom, cl = it.eng.force(v["restriction_domain"]), it.eng.force(v["take_closure"])
        if it.truth(SBool(z3.Bool(f"fiat_empty_{dom}_{cl}"))):
            raise PyRaise(ValueError, ("empty",))
        return fiat_restricted(deref(v["element"]), dom, cl)
    return {FIAT.RestrictedElement: m}


def simple_setup(cls, dom, closure):
    def setup(it):
        fe = App("fiat_element", ())
        o = Obj("simple", (), Schema("simple", {"_element": lambda it2, o2: fe}, cls=(cls,)))
        return [o, dom, closure], {}, (fe, dom, closure)
    return setup


def simple_ens(it, ctx, r):
    fe, dom, closure = ctx
    e = it.eng
    if r is null_element:
        return e.prove(z3.Bool(f"fiat_empty_{dom}_{closure}"), "empty only when the reference restriction is")
    e.prove(z3.BoolVal(it.type_of(r) is FiatElement), "a simple element")
    e.equal(it.getattr(r, "_element"), fiat_restricted(fe, dom, closure), "the reference element's restriction")


SIMPLE = (FiatElement, finat.Lagrange, finat.RaviartThomas, finat.Bubble, finat.Serendipity, finat.Nedelec, finat.GaussLobattoLegendre, finat.Regge)
for cls in SIMPLE:
    for dom in DOMAINS:
        for closure in (False, True):
            C(f"restrict[{cls.__name__}, {dom}{', closure' if closure else ''}]", simple_setup(cls, dom, closure), dispatched, simple_ens, models=fiat_models())
for dom in DOMAINS:
    C(f"restrict[HDivTrace, {dom}, closure]", simple_setup(finat.HDivTrace, dom, True), dispatched, simple_ens, models=fiat_models())


# ------------------------------------------------------------------ everything on the cell
def disc_setup(cls, dom, closure):
    def setup(it):
        D = z3.Int("dim")
        it.eng.assume(z3.And(D >= 1, D <= 3, entdim(dom, D) >= 0, entdim(dom, D) <= D))
        cell = Obj("cell", (), Schema("cell", {"get_spatial_dimension": method(lambda it2, o: SInt(D))}))
        o = Obj("disc", (), Schema("disc", {"cell": lambda it2, o: cell}, cls=(cls,)))
        return [o, dom, closure], {}, (o, dom, D)
    return setup


def disc_ens(it, ctx, r):
    o, dom, D = ctx
    e = it.eng
    on = entdim(dom, D) == D
    if r is null_element:
        return e.prove(z3.Not(on), "nothing lives on the smaller entities only")
    e.prove(on, "all functions live on the cell")
    e.equal(r, o, "the element itself")


for cls in (finat.DiscontinuousElement, finat.DiscontinuousLagrange, finat.Legendre):
    for dom in DOMAINS:
        for closure in (False, True):
            C(f"restrict[{cls.__name__}, {dom}{', closure' if closure else ''}]", disc_setup(cls, dom, closure), dispatched, disc_ens)


# ------------------------------------------------------------------ wrappers
def topo_cell(it):
    return Obj("wcell", (), Schema("wcell", {"get_topology": method(lambda it2, o: App("topology", ())), "get_spatial_dimension": method(lambda it2, o: SInt(z3.Int("dim")))}))


def flat_setup(dom, closure):
    def setup(it):
        p = Parts(cell=lambda it2, o: topo_cell(it))
        o = Obj("flattened", (), Schema("flattened", {"product": lambda it2, o: p.part(0)}, cls=(finat.FlattenedDimensions,)))
        return [o, dom, closure], {}, (p, dom, closure)
    return setup


def tagof(dom, closure):
    return f"{dom}_{'closure' if closure else 'own'}"


def isempty(i, dom, closure):
    return z3.Function("empty_" + tagof(dom, closure), I, z3.BoolSort())(i)


def flat_ens(it, ctx, r):
    p, dom, closure = ctx
    e = it.eng
    if r is null_element:
        return e.prove(isempty(0, dom, closure), "empty only when the product's restriction is")
    e.prove(z3.BoolVal(it.type_of(r) is finat.FlattenedDimensions), "a flattened element")
    e.equal(it.getattr(r, "product"), p.kept(p.part(0), tagof(dom, closure)), "of the product's restriction")


def tfe_setup(rank, transpose, dom, closure):
    def setup(it):
        p = Parts(value_shape=lambda it2, o: ())
        sh = tuple(SInt(z3.Int(f"n{i}")) for i in range(rank))
        for s in sh:
            it.eng.assume(s.e >= 1)
        o = it.construct(finat.TensorFiniteElement, [p.part(0), sh, transpose], {})
        return [o, dom, closure], {}, (p, dom, closure, sh, transpose)
    return setup


def tfe_ens(it, ctx, r):
    p, dom, closure, sh, tr = ctx
    e = it.eng
    if r is null_element:
        return e.prove(isempty(0, dom, closure), "empty only when the base element's restriction is")
    e.prove(z3.BoolVal(it.type_of(r) is finat.TensorFiniteElement), "a tensor-valued element")
    e.equal(it.getattr(r, "base_element"), p.kept(p.part(0), tagof(dom, closure)), "of the base element's restriction")
    e.equal(it.getattr(r, "_shape"), sh, "same shape")
    e.equal(it.getattr(r, "_transpose"), tr, "same layout")


def mix_setup(dom, closure):
    def setup(it):
        size, off = z3.Int("size"), z3.Int("offset")
        vs = shape_fun("vs", [], it)
        p = Parts(value_shape=lambda it2, o: vs)
        it.eng.assume(z3.And(off >= 0, off + prod_of(it, vs) <= size))
        o = it.construct(MixedSubElement, [p.part(0), SInt(size), SInt(off)], {})
        return [o, dom, closure], {}, (p, dom, closure, size, off)
    return setup


def mix_ens(it, ctx, r):
    p, dom, closure, size, off = ctx
    e = it.eng
    if r is null_element:
        return e.prove(isempty(0, dom, closure), "empty only when the sub-element's restriction is")
    e.prove(z3.BoolVal(it.type_of(r) is MixedSubElement), "a mixed sub-element")
    e.equal(it.getattr(r, "element"), p.kept(p.part(0), tagof(dom, closure)), "of the sub-element's restriction")
    e.equal(it.getattr(r, "size"), SInt(size), "same total value size")
    e.equal(it.getattr(r, "offset"), SInt(off), "same position in the value")


for dom in DOMAINS:
    for closure in (False, True):
        s = f"{dom}{', closure' if closure else ''}"
        C(f"restrict[flattened, {s}]", flat_setup(dom, closure), dispatched, flat_ens, contracts=contract_of(Parts(cell=lambda it2, o: topo_cell(it2))))
        C(f"restrict[mixed sub-element, {s}]", mix_setup(dom, closure), dispatched, mix_ens, contracts=contract_of(Parts()))
        for rank in (1, 2, 3):
            for tr in (False, True):
                C(f"restrict[tensor-valued, rank {rank}{', transposed' if tr else ''}, {s}]", tfe_setup(rank, tr, dom, closure), dispatched, tfe_ens, contracts=contract_of(Parts()))


# ------------------------------------------------------------------ enriched
def enr_setup(n, dom, closure):
    def setup(it):
        p = Parts()
        p.rnot = (finat.EnrichedElement,)
        els = tuple(p.part(i) for i in range(n)) if n else family(p.part, N(it))
        o = Obj("enriched", (), Schema("enriched", {"elements": lambda it2, o: els}, cls=(finat.EnrichedElement,)))
        return [o, dom, closure], {}, (p, n, dom, closure)
    return setup


def N(it):
    n = z3.Int("n")
    it.eng.assume(n >= 2)
    return n


def survivors(it, ctx):
    """which parts kept anything on this path"""
    p, n, dom, closure = ctx
    e = it.eng
    out = []
    for i in range(n):
        c = isempty(i, dom, closure)
        if not it.truth(SBool(c)):
            out.append(i)
    return out


def enr_ens(it, ctx, r):
    p, n, dom, closure = ctx
    e = it.eng
    left = survivors(it, ctx)
    if r is null_element:
        return e.prove(z3.BoolVal(not left), "empty only when every part's restriction is")
    want = [p.kept(p.part(i), tagof(dom, closure)) for i in left]
    e.prove(z3.BoolVal(bool(left)), "something is left")
    if len(want) == 1:
        return e.equal(r, want[0], "the only part that is left")
    e.prove(z3.BoolVal(it.type_of(r) is finat.EnrichedElement), "an enriched element")
    e.equal(it.getattr(r, "elements"), tuple(want), "of the parts' restrictions, in order")


def encl(n, forced=None):
    p = Parts()
    p.rnot = (finat.EnrichedElement,)
    return contract_of(p, forced)


for dom in DOMAINS:
    for closure in (False, True):
        for n in (2, 3, 4):
            C(f"restrict[enriched, {n} parts, {dom}{', closure' if closure else ''}]", enr_setup(n, dom, closure), dispatched, enr_ens, contracts=encl(n))


def enr_any(it, ctx, r):
    p, n, dom, closure = ctx
    e = it.eng
    e.prove(z3.BoolVal(it.type_of(r) is finat.EnrichedElement), "an enriched element")
    e.equal(it.getattr(r, "elements"), it.mk(family(lambda i: p.kept(p.part(i), tagof(dom, closure)), z3.Int("n")), "tuple"), "of the parts' restrictions, in order")


C("restrict[enriched, any number of parts, none empty]", enr_setup(None, "facet", True), dispatched, enr_any, contracts=encl(None, False))
C("restrict[enriched, any number of parts, all empty]", enr_setup(None, "facet", True), dispatched, lambda it, ctx, r: it.eng.prove(z3.BoolVal(r is null_element), "empty"), contracts=encl(None, True))


# ------------------------------------------------------------------ H(div) and H(curl)
def wrapped(cls, o):
    return Obj(f"{cls.__name__} of {o.name}", o.params, Schema(cls.__name__, {}, cls=(cls,), notcls=(finat.EnrichedElement,)))


def wrap_models():
    def mk(cls):
        def m(it, a, kw):
            o = deref(a[0])
            it.eng.prove(z3.BoolVal(isinstance(o, Obj) and issubclass(finat.TensorProductElement, o.schema.cls or (object,))), "wraps a product element")
            return wrapped(cls, o)
        return m
    return {c: mk(c) for c in (finat.HDivElement, finat.HCurlElement)}


def emb_setup(cls, k, dom, closure):
    def setup(it):
        p = Parts()
        if k == "n":
            N(it)
        o = Obj("embedded", (), Schema("embedded", {"wrappee": lambda it2, o: p.part(0)}, cls=(cls,)))
        return [o, dom, closure], {}, (p, cls, k, dom, closure)
    return setup


def emb_contract(k):
    p = Parts()
    if k == 0:
        p.rcls, p.rnot = (finat.TensorProductElement,), (finat.EnrichedElement,)
    else:
        parts = tuple(Obj("keptpart", (z3.IntVal(i),), Schema("keptpart", {}, cls=(finat.TensorProductElement,), notcls=(finat.EnrichedElement,))) for i in range(k)) if k != "n" else \
            family(lambda i: Obj("keptpart", (i,), Schema("keptpart", {}, cls=(finat.TensorProductElement,), notcls=(finat.EnrichedElement,))), z3.Int("n"))
        p.rcls = (finat.EnrichedElement,)
        p.rattrs = {"elements": lambda it2, o: parts}
    return contract_of(p)


def emb_ens(it, ctx, r):
    p, cls, k, dom, closure = ctx
    e = it.eng
    if r is null_element:
        return e.prove(isempty(0, dom, closure), "empty only when the product's restriction is")
    if k == 0:
        return e.equal(r, wrapped(cls, p.kept(p.part(0), tagof(dom, closure))), "the embedding of the product's restriction")
    e.prove(z3.BoolVal(it.type_of(r) is finat.EnrichedElement), "an enriched element")
    one = lambda i: wrapped(cls, Obj("keptpart", (i,), Schema("keptpart", {}, cls=(finat.TensorProductElement,))))
    e.equal(it.getattr(r, "elements"), it.mk(family(one, z3.Int("n")), "tuple") if k == "n" else tuple(one(z3.IntVal(i)) for i in range(k)), "the embeddings of the parts of the product's restriction, in order")


for cls in (finat.HDivElement, finat.HCurlElement):
    for dom in DOMAINS:
        for closure in (False, True):
            for k in (0, 2, 3, "n"):
                C(f"restrict[{cls.__name__}, {'one product' if not k else f'{k} products' if k != 'n' else 'any number of products'}, {dom}{', closure' if closure else ''}]", emb_setup(cls, k, dom, closure), dispatched, emb_ens, contracts=emb_contract(k), models=wrap_models())


# ------------------------------------------------------------------ tensor products
def tp_setup(dims, dom, closure):
    def setup(it):
        p = Parts(value_shape=lambda it2, o: ())
        fs = tuple(p.part(i, cell=(lambda it2, o, d=d: Obj("fcell", (), Schema("fcell", {"get_spatial_dimension": method(lambda i3, o3: d)})))) for i, d in enumerate(dims))
        cell = Obj("pcell", (), Schema("pcell", {"get_spatial_dimension": method(lambda i3, o3: sum(dims))}))
        o = Obj("tpe", (), Schema("tpe", {"factors": lambda it2, o: fs, "cell": lambda it2, o: cell}, cls=(finat.TensorProductElement,)))
        return [o, dom, closure], {}, (p, fs, dims, dom, closure)
    return setup


def own_name(it, d, D):
    """the entity set of dimension d in a factor cell of dimension D, by the specification above"""
    return {z for z in DOMAINS if entdim(z, D) == d}


def tp_ens(it, ctx, r):
    """the products kept are those of entity dimensions adding up to a selected dimension, each exactly once"""
    p, fs, dims, dom, closure = ctx
    e = it.eng
    D = sum(dims)
    hi = entdim(dom, D)
    lo = 0 if closure and dom != "interior" else hi
    if r is null_element:
        got = []
    elif it.type_of(r) is finat.EnrichedElement:
        got = list(as_seq_(as_seq(it.getattr(r, "elements"))).items())
    else:
        got = [r]
    # each product kept: the dimension of the factor entities its factors' functions live on
    vectors = []
    for g in got:
        e.prove(z3.BoolVal(it.type_of(g) is finat.TensorProductElement), "a product element")
        xs = [deref(x) for x in as_seq_(as_seq(it.getattr(g, "factors"))).items()]
        ok = len(xs) == len(fs)
        v = []
        for i, x in enumerate(xs):
            ok = ok and isinstance(x, Obj) and x.name.startswith("kept_") and z3.eq(x.params[0], z3.IntVal(i))
            if ok:
                _, name, how = x.name.split("_")
                ok = how == "own"
                v.append(entdim(name, dims[i]))
        e.prove(z3.BoolVal(ok), "product of restrictions of the factors, in factor order, to entities of one dimension each")
        vectors.append(tuple(v))
    e.prove(z3.BoolVal(len(set(vectors)) == len(vectors)), "no product occurs twice")
    for v in vectors:
        e.prove(z3.BoolVal(lo <= sum(v) <= hi), f"functions on entities of dimension {v} belong to the domain")
    for v in cartesian(*[range(d + 1) for d in dims]):
        if not (lo <= sum(v) <= hi) or v in vectors:
            continue
        # left out: some factor has no function on its entities of that dimension
        some = z3.BoolVal(False)
        for i, (d, Df) in enumerate(zip(v, dims)):
            for nm in own_name(it, d, Df):
                some = z3.Or(some, isempty(i, nm, False))
        e.prove(some, f"products on entities of dimension {v} are left out only when there are none")


# all products of cells with at most three factors and total dimension at most three
SHAPES = [(1, 1), (2, 1), (1, 2), (1, 1, 1), (0, 1), (1, 0), (2,), (1,), (3,), (0, 2), (2, 0), (0, 3), (3, 0), (1, 0, 1), (0, 1, 1)]
for dims in SHAPES:
    for dom in DOMAINS:
        if not 0 <= entdim(dom, sum(dims)) <= sum(dims):
            continue
        for closure in (False, True):
            # distinct names of one entity set of a factor (an interval's facets are its vertices) have the same answer
            def setup(it, dims=dims, dom=dom, closure=closure):
                for i, Df in enumerate(dims):
                    for d in range(Df + 1):
                        ns = sorted(own_name(it, d, Df))
                        for a, b in zip(ns, ns[1:]):
                            it.eng.fact(isempty(i, a, False) == isempty(i, b, False))
                return tp_setup(dims, dom, closure)(it)
            C(f"restrict[product of cells of dimension {dims}, {dom}{', closure' if closure else ''}]", setup, dispatched, tp_ens, contracts=contract_of(Parts(value_shape=lambda it2, o: ())))
