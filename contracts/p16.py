"""Components of mixed, vector and tensor form-language elements."""
import itertools
import math
from .ufam import *
from .p18 import any_number, star
from .p15 import TRI, QUAD, TET
import ufl.pullback as PB
import ufl.permutation
from ufl.utils.indexflattening import flatten_multiindex, shape_to_strides, unflatten_index
from pyvc.models import model

META = {"assumptions": ["ufl pull-backs: MixedPullback and SymmetricPullback pull parts back one after the other (ufl's contract); physical value shapes of ufl's pull-backs are read from ufl's source"]}
CONTRACTS = []
UFL = {flatten_multiindex, shape_to_strides, unflatten_index, ufl.permutation.compute_indices}
INLINE = UFL | {getattr(PB, c).physical_value_shape for c in ("IdentityPullback", "CovariantPiola", "ContravariantPiola", "L2Piola", "DoubleCovariantPiola", "DoubleContravariantPiola",
                                                              "CovariantContravariantPiola", "PhysicalPullback", "CustomPullback")}
GDIM = z3.Int("gdim")


def domain():
    """a mesh: its geometric dimension is what matters"""
    return Obj("domain", [], Schema("domain", {"geometric_dimension": method(lambda it, o: SInt(GDIM))}))


def Model1(f): return lambda it, o: Model(lambda it2, a, k: f(it2, o, *a, **k), "physical_value_shape")


def need(it, c, what): it.eng.prove(c if z3.is_expr(c) else z3.BoolVal(bool(c)), what)


class Shape(tuple):
    """value shape that knows whose it is, so that its product is known as the value size of that part"""


def size_of(it, name, o):
    """number of components of the value of o: f(o), equal to the product of the extents"""
    z = uf(name + "_size", o)
    f, n = z.decl(), z.decl().arity()
    vs = [z3.Const(f"x{i}", z3.IntSort()) for i in range(n)]
    it.eng.fact(z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]) if vs else z >= 1)
    return z


def ranked(it, name, o, top):
    """value shape of rank at most top, chosen by the part"""
    r = uf(name + "_rank", o)
    f = r.decl()
    vs = [z3.Const(f"x{i}", z3.IntSort()) for i in range(f.arity())]
    it.eng.fact(z3.ForAll(vs, z3.And(f(*vs) >= 0, f(*vs) <= top), patterns=[f(*vs)]) if vs else z3.And(r >= 0, r <= top))
    e = z3.Function(name + "_ext", *[z3.IntSort()] * (len(vs) + 1), z3.IntSort())
    x = z3.Int("xk")
    it.eng.fact(z3.ForAll([*vs, x], e(*vs, x) >= 1, patterns=[e(*vs, x)]))
    for k in range(top):
        if it.eng.entails(r == k) or it.eng.branch(r == k): break
    else: k = top
    sh = Shape(SInt(e(*o.params, z3.IntVal(j))) for j in range(k))
    sh.size = size_of(it, name, o)
    t = z3.IntVal(1)
    for d in sh: t = t * d.e
    it.eng.fact(z3.Implies(r == k, sh.size == t))
    return sh


def product_model(it, args, kw):
    s = args[0]
    if isinstance(s, Shape): return SInt(s.size)
    return it.call(math.prod, [s], {})


class Part(UFam):
    """an element of any value shape (rank at most `top`, or the given one), with its own value shape on the physical cell"""
    def __init__(self, name, top=3, **kw):
        super().__init__(name, TRI, **kw)
        a = self.schema.attrs
        if "shape" not in kw and "rank" not in kw:
            a["reference_value_shape"] = a["_reference_value_shape"] = lambda it, o: ranked(it, name, o, top)
        self.phys = lambda it, o: ranked(it, name + "_phys", o, top)
        def pull(it, o):
            def pvs(it2, p, e, dom):
                need(it2, isinstance(deref(e), Obj) and deref(e).schema is self.schema and isinstance(deref(dom), Obj) and deref(dom).schema.name == "domain", "value shape is asked for the part on the domain")
                it2.eng.equal(deref(e), o, "value shape of the part itself")
                return self.phys(it2, o)
            return Obj(name + "_pullback", o.params, Schema(name + "_pullback", {"physical_value_shape": Model1(pvs)}))
        a["pullback"] = pull
        self.schema.missing = tuple(m for m in self.schema.missing)
        for nm in ("extract_component", "extract_reference_component"):
            a[nm] = lambda it, o, nm=nm: Model(lambda it2, args, kw: (App(nm, (o, *[deref(x) for x in args])), self.simple(o, args)), nm)

    def simple(self, o, args):
        fam = UFam(self.name + "_simple", TRI)
        return Obj(fam.name, o.params, fam.schema)

    def size(self, it, o, phys=False):
        t = z3.IntVal(1)
        for x in (self.phys(it, o) if phys else it.getattr(o, "reference_value_shape")): t = t * zi(x)
        return t


def mixed_pullback(it, args, kw):
    """assumed contract of ufl.pullback.MixedPullback: one axis, as long as the values of all the parts together"""
    e = deref(args[0])
    def pvs(it2, o, elem, dom):
        it2.eng.equal(deref(elem), e, "value shape of the mixed element itself")
        subs = it2.iter_seq(it2.getattr(e, "sub_elements"))
        def size(p):
            p = it2.eng.force(deref(p))
            sh = it2.call(it2.getattr(it2.getattr(p, "pullback"), "physical_value_shape"), [p, dom], {})
            return product_model(it2, [sh], {})
        return (it2.call(sum, [it2.map_seq(size, subs)], {}),)
    return Obj("mixed_pullback", [], Schema("mixed_pullback", {"physical_value_shape": Model1(pvs)}))


MODELS = {PB.MixedPullback: mixed_pullback, ufl.utils.sequences.product: product_model}


def ravel(comp, shape):
    t = z3.IntVal(0)
    for c, d in zip(comp, shape): t = t * zi(d) + zi(c)
    return t


def inside(comp, shape): return z3.And(*[z3.And(zi(c) >= 0, zi(c) < zi(d)) for c, d in zip(comp, shape)])


# ---------------------------------------------------------------- any number of parts of any shapes
@driver
def locate(it, args, kw):
    parts, j, phys, spelled = args
    e = star(fu.MixedElement, it, parts)
    i = j if spelled else (j,)
    nm = "extract_subelement_component" if phys else "extract_subelement_reference_component"
    return e, it.call(it.getattr(e, nm), [domain(), i] if phys else [i], {})


for phys in (False, True):
    for spelled in (False, True):
        def setup(it, phys=phys, spelled=spelled):
            it.inline = INLINE
            fam = Part("part")
            ps, n = any_number(it, fam)
            j = z3.Int("j"); it.eng.assume(j >= 0)
            return [ps, SInt(j), phys, spelled], {}, (fam, n, j)
        def ens(it, ctx, r, phys=phys):
            fam, n, j = ctx
            e, r = r
            k, comp = it.iter_seq(r).items()
            k = zi(k)
            need(it, z3.And(k >= 0, k < n), "a part of the element")
            o = fam.obj(k)
            sh = fam.phys(it, o) if phys else it.getattr(o, "reference_value_shape")
            comp = it.iter_seq(comp).items()
            need(it, len(comp) == len(sh), "as many indices as the part has axes")
            need(it, inside(comp, sh), "component of the part in range")
            i = fresh_int("i")
            before = offset(it, fam, k, phys)
            need(it, j == before + ravel(comp, sh), "the position the component occupies in the value of the mixed element")
        CONTRACTS.append(Contract(f"MixedElement of any number of parts: {'value' if phys else 'reference value'} component{' given as a number' if spelled else ''}", setup, locate, ens, models=MODELS,
                                  raises=lambda it, ctx, e, phys=phys: (need(it, e.exc is ValueError, "rejected with ValueError"), need(it, ctx[2] >= offset(it, ctx[0], ctx[1], phys), "only a component outside the value is rejected"))))


def offset(it, fam, k, phys):
    """components of the parts before part k"""
    i = fresh_int("i")
    return it.eng.sum_over(i, Dom(n=k), z3.Function(("part_phys" if phys else "part") + "_size", z3.IntSort(), z3.IntSort())(i))


# ---------------------------------------------------------------- down to the simple element, and questions about a component
@driver
def deeper(it, args, kw):
    parts, j, what = args
    e = star(fu.MixedElement, it, parts)
    d = domain()
    k, comp = it.iter_seq(it.call(it.getattr(e, "extract_subelement_component"), [d, (j,)], {}) if what == "extract_component" else
                          it.call(it.getattr(e, "extract_subelement_reference_component"), [(j,)], {})).items()
    r = it.call(it.getattr(e, what), [d, (j,)] if what == "extract_component" else [(j,)], {})
    return k, comp, r


for what in ("extract_component", "extract_reference_component", "degree", "is_cellwise_constant"):
    for rank in (0, 1, 2):
        def setup(it, rank=rank, what=what):
            it.inline = INLINE
            fam = Part("part", rank=rank)
            fam.phys = lambda it2, o: fam.shape(it2, o)
            ps, n = any_number(it, fam)
            j = z3.Int("j")
            i = fresh_int("i")
            t = z3.IntVal(1)
            for x in fam.shape(it, fam.obj(i)): t = t * zi(x)
            it.eng.assume(z3.And(j >= 0, j < it.eng.sum_over(i, Dom(n=n), t)))
            return [ps, SInt(j), what], {}, fam
        def ens(it, fam, r, what=what):
            k, comp, r = r
            o = fam.obj(zi(k))
            comp = it.iter_seq(comp).as_kind("tuple")
            s = fam.simple(o, None)
            if what.startswith("extract"):
                a, b = it.iter_seq(r).items()
                it.eng.equal(b, s, "the simple element the part finds")
                w = [o, domain(), comp] if what == "extract_component" else [o, comp]
                a = deref(a)
                need(it, isinstance(a, App) and a.fn == what and len(a.args) == len(w), "the component the part finds")
                for x, y in zip(a.args, w):
                    x = it.eng.force(deref(x))
                    it.eng.equal(x, y, "asked of the part that has the component, about the component")
            else:
                it.eng.equal(r, it.call(it.getattr(s, what), [], {}), f"{what} is that of the simple element")
        CONTRACTS.append(Contract(f"MixedElement of any number of parts of value rank {rank}: {what} of a component", setup, deeper, ens, models=MODELS))


@driver
def wrong_rank(it, args, kw):
    e = star(fu.MixedElement, it, args[0])
    nm, dom = ("extract_subelement_component", [domain()]) if args[2] else ("extract_subelement_reference_component", [])
    return it.call(it.getattr(e, nm), [*dom, tuple(args[1])], {})


for phys in (False, True):
    for k in (0, 2, 3):
        def setup(it, phys=phys, k=k):
            it.inline = INLINE
            ps, n = any_number(it, Part("part"))
            return [ps, tuple(SInt(z3.Int(f"c{i}")) for i in range(k)), phys], {}, None
        CONTRACTS.append(Contract(f"MixedElement: a {'value' if phys else 'reference value'} component with {k} indices is rejected", setup, wrong_rank, must_raise, raises=raises(ValueError), models=MODELS))


# ---------------------------------------------------------------- the pull-back that belongs to a mapping, simple elements
PULL = {"identity": PB.identity_pullback, "L2 Piola": PB.l2_piola, "covariant Piola": PB.covariant_piola, "contravariant Piola": PB.contravariant_piola, "double covariant Piola": PB.double_covariant_piola,
        "double contravariant Piola": PB.double_contravariant_piola, "covariant contravariant Piola": PB.covariant_contravariant_piola, "custom": PB.custom_pullback, "physical": PB.physical_pullback}
RANKS = {"covariant Piola": (1,), "contravariant Piola": (1,), "double covariant Piola": (2,), "double contravariant Piola": (2,), "covariant contravariant Piola": (2,)}


class Base(FiniteElementBase):
    """an element with the behaviour of the base class"""
    def __init__(self, mapping, shape, degree):
        self._map, self._shp, self._deg = mapping, shape, degree
        FiniteElementBase.__init__(self, "family", None, degree, None, shape)
    def mapping(self): return self._map
    def __repr__(self): return "Base"
    @property
    def sobolev_space(self): return None


def base(it, mapping, rank):
    sh = tuple(SInt(z3.Int(f"extent{i}")) for i in range(rank))
    for d in sh: it.eng.fact(d.e >= 1)
    it.eng.fact(GDIM >= 1)
    return it.eng.new_obj(Base, {"_map": mapping, "_family": "family", "_cell": TRI, "_degree": SInt(z3.Int("degree")), "_quad_scheme": None, "_reference_value_shape": sh}), sh


def physical(mapping, sh):
    """value shape on the physical cell: Piola maps turn each mapped axis into one of the mesh's geometric dimension"""
    k = RANKS.get(mapping, (0,))[0]
    return sh[:len(sh) - k] + (SInt(GDIM),) * k


@driver
def ask(it, args, kw):
    e, comp, dom = args
    out = {}
    for nm in ("extract_subelement", "extract"):
        out[nm] = it.call(it.getattr(e, nm + ("_component" if dom is not None else "_reference_component")), [*([dom] if dom is not None else []), comp], {})
    if dom is None:
        for nm in ("degree", "is_cellwise_constant"): out[nm] = it.call(it.getattr(e, nm), [comp], {})
    return out


for mp in PULL:
    for rank in (RANKS.get(mp, (0, 1, 2)) + tuple(r + 1 for r in RANKS.get(mp, ()))):
        for phys in (False, True):
            for form in ("tuple", "number", "short", "long", "outside"):
                if form == "number" and rank != 1 or form == "outside" and rank == 0 or form == "short" and rank == 0: continue
                def setup(it, mp=mp, rank=rank, phys=phys, form=form):
                    it.inline = INLINE
                    e, sh = base(it, mp, rank)
                    want = physical(mp, sh) if phys else sh
                    c = tuple(SInt(z3.Int(f"c{i}")) for i in range(rank + {"short": -1, "long": 1}.get(form, 0)))
                    if form == "outside": it.eng.assume(z3.Or(*[x.e >= zi(d) for x, d in zip(c, want)]))
                    elif form != "long": it.eng.assume(inside(c, want))
                    return [e, c[0] if form == "number" else c, domain() if phys else None], {}, (e, c)
                def ens(it, ctx, r, phys=phys):
                    e, c = ctx
                    it.eng.equal(r["extract_subelement"], (None, c), "no sub-element, the component itself")
                    it.eng.equal(r["extract"], (c, e), "the component of the element itself")
                    if not phys:
                        it.eng.equal(r["degree"], SInt(z3.Int("degree")), "degree of a component")
                        it.eng.equal(r["is_cellwise_constant"], SBool(z3.Int("degree") == 0), "constancy of a component")
                bad = form in ("short", "long", "outside")
                CONTRACTS.append(Contract(f"simple element with {mp}, value rank {rank}: {'value' if phys else 'reference value'} component, {form}", setup, ask, must_raise if bad else ens, raises=raises(ValueError) if bad else None, models=MODELS))


def setup_pb(it):
    it.inline = INLINE
    return [], {}, None
@driver
def run_pb(it, args, kw):
    out = []
    for mp in PULL: out.append(it.getattr(base(it, mp, 0)[0], "pullback"))
    for mp in ("undefined", "symmetries", text("mapping")):
        try: out.append(it.getattr(base(it, mp, 0)[0], "pullback"))
        except PyRaise as e: out.append(e.exc)
    return out
def ens_pb(it, ctx, r):
    for mp, x in zip(PULL, r): need(it, x is PULL[mp], f"pull-back of {mp!r}")
    need(it, r[len(PULL)] is r[len(PULL) + 1] is ValueError, "an unknown mapping has no pull-back")
    last = r[-1]
    for mp in PULL:
        if it.eng.entails(z3.Const("mapping", U) == it.eng.to_u(mp)): return need(it, last is PULL[mp], f"pull-back of {mp!r}")
    need(it, last is ValueError, "an unknown mapping has no pull-back")
CONTRACTS.append(Contract("pull-back of a mapping", setup_pb, run_pb, ens_pb))


# ---------------------------------------------------------------- vector elements of any dimension
def sub_element(it, mapping, rank):
    sh = tuple(SInt(z3.Int(f"extent{i}")) for i in range(rank))
    for d in sh: it.eng.fact(d.e >= 1)
    it.eng.fact(GDIM >= 1)
    fam = UFam("sub", TRI, shape=sh, mapping=mapping)
    fam.schema.attrs["pullback"] = lambda it2, o: PULL[mapping]
    for nm in ("extract_component", "extract_reference_component"):
        fam.schema.attrs[nm] = lambda it2, o, nm=nm: Model(lambda it3, args, kw: (App(nm, (o, *[deref(x) for x in args])), Obj("simple", [], SIMPLE)), nm)
    return fam.obj(), sh


SIMPLE = Schema("simple", {"degree": method(lambda it, o: SInt(z3.Int("simple_degree"))), "is_cellwise_constant": method(lambda it, o: SBool(z3.Bool("simple_constant")))})


def product_of(sh):
    t = z3.IntVal(1)
    for d in sh: t = t * zi(d)
    return t


@driver
def facts(it, args, kw):
    """e, components by kind -> answers"""
    make, comps = args
    e = make(it)
    out = {k: it.getattr(e, k) for k in ("reference_value_shape", "reference_value_size", "num_sub_elements", "sub_elements", "pullback")}
    out["element"] = e
    out["value_shape"] = it.call(it.getattr(out["pullback"], "physical_value_shape"), [e, domain()], {})
    for k, (c, phys) in comps.items():
        d = [domain()] if phys else []
        for nm in ("extract_subelement", "extract"):
            try: out[nm, k] = it.call(it.getattr(e, nm + ("_component" if phys else "_reference_component")), [*d, c], {})
            except PyRaise as ex: out[nm, k] = ex.exc
        if not phys:
            for nm in ("degree", "is_cellwise_constant"):
                try: out[nm, k] = it.call(it.getattr(e, nm), [c], {})
                except PyRaise as ex: out[nm, k] = ex.exc
    return out


def resolved(it, r, k, sub, phys, want, what):
    """the answers about component k: the sub-element and its component, then what the sub-element makes of it"""
    n, c = want
    it.eng.equal(r["extract_subelement", k], (n, c), f"{what}: sub-element and its component")
    x = it.eng.force(deref(r["extract", k]))
    a, s = it.iter_seq(x).items()
    it.eng.equal(s, Obj("simple", [], SIMPLE), f"{what}: simple element")
    a = it.eng.force(deref(a))
    nm = "extract_component" if phys else "extract_reference_component"
    args = [sub, domain(), c] if phys else [sub, c]
    need(it, isinstance(a, App) and a.fn == nm and len(a.args) == len(args), f"{what}: asked of the sub-element")
    for x, y in zip(a.args, args): it.eng.equal(it.eng.force(deref(x)), y, f"{what}: asked of the sub-element about its component")
    if not phys:
        it.eng.equal(r["degree", k], SInt(z3.Int("simple_degree")), f"{what}: degree")
        it.eng.equal(r["is_cellwise_constant", k], SBool(z3.Bool("simple_constant")), f"{what}: constancy")


for mp in PULL:
    for rank in RANKS.get(mp, (0, 1, 2)):
        def setup(it, mp=mp, rank=rank):
            it.inline = INLINE
            sub, sh = sub_element(it, mp, rank)
            dim = z3.Int("dim"); it.eng.assume(dim >= 1)
            make = lambda it2: it2.construct(fu.VectorElement, [sub], {"dim": SInt(dim)})
            comps, ok = {}, {}
            for phys in (False, True):
                want = (SInt(dim),) + (physical(mp, sh) if phys else sh)
                nm = "value" if phys else "reference value"
                c = tuple(SInt(z3.Int(f"{'p' if phys else 'r'}{i}")) for i in range(rank + 1))
                it.eng.assume(inside(c, want))
                comps[nm + " component"] = (c, phys); ok[nm + " component"] = (c[0], c[1:])
                if rank == 0: comps[nm + " number"] = (c[0], phys); ok[nm + " number"] = (c[0], ())
                out = tuple(SInt(z3.Int(f"{'p' if phys else 'r'}o{i}")) for i in range(rank + 1))
                it.eng.assume(z3.Or(*[x.e >= zi(d) for x, d in zip(out, want)]))
                comps[nm + " outside"] = (out, phys); ok[nm + " outside"] = None
                comps[nm + " long"] = (c + (0,), phys); ok[nm + " long"] = None
                if rank: comps[nm + " short"] = (c[:-1], phys); ok[nm + " short"] = None
            return [make, comps], {}, (sub, sh, dim, comps, ok)
        def ens(it, ctx, r, mp=mp):
            sub, sh, dim, comps, ok = ctx
            it.eng.equal(r["reference_value_shape"], (SInt(dim), *sh), "reference value shape")
            it.eng.equal(r["reference_value_size"], SInt(dim * product_of(sh)), "reference value size")
            it.eng.equal(r["value_shape"], (SInt(dim), *physical(mp, sh)), "value shape")
            it.eng.equal(r["num_sub_elements"], SInt(dim), "number of sub-elements")
            i = fresh_int("i")
            it.eng.equal(it.iter_seq(r["sub_elements"]).as_kind("tuple"), Seq([Flat(i, Dom(n=dim), Seq([Elem(sub)]))], "tuple"), "sub-elements")
            need(it, r["pullback"] is PULL[mp], "pull-back is that of the sub-element")
            for k, (c, phys) in comps.items():
                if ok[k] is None:
                    need(it, r["extract_subelement", k] is ValueError and r["extract", k] is ValueError, f"{k}: rejected")
                    if not phys: need(it, r["degree", k] is ValueError and r["is_cellwise_constant", k] is ValueError, f"{k}: no degree")
                else: resolved(it, r, k, sub, phys, ok[k], k)
        CONTRACTS.append(Contract(f"VectorElement of any dimension of a sub-element with {mp}, value rank {rank}", setup, facts, ens, models=MODELS))


# ---------------------------------------------------------------- tensor elements
def auto(n): return {(i, j): (j, i) for i in range(n) for j in range(n) if i > j}


def rev(s): return {b: a for a, b in s.items()}


TENSORS = [((1,), {}), ((2,), {}), ((3,), {}), ((4,), {}), ((2,), {(1,): (0,)}), ((3,), {(2,): (0,)}), ((3,), {(0,): (2,)}), ((3,), {(0,): (1,), (2,): (1,)}),
           ((1, 1), {}), ((2, 2), {}), ((2, 3), {}), ((3, 2), {}), ((3, 3), {}), ((1, 3), {}),
           ((2, 2), True), ((3, 3), True), ((4, 4), True), ((2, 2), rev(auto(2))), ((3, 3), rev(auto(3))), ((3, 3), {(0, 1): (1, 0), (2, 0): (0, 2), (1, 2): (2, 1)}), ((3, 3), {(0, 1): (1, 0)}), ((3, 3), {(2, 2): (0, 0), (1, 1): (0, 0)}),
           ((2, 3), {(1, 0): (0, 2)}), ((2, 2), {(0, 0): (1, 1), (1, 0): (1, 1), (0, 1): (1, 1)}),
           ((2, 2, 2), {}), ((2, 1, 3), {}), ((2, 2, 2), {(0, 0, 1): (1, 0, 0), (1, 1, 0): (0, 1, 1)}), ((3, 2, 2), {(i, 1, 0): (i, 0, 1) for i in range(3)})]


def symmetric_pullback(it, args, kw):
    """assumed contract of ufl.pullback.SymmetricPullback(e, m): value component c of the blocks is the value of sub-element m[c]"""
    e, m = args
    m = {k: v for k, v in it.concretize(m).items()}
    def pvs(it2, o, elem, dom):
        it2.eng.equal(deref(elem), deref(e), "value shape of the symmetric element itself")
        s = it2.eng.force(deref(it2.iter_seq(it2.getattr(deref(e), "sub_elements")).items()[0]))
        return tuple(i + 1 for i in max(m)) + it2.call(it2.getattr(it2.getattr(s, "pullback"), "physical_value_shape"), [s, dom], {})
    o = Obj("symmetric_pullback", [], Schema("symmetric_pullback", {"physical_value_shape": Model1(pvs)}))
    o.schema.symmetry = m
    return o


def wrapped_symmetric(it, args, kw): return symmetric_pullback(it, [args[0], args[1]], kw)


for shape, sym in TENSORS:
    for mp, rank in [("identity", 0), ("identity", 2), ("covariant Piola", 1), ("contravariant Piola", 1), ("double covariant Piola", 2), ("L2 Piola", 0)]:
        def setup(it, mp=mp, rank=rank, shape=shape, sym=sym):
            it.inline = INLINE
            sub, sh = sub_element(it, mp, rank)
            keys = auto(shape[0]) if sym is True else sym
            box = {}
            make = lambda it2: it2.construct(fu.TensorElement, [sub], {"shape": shape, "symmetry": sym if sym in (True, None) else PDict_of(it2, sym)})
            blocks = [i for i in itertools.product(*map(range, shape)) if i not in keys]
            comps, ok = {}, {}
            inner = {phys: tuple(SInt(z3.Int(f"{'p' if phys else 'r'}{i}")) for i in range(rank)) for phys in (False, True)}
            for phys in (False, True):
                w = physical(mp, sh) if phys else sh
                it.eng.assume(inside(inner[phys], w))
                for i in itertools.product(*map(range, shape)):
                    if phys:
                        comps[f"value component {i}"] = (i + inner[True], True)
                        ok[f"value component {i}"] = (blocks.index(keys.get(i, i)), inner[True])
                    elif not keys:
                        comps[f"reference value component {i}"] = (i + inner[False], False)
                        ok[f"reference value component {i}"] = (blocks.index(i), inner[False])
                bad = (SInt(z3.Int(f"far{phys}")),) + (0,) * (len(shape) + rank - 1)
                if phys or not keys:
                    it.eng.assume(bad[0].e >= shape[0])
                    comps[f"outside {phys}"] = (bad, phys); ok[f"outside {phys}"] = None
                comps[f"long {phys}"] = ((0,) * (len(shape) + rank + 1), phys); ok[f"long {phys}"] = None
            if keys:
                for b in range(len(blocks)):
                    comps[f"reference value component {b}"] = ((b,) + inner[False], False)
                    ok[f"reference value component {b}"] = (b, inner[False])
                comps["outside"] = ((len(blocks),) + inner[False], False); ok["outside"] = None
            if rank == 0 and (keys or len(shape) == 1):
                for b in range(len(blocks)):
                    comps[f"reference value number {b}"] = (b, False)
                    ok[f"reference value number {b}"] = (b, ())
            if rank == 0 and len(shape) == 1:
                for i in range(shape[0]):
                    comps[f"value number {i}"] = (i, True)
                    ok[f"value number {i}"] = (blocks.index(keys.get((i,), (i,))), ())
            return [make, comps], {}, (sub, sh, keys, blocks, comps, ok)
        def ens(it, ctx, r, mp=mp, shape=shape):
            sub, sh, keys, blocks, comps, ok = ctx
            rs = ((len(blocks),) if keys else shape) + sh
            it.eng.equal(r["reference_value_shape"], rs, "reference value shape")
            it.eng.equal(r["reference_value_size"], SInt(len(blocks) * product_of(sh)), "reference value size")
            it.eng.equal(r["value_shape"], shape + physical(mp, sh), "value shape")
            it.eng.equal(r["num_sub_elements"], len(blocks), "number of sub-elements is the number of independent components")
            it.eng.equal(it.iter_seq(r["sub_elements"]).as_kind("tuple"), (sub,) * len(blocks), "sub-elements")
            e = r["element"]
            want = {i: blocks.index(keys.get(i, i)) for i in itertools.product(*map(range, shape))}
            if keys: need(it, getattr(getattr(r["pullback"], "schema", None), "symmetry", None) == want, "the pull-back takes every component from the degree of freedom that represents it")
            else: need(it, r["pullback"] is PULL[mp], "pull-back is that of the sub-element")
            it.eng.equal(it.call(it.getattr(e, "mapping"), [], {}), "symmetries" if keys else mp, "mapping")
            it.eng.equal(it.iter_seq(it.call(it.getattr(e, "flattened_sub_element_mapping"), [], {})).as_kind("tuple"), tuple(want.values()), "sub-element numbers of all the components")
            need(it, dict(it.concretize(it.call(it.getattr(e, "symmetry"), [], {}))) == keys, "symmetry")
            for k, (c, phys) in comps.items():
                if ok[k] is None:
                    need(it, r["extract_subelement", k] is ValueError and r["extract", k] is ValueError, f"{k}: rejected")
                else: resolved(it, r, k, sub, phys, ok[k], k)
        CONTRACTS.append(Contract(f"TensorElement of shape {shape}{', symmetry ' + str(sym) if sym else ''}, sub-element with {mp}, value rank {rank}", setup, facts, ens, models={**MODELS, PB.SymmetricPullback: wrapped_symmetric}))


def PDict_of(it, d): return dict(d)


# ---------------------------------------------------------------- invalid symmetries
@driver
def build_tensor(it, args, kw):
    sub, shape, key, val = args
    d = it.eng.new_dict(Seq([Elem((tuple(key), tuple(val)))])) if key is not None else True
    return it.construct(fu.TensorElement, [sub], {"shape": tuple(shape), "symmetry": d})


for r in (1, 2, 3):
    for lk, lv in ((r, r), (r, r + 1), (r + 1, r)):
        def setup(it, r=r, lk=lk, lv=lv):
            it.inline = INLINE
            sub, _ = sub_element(it, "identity", 0)
            sh, k, v = ([z3.Int(f"{x}{i}") for i in range(n)] for x, n in (("s", r), ("k", lk), ("v", lv)))
            for x in sh: it.eng.assume(x >= 1)
            if lk == lv: it.eng.assume(z3.Or(*[z3.Or(a < 0, a >= s) for y in (k, v) for a, s in zip(y, sh)]))
            return [sub, *(tuple(map(SInt, y)) for y in (sh, k, v))], {}, None
        CONTRACTS.append(Contract(f"TensorElement of any shape of rank {r}: symmetry between indices of lengths {lk} and {lv} outside the shape is rejected", setup, build_tensor, must_raise, raises=raises(ValueError), models=MODELS))
def bad_symmetries(shape):
    zero, n = (0,) * len(shape), len(shape)
    for j in range(n):
        for x in (-1, shape[j], shape[j] + 1):
            i = zero[:j] + (x,) + zero[j + 1:]
            yield i, zero
            yield zero, i
    yield zero, zero + (0,)
    yield zero + (0,), zero
    yield zero, ()


@driver
def build_tensors(it, args, kw):
    out = []
    for k, v in bad_symmetries(args[1]):
        try: out.append((k, v, it.construct(fu.TensorElement, [args[0]], {"shape": args[1], "symmetry": {k: v}})))
        except PyRaise as e: out.append((k, v, e.exc))
    return out


for shape in ((1,), (3,), (2, 2), (2, 3), (3, 1), (2, 2, 2), (1, 2, 3)):
    def setup(it, shape=shape):
        it.inline = INLINE
        return [sub_element(it, "identity", 0)[0], shape], {}, shape
    def ens(it, shape, r):
        for k, v, x in r: need(it, x is ValueError, f"symmetry {k}: {v} of shape {shape} is rejected")
    CONTRACTS.append(Contract(f"TensorElement of shape {shape}: invalid symmetries are rejected", setup, build_tensors, ens, models=MODELS))
for r in (1, 2, 3):
    def setup(it, r=r):
        it.inline = INLINE
        sub, _ = sub_element(it, "identity", 0)
        sh = [z3.Int(f"s{i}") for i in range(r)]
        for x in sh: it.eng.assume(x >= 1)
        if r == 2: it.eng.assume(sh[0] != sh[1])
        return [sub, tuple(map(SInt, sh)), None, None], {}, None
    CONTRACTS.append(Contract(f"TensorElement of any shape of rank {r}: automatic symmetry is for square matrices only", setup, build_tensor, must_raise, raises=raises(ValueError), models=MODELS))


# ---------------------------------------------------------------- symmetry of a mixed element
KEYSETS = [{}, {(0,): (1,)}, {(0, 1): (1, 0)}, {(1, 0): (0, 1), (2, 0): (0, 2)}]


@driver
def mixed_symmetry(it, args, kw):
    e = star(fu.MixedElement, it, list(args))
    return it.call(it.getattr(e, "symmetry"), [domain()], {})


for n in (1, 2, 3):
    for ks in itertools.product(KEYSETS, repeat=n):
        def setup(it, ks=ks):
            it.inline = INLINE
            ps, spec, off = [], [], z3.IntVal(0)
            for i, k in enumerate(ks):
                rank = len(next(iter(k))) if k else 1
                p = Part(f"part{i}", rank=1)
                ph = tuple(SInt(z3.Int(f"phys{i}_{j}")) for j in range(rank))
                for j, x in enumerate(ph): it.eng.assume(x.e >= max([1] + [y[j] + 1 for kv in k.items() for y in kv]))
                p.phys = lambda it2, o, ph=ph: ph
                p.schema.attrs["symmetry"] = lambda it2, o, k=k: Model(lambda it3, a, kw, k=k: it3.eng.new_dict(Seq([Elem((x, y)) for x, y in k.items()])), "symmetry")
                ps.append(p.obj(0))
                for x, y in k.items(): spec.append((off + ravel(x, ph), off + ravel(y, ph)))
                off = off + product_of(ph)
            return ps, {}, spec
        def ens(it, spec, r):
            r = deref(r)
            items = r.items.items() if isinstance(r, PDict) else list(r.items())
            need(it, len(items) == len(spec), "as many symmetries as the parts have")
            for x, (a, b) in zip(items, spec):
                k, v = it.iter_seq(x).items() if not isinstance(x, tuple) else x
                it.eng.equal((k, v), ((SInt(a),), (SInt(b),)), "the symmetry of the part, at the positions its components occupy")
        CONTRACTS.append(Contract(f"MixedElement: symmetry of {n} parts with {tuple(map(len, ks))} symmetries of ranks {tuple(len(next(iter(k))) if k else 0 for k in ks)}", setup, mixed_symmetry, ens, models=MODELS))
