"""P19 contracts: entity permutations of composite elements."""
from .evals import *
import FIAT
from . import flat as flatc
from finat import enriched, tensor_product, cube, discontinuous, hdivcurl, fiat_elements

META = {"assumptions": ["FIAT: entity_permutations of a FIAT element and make_entity_permutations_tensorproduct are as documented; parts are arbitrary tables of valid permutations"]}
CONTRACTS = []


def C(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


# ================================================================ concatenate_entity_permutations: parts one after the other
# {dimension: {entity: number of orientations}}
TOPS = {"interval": {0: {0: 1, 1: 1}, 1: {0: 2}}, "triangle": {0: {0: 1, 1: 1, 2: 1}, 1: {0: 2, 1: 2, 2: 2}, 2: {0: 6}},
        "interval x interval": {(0, 0): {0: 1, 1: 1, 2: 1, 3: 1}, (0, 1): {0: 2, 1: 2}, (1, 0): {0: 2, 1: 2}, (1, 1): {0: 8}}}


def perm_fun(it, el, i, d, e, o):
    """permutation of part i on that entity and orientation: arbitrary length and entries"""
    nm = f"perm_{d}_{e}_{o}".replace(" ", "").replace("(", "").replace(")", "").replace(",", "x")
    n, g = z3.Function(nm + "_len", I, I), z3.Function(nm, I, I, I)
    x = z3.Int("x")
    it.eng.fact(z3.ForAll([x], n(x) >= 0, patterns=[n(x)]))
    return n, g


def orients(d, n):
    return [(0, k) for k in range(n)] if isinstance(d, tuple) else list(range(n))


def part(it, top, order=lambda xs: list(xs)):
    def perms(it2, o):
        i = o.params[0]
        out = []
        for d in order(top):
            inner = []
            for e in order(top[d]):
                ls = []
                for w in order(orients(d, top[d][e])):
                    n, g = perm_fun(it2, "part", i, d, e, w)
                    k = fresh_int("k")
                    ls.append((w, PList(it2.eng, Seq([Flat(k, Dom(n=n(i)), Seq([Elem(SInt(g(i, k)))]))], "list"))))
                inner.append((e, PDict(it2.eng, Seq([Elem(x) for x in ls]))))
            out.append((d, PDict(it2.eng, Seq([Elem(x) for x in inner]))))
        return PDict(it2.eng, Seq([Elem(x) for x in out]))
    return Schema("part", {"entity_permutations": perms})


def cep_setup(name, how):
    top = TOPS[name]
    def setup(it):
        sch = part(it, top)
        n = z3.Int("n")
        it.eng.assume(n >= 0)
        i = fresh_int("i")
        els = Seq([Elem(Obj("part", (z3.IntVal(0),), sch)), Flat(i, Dom(n=n), Seq([Elem(Obj("part", (i + 1,), sch))]))], "tuple")
        if how == "function":
            return [els], {}, (name, n)
        o = new(it, enriched.EnrichedElement, elements=els)
        return [o], {}, (name, n)
    return setup


def cep_ens(it, ctx, r):
    name, n = ctx
    top = TOPS[name]
    eng = it.eng
    out = []
    for d in top:
        inner = []
        for e in top[d]:
            ls = []
            for w in orients(d, top[d][e]):
                ln, g = perm_fun(it, "part", None, d, e, w)
                i, k, k0, u = fresh_int("i"), fresh_int("k"), fresh_int("k"), fresh_int("u")
                z = z3.IntVal(0)
                ls.append((w, PList(eng, Seq([Flat(k0, Dom(n=ln(z)), Seq([Elem(SInt(g(z, k0)))])), Flat(i, Dom(n=n), Seq([Flat(k, Dom(n=ln(i + 1)), Seq([Elem(SInt(
                    ln(z) + eng.sum_over(u, Dom(n=i), ln(u + 1)) + g(i + 1, k)))]))]))]))))
            inner.append((e, PDict(eng, Seq([Elem(x) for x in ls]))))
        out.append((d, PDict(eng, Seq([Elem(x) for x in inner]))))
    eng.equal(r, PDict(eng, Seq([Elem(x) for x in out])), "each part's permutation, shifted by the numbers of the parts before it")


for nm in TOPS:
    C(f"concatenate_entity_permutations[{nm}, any number of parts]", cep_setup(nm, "function"), enriched.concatenate_entity_permutations, cep_ens)
    C(f"EnrichedElement.entity_permutations[{nm}, any number of parts]", cep_setup(nm, "property"), attr("entity_permutations"), cep_ens)


# ================================================================ FlattenedDimensions: the product's, re-labelled
flatc.perm_contracts(C)


# ================================================================ compose_permutations: FIAT's rule on the factors' maps, entities in product order
def tp_model(it, a, kw):
    cells, dim, maps = a
    seq = lambda s: tuple(deref(x) for x in it.eng.norm(it.iter_seq(s)).items())
    return App("tensor product of permutations", seq(cells) + seq(dim) + seq(maps))


def fac_perm(name, d, e):
    return App(f"permutations of {name}", (SU(d), SInt(e)))


def cp_setup(arity, how):
    def setup(it):
        cells = [RangeCellFam(f"cell{i}") for i in range(arity)]
        els = []
        for i, c in enumerate(cells):
            fam = ElementFam(f"f{i}", c, extra={"entity_permutations": lambda it2, o, c=c, i=i: c.topology(it2, c.obj(), lambda d, e: fac_perm(f"f{i}", d, e))})
            els.append(fam.obj())
        if how == "function":
            return [tuple(els)], {}, cells
        return [new(it, tensor_product.TensorProductElement, factors=tuple(els))], {}, cells
    return setup


def cp_ens(it, ctx, r):
    cells = ctx
    eng = it.eng
    n = len(cells)
    ds = [fresh_u("d") for _ in range(n)]
    es = [fresh_int("e") for _ in range(n)]
    nents = [c.nents((), d) for c, d in zip(cells, ds)]
    ent = es[0]
    for i in range(1, n):
        ent = ent * nents[i] + es[i]
    leaf = App("tensor product of permutations", tuple(c.obj() for c in cells) + tuple(SU(d) for d in ds) + tuple(fac_perm(f"f{i}", ds[i], es[i]) for i in range(n)))
    inner = Seq([Elem((SInt(ent), leaf))])
    for i in reversed(range(n)):
        inner = Seq([Flat(es[i], Dom(n=nents[i]), inner)])
    items = Seq([Elem((tuple(SU(d) for d in ds), PDict(eng, inner)))])
    for i in reversed(range(n)):
        items = Seq([Flat(ds[i], Dom(keys=cells[i].dims(())), items)])
    eng.equal(r, PDict(eng, items), "the factors' maps on the factors' entities, last factor fastest")


import FIAT.orientation_utils as ou
TPM = {ou.make_entity_permutations_tensorproduct: tp_model}
for ar in (1, 2, 3):
    C(f"compose_permutations[{ar} factors]", cp_setup(ar, "function"), tensor_product.compose_permutations, cp_ens, models=TPM, bounded=f"number of factors = {ar}")
C("TensorProductElement.entity_permutations[2 factors]", cp_setup(2, "property"), attr("entity_permutations"), cp_ens, models=TPM, bounded="number of factors = 2")


# ================================================================ delegation
def base_perms(it, o=None):
    return App("permutations of the wrapped element", ())


def wr_setup(cls):
    def setup(it):
        w = Obj("wrappee", (), Schema("wrappee", {"entity_permutations": base_perms}))
        return [new(it, cls, wrappee=w)], {}, None
    return setup


def fe_setup(it):
    e = Obj("fiat", (), Schema("fiat", {"entity_permutations": method(base_perms)}))
    return [new(it, fiat_elements.FiatElement, _element=e)], {}, None


def same_ens(it, ctx, r):
    it.eng.equal(r, base_perms(it), "those of the wrapped element")


for cls in (hdivcurl.HDivElement, hdivcurl.HCurlElement):
    C(f"{cls.__name__}.entity_permutations", wr_setup(cls), attr("entity_permutations"), same_ens)
C("FiatElement.entity_permutations", fe_setup, attr("entity_permutations"), same_ens)


# ---- discontinuous elements: the base element's permutations are those of the cell only if nothing lies on the boundary
def disc_setup(on):
    """on: entities of the interval carrying (arbitrarily numbered) degrees of freedom of the base element"""
    def setup(it):
        nums = {}
        for d, k in on:
            nums[d, k] = [SInt(z3.Int(f"dof_{d}_{k}_{j}")) for j in range(2)]
        mk = lambda xs: PList(it.eng, Seq([Elem(x) for x in xs], "list"))
        allv = [x for v in nums.values() for x in v]
        for i, a in enumerate(allv):
            it.eng.assume(a.e >= 0)
            for b in allv[:i]:
                it.eng.assume(a.e != b.e)
        dct = lambda f: PDict(it.eng, Seq([Elem((d, PDict(it.eng, Seq([Elem((k, mk(f(d, k)))) for k in ks])))) for d, ks in ((0, (0, 1)), (1, (0,)))]))
        own = lambda d, k: nums.get((d, k), [])
        clo = lambda d, k: allv if d == 1 else own(d, k)
        e = Obj("base", (), Schema("base", {"entity_dofs": method(lambda i2, o: dct(own)), "entity_closure_dofs": method(lambda i2, o: dct(clo)), "entity_permutations": base_perms,
                                          "cell": lambda i2, o: FIAT.ufc_simplex(1), "formdegree": lambda i2, o: SInt(z3.Int("formdegree")), "degree": lambda i2, o: SInt(z3.Int("degree")),
                                          "space_dimension": method(lambda i2, o: len(allv)), "mapping": lambda i2, o: "affine"}))
        return [new(it, discontinuous.DiscontinuousElement, element=e)], {}, on
    return setup


for on in ([], [(1, 0)]):
    C(f"DiscontinuousElement.entity_permutations[base degrees of freedom on {on}]", disc_setup(on), attr("entity_permutations"), same_ens)
for on in ([(0, 0)], [(0, 1)], [(0, 0), (0, 1)], [(0, 0), (0, 1), (1, 0)], [(0, 1), (1, 0)]):
    C(f"DiscontinuousElement.entity_permutations[base degrees of freedom on {on}: none offered]", disc_setup(on), attr("entity_permutations"), must_raise, raises=raises(NotImplementedError))
