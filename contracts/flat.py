"""FlattenedDimensions: everything attached to an entity of the product cell is attached to the entity with the same
vertices of the quadrilateral or hexahedron (FIAT's flattening functions are verified from their source as well)."""
from .evals import *
from FIAT.reference_element import (UFCInterval, UFCQuadrilateral, UFCHexahedron, TensorProductCell, flatten_entities, flatten_permutations, compute_unflattening_map, tuple_sum)
from finat.cube import FlattenedDimensions

Iv = UFCInterval
PRODUCTS = {"interval x interval": (lambda: TensorProductCell(Iv(), Iv()), UFCQuadrilateral), "interval x interval x interval": (lambda: TensorProductCell(Iv(), Iv(), Iv()), UFCHexahedron),
            "quadrilateral x interval": (lambda: TensorProductCell(UFCQuadrilateral(), Iv()), UFCHexahedron)}
# interval x quadrilateral is not flattened to the hexahedron's numbering by FIAT (known finding K01); precondition: not that product


def corr(name):
    """product entity -> entity of the flat cell with the same vertices (compared by coordinates)"""
    mk, flatcls = PRODUCTS[name]
    c, f = mk(), flatcls()
    pv, fv = c.get_vertices(), f.get_vertices()
    where = {frozenset(tuple(map(float, fv[v])) for v in vs): (d, k) for d, es in f.get_topology().items() for k, vs in es.items()}
    out = {}
    for d, es in c.get_topology().items():
        for k, vs in es.items():
            out[d, k] = where[frozenset(tuple(map(float, pv[v])) for v in vs)]
    assert len(set(out.values())) == len(out) == len(where)
    return c, f, out


def flat_obj(it, name, **attrs):
    it.inline = {flatten_entities, flatten_permutations, tuple_sum}
    c, f, m = corr(name)
    p = Obj("product", (), Schema("product", {"cell": lambda it2, o: c, **attrs}))
    return it.construct(FlattenedDimensions, [p], {}), f, m


def lists(it, tag, d, k):
    """an arbitrary list attached to entity k of dimension d of the product cell"""
    nm = f"{tag}_{'_'.join(map(str, d)) if isinstance(d, tuple) else d}_{k}".replace("(", "").replace(")", "").replace(" ", "").replace(",", "")
    n = z3.Int(nm + "_len")
    it.eng.fact(n >= 0)
    g = z3.Function(nm, I, I)
    j = fresh_int()
    return PList(it.eng, Seq([Flat(j, Dom(n=n), Seq([Elem(SInt(g(j)))]))], "list"))


def dofs_setup(name, m):
    def setup(it):
        c = PRODUCTS[name][0]()
        data = lambda it2: PDict(it2.eng, Seq([Elem((d, PDict(it2.eng, Seq([Elem((k, lists(it2, m, d, k))) for k in es])))) for d, es in c.get_topology().items()]))
        o, f, mp = flat_obj(it, name, **{m: method(lambda it2, o2: data(it2))})
        return [o], {}, (name, f, mp, m)
    return setup


def dofs_ens(it, ctx, r):
    name, f, mp, m = ctx
    inv = {v: k for k, v in mp.items()}
    it.eng.equal(r, PDict(it.eng, Seq([Elem((d, PDict(it.eng, Seq([Elem((k, lists(it, m, *inv[d, k]))) for k in es])))) for d, es in f.get_topology().items()])),
                 "those of the product's entity with the same vertices")


def dofs_contracts(C, m):
    for name in PRODUCTS:
        C(f"FlattenedDimensions.{m}[{name}]", dofs_setup(name, m), meth(m), dofs_ens)


# ---- permutations
def orient_sizes(name, d):
    """numbers of extrinsic and intrinsic orientations of an entity of that dimension of the product cell"""
    import itertools
    c = PRODUCTS[name][0]()
    io = []
    for x, dd in zip(c.cells, d):
        if isinstance(x, UFCQuadrilateral):
            io.append({0: 1, 1: 2, 2: 8}[dd])
        else:
            io.append({0: 1, 1: 2}[dd])
    like = sum(1 for x, dd in zip(c.cells, d) if dd == 1 and isinstance(x, UFCInterval))
    eo = {0: 1, 1: 1, 2: 2, 3: 6}[like]
    return [eo] + io


def perm_setup(name):
    import itertools
    def setup(it):
        c = PRODUCTS[name][0]()
        def data(it2, o2):
            out = []
            for d, es in c.get_topology().items():
                inner = []
                for k in es:
                    sz = orient_sizes(name, d)
                    inner.append((k, PDict(it2.eng, Seq([Elem((o, lists(it2, "perm" + "x".join(map(str, o)), d, k))) for o in itertools.product(*map(range, sz))]))))
                out.append((d, PDict(it2.eng, Seq([Elem(x) for x in inner]))))
            return PDict(it2.eng, Seq([Elem(x) for x in out]))
        o, f, mp = flat_obj(it, name, entity_permutations=data)
        return [o], {}, (name, f, mp)
    return setup


def perm_ens(it, ctx, r):
    import itertools
    name, f, mp = ctx
    inv = {v: k for k, v in mp.items()}
    out = []
    for d, es in f.get_topology().items():
        inner = []
        for k in es:
            pd, pk = inv[d, k]
            sz = orient_sizes(name, pd)
            # orientations are numbered lexicographically: exchange of axes first, then the factors in order
            perms = []
            for o in itertools.product(*map(range, sz)):
                num = 0
                for x, s in zip(o, sz):
                    num = num * s + x
                perms.append((num, lists(it, "perm" + "x".join(map(str, o)), pd, pk)))
            inner.append((k, PDict(it.eng, Seq([Elem(x) for x in perms]))))
        out.append((d, PDict(it.eng, Seq([Elem(x) for x in inner]))))
    it.eng.equal(r, PDict(it.eng, Seq([Elem(x) for x in out])), "the product's permutations, re-labelled")


def perm_contracts(C):
    for name in PRODUCTS:
        C(f"FlattenedDimensions.entity_permutations[{name}]", perm_setup(name), attr("entity_permutations"), perm_ens)


# ---- evaluation
def eval_setup(name, ent, what):
    def setup(it):
        tok = z3.Const("table", U)
        def call(it2, a, kw, o=None):
            names = ["order", "ps", "entity", "coordinate_mapping"]
            v = dict(zip(names, a)); v.update(kw)
            pd, pk = it2.concretize(it2.eng.force(deref(v["entity"])))
            return App("tabulation of the product", (v["order"], deref(v["ps"]), repr(pd), pk))
        o, f, mp = flat_obj(it, name, **{what: lambda it2, o2: Model(call, what)})
        return [o, SInt(z3.Int("order")), SU(z3.Const("ps", U))] + ([ent] if ent is not None else []), {}, (f, mp, ent)
    return setup


def eval_ens(it, ctx, r):
    f, mp, ent = ctx
    inv = {v: k for k, v in mp.items()}
    pd, pk = inv[ent if ent is not None else (f.get_spatial_dimension(), 0)]
    it.eng.equal(r, App("tabulation of the product", (SInt(z3.Int("order")), SU(z3.Const("ps", U)), repr(pd), pk)), "the product's tabulation on the entity with the same vertices")


def eval_contracts(C):
    for name in PRODUCTS:
        f = PRODUCTS[name][1]()
        for what in ("basis_evaluation", "point_evaluation"):
            for ent in [None] + [(d, k) for d, es in f.get_topology().items() for k in es]:
                C(f"FlattenedDimensions.{what}[{name}, {'cell' if ent is None else f'entity {ent}'}]", eval_setup(name, ent, what), meth(what), eval_ens)
