"""Identity, hashing, representation, pickling and reconstruction of form-language elements."""
from .ufam import *
from .p17 import ucell
CONTRACTS = []


def roundtrip(name, build, setup):
    """the element is what its representation, its pickle and its reconstruction give"""
    @driver
    def run(it, args, kw):
        e = build(it, *args)
        o = observe(it, e)
        return o, {"constructed again": observe(it, build(it, *args)), "evaluated representation": observe(it, evaluate(it, o["repr"])), "pickled": observe(it, pickled(it, e)),
                   "reconstructed": observe(it, it.call(it.getattr(e, "reconstruct"), [], {}))}
    def ens(it, ctx, r):
        for k, v in r[1].items(): agree(it, r[0], v, k)
        rep = r[0]["repr"]
        seen = [repr(p.args[0]) for p in rep.parts if not isinstance(p, str) and p.fn == "represented"] if isinstance(rep, SStr) else []
        it.eng.prove(z3.BoolVal(seen == [repr(o) for o in ctx or ()]), "the representation consists of those of the parts, in order", f"{rep!r}")
    CONTRACTS.append(Contract(f"{name}: representation, pickle, reconstruction", setup, run, ens))


# ---------------------------------------------------------------- simple elements
from oracles.uflspec import FAMILIES
from .p17 import CELLS, PRODUCTS, CANON, CUBES, tdim
EXPANDED = {"Q", "DQ", "DQ L2", "RTCF", "RTCE", "NCF", "NCE"}     # on product cells these are tensor products


def places(f):
    """cells on which the canonical family exists as a simple element"""
    for c in CELLS + PRODUCTS:
        g = CANON.get(f, f) if c in CUBES[1:] or isinstance(c, tuple) else f
        if g != f or isinstance(c, tuple) and f in EXPANDED: continue
        if isinstance(c, tuple) or c in FAMILIES[f][5]: yield c
    if FAMILIES[f][1] == 0: yield None


def some(lo, hi, name="degree"):
    def f(it):
        k = z3.Int(name)
        if lo is not None: it.eng.assume(k >= lo)
        if hi is not None: it.eng.assume(k <= hi)
        return SInt(k)
    return f


for f in FAMILIES:
    lo, hi = FAMILIES[f][4]
    cells = list(places(f))
    if not cells: continue
    for c in cells:
        for var, q in [(None, None), (text("variant"), text("scheme"))] + ([(None, text("scheme")), (text("variant"), None)] if c is cells[-1] else []):
            for k in ([some(lo, hi)] if lo is not None else [lambda it: None, some(0, None)]):
                def setup(it, k=k): return [k(it)], {}, None
                def build(it, k, f=f, c=c, var=var, q=q): return it.construct(fu.FiniteElement, [f, ucell(c), k], {"variant": var, "quad_scheme": q})
                roundtrip(f"{f} on {c}{', variant' if var else ''}{', scheme' if q else ''}", build, setup)


# ---------------------------------------------------------------- composite elements over arbitrary parts
TRI, QUAD, INT, PROD = ucell("triangle"), ucell("quadrilateral"), ucell("interval"), ucell(("interval", "interval"))
PLAIN = lambda cell=TRI, **kw: [UFam(f"part{i}", cell, variant=text("variant"), quad=text("scheme"), mapping=text("mapping"), rank=1, shape=(SInt(z3.Int("extent")),), **kw) for i in range(3)]


def kinds(cell):
    """parts of one kind each, then mixed"""
    sh = dict(rank=1, shape=lambda it, o: (SInt(pos(it, z3.Int("extent"))),))
    yield "named parts", [UFam(f"part{i}", cell, variant=text("variant"), quad=text("scheme"), mapping=text("mapping"), **sh) for i in range(3)]
    yield "scalar parts", [UFam(f"scalar{i}", cell, mapping="identity") for i in range(3)]
    yield "parts without degree", [UFam(f"plain{i}", cell, deg=None, mapping=text("mapping"), **sh) for i in range(3)]


def pos(it, e):
    it.eng.fact(e >= 1)
    return e


def composite(name, make, fams, n):
    def setup(it):
        it.eng.assume(z3.Const("remap", U) != it.eng.to_u("symmetries"))
        ps = [f.obj(0) for f in fams[:n]]
        return ps, {}, ps
    roundtrip(name, make, setup)


for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    for kn, fams in kinds(TRI):
        for n in (1, 2, 3):
            composite(f"{cls.__name__} of {n} {kn}", lambda it, *ps, cls=cls: it.construct(cls, list(ps), {}), fams, n)
for cls in (fu.BrokenElement, fu.HDivElement, fu.HCurlElement):
    for kn, fams in kinds(QUAD):
        composite(f"{cls.__name__} of {kn}", lambda it, p, cls=cls: it.construct(cls, [p], {}), fams, 1)
for dom in ("interior", "facet", "face", "edge", "vertex", "reduced"):
    for kn, fams in kinds(TRI):
        composite(f"RestrictedElement to {dom} of {kn}", lambda it, p, dom=dom: it.construct(fu.RestrictedElement, [p, dom], {}), fams, 1)
for mp in ("identity", "covariant Piola", "double contravariant Piola", "L2 Piola", text("remap")):
    for kn, fams in kinds(TRI):
        composite(f"WithMapping {mp if isinstance(mp, str) else 'any'} of {kn}", lambda it, p, mp=mp: it.construct(fu.WithMapping, [p, mp], {}), fams, 1)
for n in (1, 2, 3):
    for kw, kn in (({}, ""), ({"cell": QUAD}, " on quadrilaterals")):
        fams = [UFam(f"factor{i}", INT, variant=text("variant"), mapping=text("mapping", z3.IntVal(i))) for i in range(3)]
        composite(f"TensorProductElement of {n} factors{kn}", lambda it, *ps, kw=kw: it.construct(fu.TensorProductElement, list(ps), dict(kw)), fams, n)
for kn, fams in kinds(TRI):
    for d in ("any", None):
        def setup(it, d=d, fams=fams):
            k = z3.Int("dim"); it.eng.assume(k >= 1)
            return [fams[0].obj(0), SInt(k) if d else None], {}, [fams[0].obj(0)]
        roundtrip(f"VectorElement of {d or 'default'} dimension of {kn}", lambda it, p, d: it.construct(fu.VectorElement, [p], {"dim": d}), setup)
    for sh, sym in ((None, None), (None, True), ((2,), None), ((3,), {(2,): (0,)}), ((2, 2), {(0, 1): (1, 0)}), ((2, 3), {(0, 1): (1, 0), (1, 2): (0, 0)}), ((3, 3), True), ((2, 2, 2), {(0, 0, 1): (1, 0, 0)})):
        def setup(it, fams=fams): return [fams[0].obj(0)], {}, [fams[0].obj(0)]
        roundtrip(f"TensorElement of shape {sh} with symmetry {sym} of {kn}", lambda it, p, sh=sh, sym=sym: it.construct(fu.TensorElement, [p], {"shape": sh, "symmetry": sym}), setup)


# ---------------------------------------------------------------- reconstruction with changes
NEWNAMES = {"variant": text("new_variant"), "quad_scheme": text("new_scheme")}
CHANGES = [("variant",), ("degree",), ("quad_scheme",), ("cell",), ("variant", "degree"), ("quad_scheme", "variant", "degree", "cell")]


def change_of(it, names, cell):
    k = z3.Int("new_degree"); it.eng.assume(k >= 0)
    return {n: SInt(k) if n == "degree" else cell if n == "cell" else "L2 Piola" if n == "mapping" else NEWNAMES[n] for n in names}


def rebuilt(name, build, expected, setup, cell, changes=CHANGES):
    """reconstruct(**changes) is the element built from the changed description"""
    for names in changes:
        @driver
        def run(it, args, kw, names=names):
            ch = change_of(it, names, cell)
            want = ("value", observe(it, expected(it, ch, *args)))
            e = build(it, *args)
            return observe(it, it.call(it.getattr(e, "reconstruct"), [], dict(ch))), want[1], observe(it, build(it, *args)), observe(it, e)
        def ens(it, ctx, r, names=names):
            agree(it, r[0], r[1], f"reconstructed with other {' and '.join(names)}")
            agree(it, r[2], r[3], "the element itself is left alone")
        CONTRACTS.append(Contract(f"{name}: reconstruction with {', '.join(names)}", setup, run, ens))


def recomposite(name, make, fams, n, cell, own=()):
    """the changes go to every part, except those in `own`, which are the composite's"""
    def setup(it): return [f.obj(0) for f in fams[:n]], {}, None
    def expected(it, ch, *ps):
        mine = {k: v for k, v in ch.items() if k in own}
        rest = {k: v for k, v in ch.items() if k not in own}
        return make(it, *[it.call(it.getattr(p, "reconstruct"), [], dict(rest)) for p in ps], **mine)
    rebuilt(name, make, expected, setup, cell)


TET, HEX = ucell("tetrahedron"), ucell("hexahedron")
for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    for kn, fams in kinds(TRI):
        for n in (1, 2, 3): recomposite(f"{cls.__name__} of {n} {kn}", lambda it, *ps, cls=cls: it.construct(cls, list(ps), {}), fams, n, TET)
for cls in (fu.BrokenElement, fu.HDivElement, fu.HCurlElement):
    for kn, fams in kinds(QUAD): recomposite(f"{cls.__name__} of {kn}", lambda it, p, cls=cls: it.construct(cls, [p], {}), fams, 1, HEX)
for dom in ("interior", "facet", "reduced"):
    for kn, fams in kinds(TRI): recomposite(f"RestrictedElement to {dom} of {kn}", lambda it, p, dom=dom: it.construct(fu.RestrictedElement, [p, dom], {}), fams, 1, TET)
for mp in ("identity", "covariant Piola"):
    for kn, fams in kinds(TRI):
        wm = lambda it, p, mp=mp: it.construct(fu.WithMapping, [p, mp], {})
        rebuilt(f"WithMapping {mp} of {kn}, mapping", wm, lambda it, ch, p: it.construct(fu.WithMapping, [it.call(it.getattr(p, "reconstruct"), [], {k: v for k, v in ch.items() if k != "mapping"}), ch["mapping"]], {}), lambda it, fams=fams: ([fams[0].obj(0)], {}, None), TET, [("mapping",), ("mapping", "degree")])
        recomposite(f"WithMapping {mp} of {kn}", lambda it, p, mp=mp: it.construct(fu.WithMapping, [p, mp], {}), fams, 1, TET)
for n in (1, 2, 3):
    for kw, kn in (({}, ""), ({"cell": QUAD}, " on quadrilaterals")):
        fams = [UFam(f"factor{i}", INT, variant=text("variant"), mapping=text("mapping", z3.IntVal(i))) for i in range(3)]
        recomposite(f"TensorProductElement of {n} factors{kn}", lambda it, *ps, cell=None, kw=kw: it.construct(fu.TensorProductElement, list(ps), {"cell": cell} if cell is not None else dict(kw)), fams, n, QUAD, own=("cell",))
for kn, fams in kinds(TRI):
    def setup(it, fams=fams):
        k = z3.Int("dim"); it.eng.assume(k >= 1)
        return [fams[0].obj(0), SInt(k)], {}, None
    vec = lambda it, p, d: it.construct(fu.VectorElement, [p], {"dim": d})
    rebuilt(f"VectorElement of any dimension of {kn}", vec, lambda it, ch, p, d: vec(it, it.call(it.getattr(p, "reconstruct"), [], dict(ch)), d), setup, TET)
    for sh, sym in (((2,), None), ((2, 2), {(0, 1): (1, 0)}), ((3, 3), True)):
        recomposite(f"TensorElement of shape {sh} with symmetry {sym} of {kn}", lambda it, p, sh=sh, sym=sym: it.construct(fu.TensorElement, [p], {"shape": sh, "symmetry": sym}), fams, 1, TET)


# simple elements: each of family, cell, degree, scheme and variant can be replaced
for f in FAMILIES:
    lo, hi = FAMILIES[f][4]
    cells = [c for c in places(f) if c is not None and not isinstance(c, tuple)]
    if not cells or lo is None: continue
    for var, q in ((None, None), (text("variant"), text("scheme"))):
        def setup(it, k=some(lo, hi)): return [k(it)], {}, None
        def build(it, k, f=f, c=cells[0], var=var, q=q): return it.construct(fu.FiniteElement, [f, ucell(c), k], {"variant": var, "quad_scheme": q})
        def expected(it, ch, k, f=f, c=cells[0], var=var, q=q, lo=lo, hi=hi):
            if "degree" in ch:
                if lo is not None: it.eng.assume(ch["degree"].e >= lo)
                if hi is not None: it.eng.assume(ch["degree"].e <= hi)
            return it.construct(fu.FiniteElement, [f, ch.get("cell", ucell(c)), ch.get("degree", k)], {"variant": ch.get("variant", var), "quad_scheme": ch.get("quad_scheme", q)})
        rebuilt(f"{f} on {cells[0]}{', named' if q else ''}", build, expected, setup, ucell(cells[-1]))
for var, q in ((None, None), (text("variant"), text("scheme"))):
    @driver
    def refamily(it, args, kw, var=var, q=q):
        e = it.construct(fu.FiniteElement, ["CG", TRI, args[0]], {"variant": var, "quad_scheme": q})
        return (observe(it, it.call(it.getattr(e, "reconstruct"), [], {"family": "DG"})), observe(it, it.construct(fu.FiniteElement, ["DG", TRI, args[0]], {"variant": var, "quad_scheme": q})))
    CONTRACTS.append(Contract(f"family replaced{', named' if q else ''}", lambda it: ([some(1, None)(it)], {}, None), refamily, lambda it, ctx, r: agree(it, r[0], r[1], "family replaced")))


# ---------------------------------------------------------------- equality, hashing and ordering go by the representation
REPRED = [fu.FiniteElement, fu.MixedElement, fu.VectorElement, fu.TensorElement, fu.EnrichedElement, fu.NodalEnrichedElement, fu.TensorProductElement, fu.HDivElement, fu.HCurlElement, fu.BrokenElement, fu.RestrictedElement, fu.WithMapping]
for a in REPRED:
    for b in REPRED:
        def setup(it, a=a, b=b):
            x, y = new(it, a, token=text("repr_a")), new(it, b, token=text("repr_b"))
            return [x, y], {}, (z3.Const("repr_a", U), z3.Const("repr_b", U))
        @driver
        def run(it, args, kw):
            x, y = args
            r = {"eq": it.truth(it.call(it.getattr(x, "__eq__"), [y], {})), "ne": it.truth(it.call(it.getattr(x, "__ne__"), [y], {}))}
            r["lt"] = it.truth(it.call(it.getattr(x, "__lt__"), [y], {}))
            r["hash"] = [it.call(it.getattr(v, "__hash__"), [], {}) for v in (x, y, x)]
            r["foreign"] = [it.truth(it.call(it.getattr(x, "__eq__"), [v], {})) for v in (None, 3, "text")]
            return r
        def ens(it, ctx, r, a=a, b=b):
            same = ctx[0] == ctx[1] if a is b else z3.BoolVal(False)
            it.eng.prove(z3.BoolVal(r["eq"]) == same, "elements are equal exactly if they are of one type with one representation")
            it.eng.prove(z3.BoolVal(r["ne"]) == z3.Not(same), "inequality is the negation of equality")
            it.eng.prove(z3.BoolVal(not any(r["foreign"])), "no element equals another kind of object")
            it.eng.equal(r["hash"][0], r["hash"][2], "hash is a function of the element")
            it.eng.prove(z3.BoolVal(leaves_of(r["hash"][0]) == {"repr_a"} and leaves_of(r["hash"][1]) == {"repr_b"} and skeleton(r["hash"][0]) == skeleton(r["hash"][1]).replace("repr_b", "repr_a")), "the hash depends on the representation alone", f"{r['hash'][0]!r}")
            it.eng.prove(z3.BoolVal(r["lt"]) == BEFORE(*ctx), "ordered as the representations are")
        mods = {c.__repr__: (lambda it, args, kw: args[0].fields["token"]) for c in (a, b)}
        CONTRACTS.append(Contract(f"{a.__name__} compared with {b.__name__}", setup, run, ens, contracts=mods))


def leaves_of(v):
    out, todo = set(), [v]
    while todo:
        x = deref(todo.pop())
        if isinstance(x, App): todo += [*x.args, *(w for _, w in x.kw)]
        elif isinstance(x, SStr): todo += list(x.parts)
        elif isinstance(x, SU): out.add(str(x.e))
        elif isinstance(x, (tuple, list)): todo += list(x)
    return out


def skeleton(v): return repr(v)


BEFORE = z3.Function("text_before", U, U, z3.BoolSort())


# ---------------------------------------------------------------- the same description spelled differently
def spelled(name, a, b, setup):
    @driver
    def run(it, args, kw): return observe(it, a(it, *args)), observe(it, b(it, *args))
    CONTRACTS.append(Contract(name, setup, run, lambda it, ctx, r: agree(it, r[0], r[1], "the two spellings")))


C_ = lambda cls: lambda it, *a, **kw: it.construct(cls, list(a), kw)
F, V, T, M, E = map(C_, (fu.FiniteElement, fu.VectorElement, fu.TensorElement, fu.MixedElement, fu.EnrichedElement))
dim_degree = lambda it: ([some(1, None)(it), some(1, None, "dim")(it)], {}, None)
for c in ("interval", "triangle", "quadrilateral", "hexahedron"):
    for fam in ("CG", "DG", "Lagrange", "Q" if c in CUBES else "DP"):
        for kw in ({}, {"variant": text("variant")}, {"quad_scheme": text("scheme")}, {"variant": text("variant"), "quad_scheme": text("scheme")}):
            tag = f"{fam} on {c}{''.join(f', {k}' for k in kw)}"
            spelled(f"VectorElement of the family {tag}", lambda it, k, d, c=c, fam=fam, kw=kw: V(it, fam, ucell(c), k, dim=d, **kw), lambda it, k, d, c=c, fam=fam, kw=kw: V(it, F(it, fam, ucell(c), k, **kw), dim=d), dim_degree)
            spelled(f"VectorElement of the family {tag}, cell by name, default dimension", lambda it, k, d, c=c, fam=fam, kw=kw: V(it, fam, c, k, **kw), lambda it, k, d, c=c, fam=fam, kw=kw: V(it, F(it, fam, ucell(c), k, **kw), dim=tdim(c)), dim_degree)
            spelled(f"TensorElement of the family {tag}", lambda it, k, d, c=c, fam=fam, kw=kw: T(it, fam, c, k, **kw), lambda it, k, d, c=c, fam=fam, kw=kw: T(it, F(it, fam, ucell(c), k, **kw), shape=(tdim(c),) * 2), dim_degree)
            spelled(f"TensorElement of the family {tag}, shape and symmetry", lambda it, k, d, c=c, fam=fam, kw=kw: T(it, fam, c, k, shape=(2, 2), symmetry={(0, 1): (1, 0)}, **kw), lambda it, k, d, c=c, fam=fam, kw=kw: T(it, F(it, fam, ucell(c), k, **kw), shape=(2, 2), symmetry={(0, 1): (1, 0)}), dim_degree)
for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
    for fam in ("Q-", "S") if c in CUBES else ("P", "P-"):
        for fd in range(tdim(c) + 1):
            for kw in ({}, {"variant": text("variant"), "quad_scheme": text("scheme")}):
                fd_kw = dict(kw, form_degree=fd)
                spelled(f"VectorElement of the family {fam} Lambda of form degree {fd} on {c}{''.join(f', {k}' for k in kw)}", lambda it, k, d, c=c, fam=fam, kw=fd_kw: V(it, fam + " Lambda", ucell(c), k, dim=d, **kw), lambda it, k, d, c=c, fam=fam, kw=fd_kw: V(it, F(it, fam + " Lambda", ucell(c), k, **kw), dim=d), dim_degree)
import itertools
for sh, sym in (((2, 2), [((0, 1), (1, 0))]), ((3, 3), [((0, 1), (1, 0)), ((0, 2), (2, 0)), ((1, 2), (2, 1))]), ((3, 3), [((2, 2), (0, 0)), ((1, 0), (0, 1)), ((0, 2), (2, 0))]), ((4,), [((3,), (0,)), ((1,), (2,))])):
    for p in itertools.permutations(sym):
        spelled(f"symmetry {dict(p)} in any order", lambda it, x, sh=sh, p=p: T(it, x, shape=sh, symmetry=dict(p)), lambda it, x, sh=sh, sym=sym: T(it, x, shape=sh, symmetry=dict(sym)), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
for n in (2, 3):
    spelled(f"symmetry True of shape ({n}, {n})", lambda it, x, n=n: T(it, x, shape=(n, n), symmetry=True), lambda it, x, n=n: T(it, x, shape=(n, n), symmetry={(i, j): (j, i) for i in range(n) for j in range(i)}), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
spelled("no symmetry is the empty symmetry", lambda it, x: T(it, x, shape=(2, 3), symmetry={}), lambda it, x: T(it, x, shape=(2, 3)), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
parts3 = lambda it: ([UFam("part", TRI).obj(z3.Int(f"p{i}")) for i in range(3)], {}, None)
spelled("MixedElement of a list", lambda it, *p: M(it, it.eng.new_list(Seq([Elem(x) for x in p], "list"))), M, parts3)
spelled("MixedElement of nested tuples", lambda it, a, b, c: M(it, (a, b), c), lambda it, a, b, c: M(it, M(it, a, b), c), parts3)
for k in range(3):
    for idx in itertools.product(range(3), repeat=k + 1):
        spelled(f"reconstruct_from_elements {idx}", lambda it, *p, idx=idx: it.call(it.getattr(M(it, *p), "reconstruct_from_elements"), [p[i] for i in idx], {}), lambda it, *p, idx=idx: M(it, *[p[i] for i in idx]), parts3)
fe2 = lambda it: ([F(it, "CG", TRI, some(1, None)(it)), F(it, "DG", TRI, some(0, None, "other")(it))], {}, None)
spelled("sum of elements", lambda it, a, b: it.binop("+", a, b), E, fe2)
spelled("product of elements", lambda it, a, b: it.binop("*", a, b), M, fe2)
for dom in ("interior", "facet", "face", "edge", "vertex", "reduced"):
    spelled(f"restriction by indexing with {dom}", lambda it, a, b, dom=dom: it.getitem(a, dom), lambda it, a, b, dom=dom: it.construct(fu.RestrictedElement, [a, dom], {}), fe2)
for cls, sp in ((fu.HDivElement, fu.hdivcurl.HDiv), (fu.HCurlElement, fu.hdivcurl.HCurl)):
    spelled(f"{sp.name} applied", lambda it, x, sp=sp: it.call(sp, [x], {}), lambda it, x, cls=cls: it.construct(cls, [x], {}), lambda it: ([UFam("part", QUAD).obj(0)], {}, None))


# ---------------------------------------------------------------- what is no element is rejected
def rejected(name, make, setup):
    @driver
    def run(it, args, kw):
        try: r = make(it, *args)
        except PyRaise: return "rejected"
        return r
    CONTRACTS.append(Contract(name, setup, run, lambda it, ctx, r: it.eng.prove(z3.BoolVal(isinstance(r, str) and r == "rejected"), "rejected", f"{r!r}")))


two = lambda **kw: lambda it: ([UFam(f"part{i}", kw.get(f"cell{i}", TRI), quad=kw.get(f"q{i}"), shape=kw.get(f"s{i}", ())).obj(0) for i in (0, 1)], {}, None)
for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    rejected(f"{cls.__name__} of parts on different cells", C_(cls), two(cell1=QUAD))
    def differ(it, s=two(q0=text("q0"), q1=text("q1"))):
        it.eng.assume(z3.Const("q0", U) != z3.Const("q1", U))
        return s(it)
    rejected(f"{cls.__name__} of parts with different quadrature schemes", C_(cls), differ)
for cls in (fu.EnrichedElement, fu.NodalEnrichedElement):
    rejected(f"{cls.__name__} of parts of different shapes", C_(cls), two(s1=(SInt(z3.Int("extent")),)))
rejected("product of vector-valued elements", C_(fu.TensorProductElement), lambda it: ([UFam(f"part{i}", INT, rank=1).obj(0) for i in (0, 1)], {}, None))
rejected("empty product", C_(fu.TensorProductElement), lambda it: ([], {}, None))
for dom in ("inside", "", "Interior", None): rejected(f"restriction to {dom!r}", lambda it, x, dom=dom: it.construct(fu.RestrictedElement, [x, dom], {}), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
rejected("remapping to symmetries", lambda it, x: it.construct(fu.WithMapping, [x, "symmetries"], {}), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
rejected("variant that is no string", lambda it, k: F(it, "CG", TRI, k, variant=3), lambda it: ([some(1, None)(it)], {}, None))
for sh, sym in (((2, 3), True), ((2,), True), ((2, 2), {(0, 2): (0, 0)}), ((2, 2), {(0, -1): (0, 0)}), ((2, 2), {(0, 0): (0, 1, 0)}), ((2, 2), {(1, 0): (2, 1)}), ((2, 2), [1])):
    rejected(f"symmetry {sym} of shape {sh}", lambda it, x, sh=sh, sym=sym: T(it, x, shape=sh, symmetry=sym), lambda it: ([UFam("part", TRI).obj(0)], {}, None))
