"""Metadata of composite form-language elements."""
import itertools
from .ufam import *
from .p15 import TRI, QUAD, INT, TET, HEX, C_, some, ucell, tdim
from ufl.sobolevspace import L2, DirectionalSobolevSpace
META = {"assumptions": ["ufl SobolevSpace membership (parents) is interpreted from ufl's source; parts are given by an arbitrary family of element interfaces"]}
CONTRACTS = []


def any_number(it, fam, at_least=1):
    n = z3.Int("n"); it.eng.assume(n >= at_least)
    return Seq([Flat(i := fresh_int("i"), Dom(n=n), Seq([Elem(fam.obj(i))]))], "tuple"), n


def star(cls, it, parts): return it.construct(cls, [Star(parts)] if isinstance(parts, Seq) else list(parts), {})


def extremum(it, v, f, n, up, what):
    """v is the largest (smallest) of f(0), ..., f(n-1)"""
    i, j = fresh_int("x"), fresh_int("y")
    cmp = (lambda a, b: a >= b) if up else (lambda a, b: a <= b)
    v = zi(v)
    it.eng.prove(z3.Implies(z3.And(i >= 0, i < n), cmp(v, f(i))), f"{what}: bounds every part's")
    it.eng.prove(z3.Exists([j], z3.And(j >= 0, j < n, v == f(j))), f"{what}: is one of the parts'")


for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    fam = UFam("part", TRI, shape=(SInt(z3.Int("extent")),), mapping="identity")
    def setup(it, fam=fam):
        it.eng.fact(z3.Int("extent") >= 1)
        ps, n = any_number(it, fam)
        return [ps], {}, n
    @driver
    def run(it, args, kw, cls=cls):
        e = star(cls, it, args[0])
        return {k: it.getattr(e, k) for k in ("embedded_subdegree", "embedded_superdegree")} | {k: it.call(it.getattr(e, k), [], {}) for k in ("degree",)}
    def ens(it, n, r):
        fn = {k: z3.Function(f"part_{k}", z3.IntSort(), z3.IntSort()) for k in ("deg", "sub", "sup")}
        extremum(it, r["degree"], fn["deg"], n, True, "degree")
        extremum(it, r["embedded_subdegree"], fn["sub"], n, False, "embedded sub-degree")
        extremum(it, r["embedded_superdegree"], fn["sup"], n, True, "embedded super-degree")
        it.eng.prove(zi(r["embedded_subdegree"]) <= zi(r["embedded_superdegree"]), "embedded sub-degree at most the super-degree")
    CONTRACTS.append(Contract(f"{cls.__name__} of any number of parts: degrees", setup, run, ens))


SHAPES = [(), ("a",), ("b", "c"), ("d", "e", "f")]
for shs in [s for n in (1, 2, 3) for s in itertools.product(SHAPES, repeat=n)]:
    def setup(it, shs=shs):
        dims = [tuple(SInt(z3.Int(f"{x}{i}")) for x in sh) for i, sh in enumerate(shs)]
        for sh in dims:
            for d in sh: it.eng.fact(d.e >= 1)
        return [UFam(f"part{i}", TRI, shape=sh, mapping="identity").obj(0) for i, sh in enumerate(dims)], {}, dims
    @driver
    def run(it, args, kw):
        e = it.construct(fu.MixedElement, args, {})
        return [it.getattr(e, "reference_value_shape"), it.getattr(e, "reference_value_size")]
    def ens(it, dims, r):
        n = z3.Sum([z3.Product([z3.IntVal(1), *[d.e for d in sh]]) for sh in dims])
        it.eng.equal(r[0], (SInt(n),), "value shape is the components of all the parts")
        it.eng.equal(r[1], SInt(n), "value size")
    CONTRACTS.append(Contract(f"MixedElement of parts of value ranks {tuple(map(len, shs))}: value shape", setup, run, ens))


fam_t = UFam("factor", INT, mapping="identity")
def setup_tp(it):
    ps, n = any_number(it, fam_t)
    return [ps], {}, n
@driver
def run_tp(it, args, kw):
    e = it.construct(fu.TensorProductElement, [Star(args[0])], {"cell": QUAD})
    return {k: it.getattr(e, k) for k in ("embedded_subdegree", "embedded_superdegree", "num_sub_elements", "sub_elements", "reference_value_shape", "cell")} | {k: it.call(it.getattr(e, k), [], {}) for k in ("degree", "mapping", "variant", "quadrature_scheme")}
def ens_tp(it, n, r):
    eng = it.eng
    i = fresh_int("i")
    D, lo, hi = (z3.Function(f"factor_{k}", z3.IntSort(), z3.IntSort()) for k in ("deg", "sub", "sup"))
    eng.equal(r["degree"], Seq([Flat(i, Dom(n=n), Seq([Elem(SInt(D(i)))]))], "tuple"), "degree is that of each factor")
    extremum(it, r["embedded_subdegree"], lo, n, False, "embedded sub-degree")
    eng.equal(r["embedded_superdegree"], SInt(eng.sum_over(i, Dom(n=n), hi(i), "SUM")), "embedded super-degree is the sum of the factors'")
    eng.equal(r["num_sub_elements"], SInt(n), "number of factors")
    eng.equal(r["sub_elements"], Seq([Flat(i, Dom(n=n), Seq([Elem(fam_t.obj(i))]))], "tuple"), "factors")
    eng.equal(r["mapping"], "identity", "mapping")
    eng.equal(r["cell"], QUAD, "cell")
    eng.equal(r["reference_value_shape"], (), "value shape")
CONTRACTS.append(Contract("TensorProductElement of any number of factors", setup_tp, run_tp, ens_tp))


# ---------------------------------------------------------------- wrappers: what is passed on and what is their own
def wrapper(name, make, fam, want):
    """want(it, part) -> expected attributes; everything else is the part's"""
    def setup(it): return [fam.obj(0)], {}, fam.obj(0)
    @driver
    def run(it, args, kw):
        e = make(it, args[0])
        return read(it, e)
    def ens(it, p, r):
        w = {**read(it, p), **want(it, p)}
        for k in r:
            if k in w: it.eng.equal(_v(it, r[k]), _v(it, w[k]), f"{k}")
        it.eng.prove(zi(r["embedded_subdegree"]) <= zi(r["embedded_superdegree"]), "embedded sub-degree at most the super-degree")
    CONTRACTS.append(Contract(name, setup, run, ens))


METHODS = ("degree", "variant", "mapping", "quadrature_scheme")
PROPS = ("embedded_subdegree", "embedded_superdegree", "sobolev_space", "reference_value_shape", "reference_value_size", "cell", "num_sub_elements", "sub_elements")


def read(it, e):
    out = {k: it.call(it.getattr(e, k), [], {}) for k in METHODS if isinstance(e, PObj) or k in e.schema.attrs}
    for k in PROPS: out[k] = it.getattr(e, k)
    return out


def _v(it, v):
    v = it.eng.force(deref(v))
    if isinstance(v, PList): return tuple_of(it, v)
    return v


SP = [ufl.sobolevspace.L2, ufl.sobolevspace.H1, ufl.sobolevspace.HDiv, DirectionalSobolevSpace([0, 1])]
for sp in SP:
    for deg in ("int", 2, None):
        base = dict(variant=text("variant"), quad=text("scheme"), mapping=text("mapping"), rank=1, space=sp)
        kw = lambda cell, sp=sp, deg=deg: UFam("part", cell, deg=deg, **{k: v for k, v in base.items() if k != "space"}, space=sp)
        tag = f" of a part with degree {deg} in {sp!s}"
        wrapper("BrokenElement" + tag, lambda it, p: it.construct(fu.BrokenElement, [p], {}), kw(TRI), lambda it, p: {"sobolev_space": L2, "variant": None, "num_sub_elements": 0})
        for dom in ("interior", "facet", "face", "edge", "vertex", "reduced"):
            wrapper(f"RestrictedElement to {dom}" + tag, lambda it, p, dom=dom: it.construct(fu.RestrictedElement, [p, dom], {}), kw(TRI), lambda it, p, dom=dom: {"sobolev_space": L2} if dom == "interior" else {})
        for c in (QUAD, HEX, ucell(("triangle", "interval"))):
            n = c.topological_dimension()
            for cls, mp, s in ((fu.HDivElement, "contravariant Piola", ufl.sobolevspace.HDiv), (fu.HCurlElement, "covariant Piola", ufl.sobolevspace.HCurl)):
                wrapper(f"{cls.__name__} on {c}" + tag, lambda it, p, cls=cls: it.construct(cls, [p], {}), kw(c), lambda it, p, mp=mp, s=s, n=n: {"sobolev_space": s, "mapping": mp, "reference_value_shape": (n,), "reference_value_size": n})
        for mp, r in (("identity", None), ("L2 Piola", None), ("custom", None), ("covariant Piola", 1), ("contravariant Piola", 1), ("double covariant Piola", 2), ("double contravariant Piola", 2)):
            def want(it, p, mp=mp, r=r, sp=sp):
                own = it.eng.entails(z3.Const("mapping", U) == it.eng.to_u(mp))
                out = {"mapping": mp, "sobolev_space": sp if own else L2}
                if r: out |= {"reference_value_shape": (2,) * r, "reference_value_size": 2 ** r}
                return out
            wrapper(f"WithMapping {mp}" + tag, lambda it, p, mp=mp: it.construct(fu.WithMapping, [p, mp], {}), kw(TRI), want)


# ---------------------------------------------------------------- parts of different kinds, in any order
def degspec(it, ds):
    """entry by entry maximum; undefined degrees do not count"""
    ds = [d for d in ds if d is not None]
    if not ds: return None
    ls = [len(d) for d in ds if isinstance(d, tuple)]
    if not ls:
        m = zi(ds[0])
        for d in ds[1:]: m = z3.If(zi(d) > m, zi(d), m)
        return SInt(m)
    return tuple(degspec(it, [d[j] if isinstance(d, tuple) else d for d in ds]) for j in range(ls[0]))


def best(vs, up):
    m = zi(vs[0])
    for v in vs[1:]: m = z3.If(zi(v) > m, zi(v), m) if up else z3.If(zi(v) < m, zi(v), m)
    return SInt(m)


KINDS = ["int", None, 2]
for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    for n in (1, 2, 3):
        for ks in itertools.product(KINDS, repeat=n):
            def setup(it, ks=ks):
                ps = [UFam(f"part{i}", QUAD, deg=k, variant=text(f"variant{i}"), quad=text("scheme"), mapping=text(f"mapping{i}"), rank=1, shape=(SInt(z3.Int("extent")),)).obj(0) for i, k in enumerate(ks)]
                it.eng.fact(z3.Int("extent") >= 1)
                return ps, {}, ps
            @driver
            def run(it, args, kw, cls=cls):
                out = []
                for p in itertools.permutations(args):
                    e = it.construct(cls, list(p), {})
                    r = {k: it.call(it.getattr(e, k), [], {}) for k in ("degree", "variant", "quadrature_scheme", "mapping")}
                    r |= {k: it.getattr(e, k) for k in ("embedded_subdegree", "embedded_superdegree", "reference_value_shape", "cell")}
                    if cls is fu.MixedElement: r |= {k: it.getattr(e, k) for k in ("sub_elements", "num_sub_elements")}
                    out.append((p, r))
                return out
            def ens(it, ps, r, cls=cls, n=n):
                g = lambda p, k: it.call(it.getattr(p, k), [], {})
                for perm, m in r:
                    it.eng.equal(m["degree"], degspec(it, [g(p, "degree") for p in ps]), "degree is the entry-wise maximum")
                    it.eng.equal(m["embedded_subdegree"], best([it.getattr(p, "embedded_subdegree") for p in ps], False), "embedded sub-degree is the smallest")
                    it.eng.equal(m["embedded_superdegree"], best([it.getattr(p, "embedded_superdegree") for p in ps], True), "embedded super-degree is the largest")
                    it.eng.equal(m["cell"], QUAD, "cell")
                    vs = [g(p, "variant") for p in ps]
                    one = z3.And([v.parts[0].args[0].e == vs[0].parts[0].args[0].e for v in vs])
                    if it.eng.entails(one): it.eng.prove(zbool(it.eq(m["variant"], vs[0])), "the variant shared by all parts")
                    else: it.eng.prove(z3.Or(one, z3.BoolVal(m["variant"] is None)), "no variant where the parts' differ", f"{m['variant']!r}")
                    it.eng.equal(m["quadrature_scheme"], text("scheme"), "quadrature scheme")
                    if cls is fu.MixedElement:
                        it.eng.equal(m["reference_value_shape"], (SInt(n * z3.Int("extent")),), "value shape is the sum of the parts'")
                        it.eng.equal(tuple_of(it, m["sub_elements"]), tuple(perm), "parts")
                        it.eng.equal(m["num_sub_elements"], n, "number of parts")
                        ids = z3.And([g(p, "mapping").parts[0].args[0].e == it.eng.to_u("identity") for p in ps])
                        it.eng.equal(m["mapping"], "identity" if it.eng.entails(ids) else "undefined", "mapping is the identity if every part's is")
                    else:
                        it.eng.equal(m["reference_value_shape"], (SInt(z3.Int("extent")),), "value shape")
                        it.eng.equal(m["mapping"], g(perm[0], "mapping"), "mapping")
            CONTRACTS.append(Contract(f"{cls.__name__} of parts with degrees {ks}", setup, run, ens))


def zbool(v): return z3.BoolVal(v) if isinstance(v, bool) else v.e


# quadrature schemes where only some parts define one
for cls in (fu.EnrichedElement, fu.NodalEnrichedElement):
    for qs in itertools.product((None, text("scheme")), repeat=3):
        def setup(it, qs=qs): return [UFam(f"part{i}", TRI, quad=q, variant=None).obj(0) for i, q in enumerate(qs)], {}, None
        @driver
        def run(it, args, kw, cls=cls):
            e = it.construct(cls, list(args), {})
            return it.call(it.getattr(e, "quadrature_scheme"), [], {}), it.call(it.getattr(e, "variant"), [], {}), it.getattr(e, "reference_value_shape")
        CONTRACTS.append(Contract(f"{cls.__name__} of parts with schemes {['named' if q else None for q in qs]}", setup, run, lambda it, ctx, r, qs=qs: it.eng.equal(r, (next((q for q in qs if q), None), None, ()), "scheme of the parts that define one, common variant, shape")))


# ---------------------------------------------------------------- products
for n in (1, 2, 3):
    for ms in itertools.product(("identity", "L2 Piola", "covariant Piola"), repeat=n):
        for vec in range(n) if ms[0] == "covariant Piola" else [None]:
            def setup(it, ms=ms, vec=vec):
                ps = [UFam(f"factor{i}", INT if i else TRI, mapping=m, variant=text(f"variant{i}"), rank=1 if i == vec else 0).obj(0) for i, m in enumerate(ms)]
                return ps, {}, ps
            @driver
            def run(it, args, kw):
                e = it.construct(fu.TensorProductElement, list(args), {})
                return {k: it.call(it.getattr(e, k), [], {}) for k in ("degree", "variant", "quadrature_scheme", "mapping")} | {k: it.getattr(e, k) for k in ("embedded_subdegree", "embedded_superdegree", "reference_value_shape", "cell", "sub_elements", "num_sub_elements")}
            def ens(it, ps, r, ms=ms, vec=vec, n=n):
                g = lambda p, k: it.call(it.getattr(p, k), [], {})
                it.eng.equal(r["degree"], tuple(g(p, "degree") for p in ps), "degree factor by factor")
                it.eng.equal(r["embedded_subdegree"], best([it.getattr(p, "embedded_subdegree") for p in ps], False), "embedded sub-degree")
                it.eng.equal(r["embedded_superdegree"], SInt(sum(zi(it.getattr(p, "embedded_superdegree")) for p in ps)), "embedded super-degree")
                it.eng.equal(r["mapping"], ms[0] if len(set(ms)) == 1 and ms[0] != "covariant Piola" else "undefined", "mapping")
                it.eng.equal(r["reference_value_shape"], it.getattr(ps[vec], "reference_value_shape") if vec is not None else (), "value shape")
                it.eng.equal(r["cell"], ufl.TensorProductCell(TRI, *[INT] * (n - 1)), "cell is the product of the factors'")
                it.eng.equal(tuple_of(it, r["sub_elements"]), tuple(ps), "factors")
                it.eng.equal(r["num_sub_elements"], n, "number of factors")
                it.eng.equal(r["quadrature_scheme"], None, "scheme")
                vs = [g(p, "variant") for p in ps]
                one = z3.And([v.parts[0].args[0].e == vs[0].parts[0].args[0].e for v in vs])
                if it.eng.entails(one): it.eng.prove(zbool(it.eq(r["variant"], vs[0])), "the variant shared by all factors")
                else: it.eng.prove(z3.Or(one, z3.BoolVal(r["variant"] is None)), "no variant where the factors' differ")
            CONTRACTS.append(Contract(f"TensorProductElement of factors mapped by {ms}{'' if vec is None else f', factor {vec} vector-valued'}", setup, run, ens))


# ---------------------------------------------------------------- vector and tensor elements
for deg in KINDS:
    fam = lambda deg=deg: UFam("part", TRI, deg=deg, variant=text("variant"), quad=text("scheme"), mapping=text("mapping"), rank=None)
    def setup(it, fam=fam):
        k = z3.Int("dim"); it.eng.assume(k >= 1)
        return [fam().obj(0), SInt(k)], {}, (fam().obj(0), SInt(k))
    @driver
    def run(it, args, kw): return read(it, it.construct(fu.VectorElement, [args[0]], {"dim": args[1]}))
    def ens(it, ctx, r):
        p, d = ctx
        w = read(it, p)
        for k in ("degree", "variant", "mapping", "quadrature_scheme", "embedded_subdegree", "embedded_superdegree", "cell"): it.eng.equal(_v(it, r[k]), w[k], k)
        it.eng.equal(r["reference_value_shape"], it.binop("+", (d,), w["reference_value_shape"]), "value shape")
        it.eng.equal(r["num_sub_elements"], d, "number of parts")
        i = fresh_int("i")
        it.eng.equal(_v(it, r["sub_elements"]), Seq([Flat(i, Dom(n=d.e), Seq([Elem(p)]))], "tuple"), "parts")
    fam.space = None
    CONTRACTS.append(Contract(f"VectorElement of any dimension of a part with degree {deg}", setup, run, ens))
    for sh, sym in (((2,), {}), ((3, 2), {}), ((2, 2), {(0, 1): (1, 0)}), ((3, 3), {(j, i): (i, j) for i in range(3) for j in range(i)}), ((2, 3, 2), {(0, 0, 1): (1, 1, 1), (0, 2, 1): (0, 0, 0)})):
        def setup(it, fam=fam): return [fam().obj(0)], {}, fam().obj(0)
        @driver
        def run(it, args, kw, sh=sh, sym=sym): return read(it, it.construct(fu.TensorElement, [args[0]], {"shape": sh, "symmetry": dict(sym)}))
        def ens(it, p, r, sh=sh, sym=sym):
            import math
            w = read(it, p)
            n = math.prod(sh) - len(sym)
            for k in ("degree", "variant", "quadrature_scheme", "embedded_subdegree", "embedded_superdegree", "cell"): it.eng.equal(_v(it, r[k]), w[k], k)
            it.eng.equal(r["mapping"], "symmetries" if sym else w["mapping"], "mapping")
            it.eng.equal(r["reference_value_shape"], it.binop("+", (n,) if sym else sh, w["reference_value_shape"]), "value shape")
            it.eng.equal(r["num_sub_elements"], n, "number of parts")
            it.eng.equal(_v(it, r["sub_elements"]), (p,) * n, "parts")
        CONTRACTS.append(Contract(f"TensorElement of shape {sh}{' with symmetry' if sym else ''} of a part with degree {deg}", setup, run, ens))


for deg in (2, None):
    for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
        fam = UFam("part", QUAD, deg=deg, shape=(), mapping="identity")
        def setup(it, fam=fam):
            ps, n = any_number(it, fam)
            return [ps], {}, n
        @driver
        def run(it, args, kw, cls=cls): return it.call(it.getattr(star(cls, it, args[0]), "degree"), [], {})
        def ens(it, n, r, deg=deg):
            if deg is None: return it.eng.equal(r, None, "degree")
            r = tuple_of(it, r)
            it.eng.equal(len(r), deg, "number of entries")
            for j in range(deg): extremum(it, r[j], lambda i, j=j: z3.Function("part_deg", *[z3.IntSort()] * 3)(i, z3.IntVal(j)), n, True, f"degree, entry {j}")
        CONTRACTS.append(Contract(f"{cls.__name__} of any number of parts: degrees with {deg} entries", setup, run, ens))


# ---------------------------------------------------------------- Sobolev spaces
import ufl.sobolevspace as us
from math import inf
from finat.ufl import enrichedelement
NAMED = [us.L2, us.HDiv, us.HCurl, us.H1, us.H2, us.HInf, us.HEin, us.HDivDiv, us.HCurlDiv]
ABOVE = {s.name: up for s, up in zip(NAMED, [set(), {"L2"}, {"L2"}, {"HDiv", "HCurl", "L2"}, {"H1", "HDiv", "HCurl", "L2"}, {"H2", "H1", "HDiv", "HCurl", "L2"}, {"L2"}, {"L2"}, {"L2"}])}
ORDER = {"H1": 1, "H2": 2, "HInf": inf}
order = lambda s: ORDER.get(s.name, 0)
orders = lambda s, n: s._orders if isinstance(s, DirectionalSobolevSpace) else (order(s),) * n
directional = lambda n: [DirectionalSobolevSpace(o) for o in itertools.product((0, 1, 2, inf), repeat=n)]


def norm(s):
    """a space of equal orders in all directions is the isotropic one"""
    if isinstance(s, DirectionalSobolevSpace):
        o = set(s._orders)
        if len(o) == 1: return {0: "L2", 1: "H1", 2: "H2", inf: "HInf"}[o.pop()]
        return tuple(s._orders)
    return s.name


def smallest(ss, n):
    """the smallest space that contains all of ss"""
    if len(set(map(norm, ss))) == 1: return norm(ss[0])
    if any(isinstance(s, DirectionalSobolevSpace) for s in ss): return norm(DirectionalSobolevSpace([min(o) for o in zip(*[orders(s, n) for s in ss])]))
    c = set.intersection(*[{s.name} | ABOVE[s.name] for s in ss])
    b, = [s for s in c if c <= {s} | ABOVE[s]]
    return b


def spaces_contract(name, lists, n, cls=None):
    """lists of the parts' spaces; finite, enumerated"""
    def setup(it): return [], {}, None
    @driver
    def run(it, args, kw):
        out = []
        for ss in lists:
            try:
                if cls is None: r = it.call(enrichedelement.common_sobolev_space, [it.eng.new_list(Seq([Elem(s) for s in ss], "list"))], {})
                else: r = it.getattr(it.construct(cls, [UFam("part", {1: INT, 2: QUAD, 3: HEX}[n], space=s, mapping="identity").obj(i) for i, s in enumerate(ss)], {}), "sobolev_space")
            except PyRaise as e: r = e
            out.append((ss, r))
        return out
    def ens(it, ctx, r):
        for ss, x in r:
            x = deref(x)
            it.eng.prove(z3.BoolVal(isinstance(x, us.SobolevSpace) and norm(x) == smallest(ss, n)), f"smallest space containing {list(map(str, ss))}", f"{x!r}")
    CONTRACTS.append(Contract(name, setup, run, ens))


by_name = lambda k: [list(c) for r in range(1, 10) for c in itertools.combinations(NAMED, r) if c[0] is NAMED[k]]
for cls in (fu.MixedElement, fu.EnrichedElement, fu.NodalEnrichedElement):
    for k in range(9):
        spaces_contract(f"{cls.__name__}: sets of isotropic spaces from {NAMED[k].name}", by_name(k), 2, cls)
        spaces_contract(f"{cls.__name__}: sets of isotropic spaces from {NAMED[k].name}, reversed", [l[::-1] for l in by_name(k)], 2, cls)
    spaces_contract(f"{cls.__name__}: pairs of spaces, one direction", [list(p) for p in itertools.product(NAMED + directional(1), repeat=2)], 1, cls)
    for a in NAMED + directional(2):
        spaces_contract(f"{cls.__name__}: pairs of spaces, two directions, with {a!s}", [[a, b] for b in NAMED + directional(2)], 2, cls)
for a in directional(3)[::7] + NAMED: spaces_contract(f"pairs of spaces, three directions, with {a!s}", [[a, b] for b in NAMED + directional(3)], 3, fu.EnrichedElement)
for a in NAMED + directional(2): spaces_contract(f"triples of spaces, two directions, with {a!s}", [[a, b, c] for b in NAMED + directional(2)[1:8] for c in NAMED[:4] + directional(2)[::3]], 2, fu.MixedElement)


def factors_contract(name, lists):
    def setup(it): return [], {}, None
    @driver
    def run(it, args, kw):
        out = []
        for l in lists:
            try: r = it.getattr(it.construct(fu.TensorProductElement, [UFam("factor", c, space=s, mapping="identity").obj(i) for i, (c, s) in enumerate(l)], {}), "sobolev_space")
            except PyRaise as e: r = e
            out.append((l, r))
        return out
    def ens(it, ctx, r):
        for l, x in r:
            x = deref(x)
            ss = [s for _, s in l]
            if len({s.name for s in ss}) == 1 and not isinstance(ss[0], DirectionalSobolevSpace): w = ss[0].name
            else: w = norm(DirectionalSobolevSpace([o for c, s in l for o in orders(s, c.topological_dimension())]))
            it.eng.prove(z3.BoolVal(isinstance(x, us.SobolevSpace) and norm(x) == w), f"orders direction by direction of {[(str(c), str(s)) for c, s in l]}", f"{x!r}")
    CONTRACTS.append(Contract(name, setup, run, ens))


ON = [(INT, s) for s in NAMED + directional(1)] + [(QUAD, s) for s in NAMED + directional(2)] + [(TRI, s) for s in NAMED]
for a in ON:
    factors_contract(f"TensorProductElement of factors in {a[1]!s} on {a[0]} and any other space", [[a, b] for b in ON])
    factors_contract(f"TensorProductElement of three factors, the first in {a[1]!s} on {a[0]}", [[a, b, c] for b in ON[::4] for c in ON[::5]])


# ---------------------------------------------------------------- constancy and linearity: claimed only when every part has it
def holds(name, o=None):
    return z3.Function(f"part_{name}", z3.IntSort(), z3.BoolSort())


def claims_contract(name, make, n, which, complete):
    """the predicates of a composite over n parts (None: any number)"""
    fam = UFam("part", TRI, shape=(SInt(z3.Int("extent")),), mapping="identity")
    def setup(it):
        it.eng.fact(z3.Int("extent") >= 1)
        i = z3.Int("ci")
        for w, d in (("const", 0), ("lin", 1)):
            it.eng.fact(z3.ForAll([i], holds(w)(i) == (z3.Function("part_deg", z3.IntSort(), z3.IntSort())(i) == d), patterns=[holds(w)(i)]) if w == "const" else z3.BoolVal(True))
        if n is None:
            ps, k = any_number(it, fam)
            return [ps], {}, k
        return [tuple(fam.obj(j) for j in range(n))], {}, z3.IntVal(n)
    @driver
    def run(it, args, kw):
        e = make(it, args[0])
        return {w: it.call(it.getattr(e, w), [], {}) for w in which}
    def ens(it, k, r):
        for w, short in (("is_cellwise_constant", "const"), ("_is_linear", "lin")):
            if w not in which:
                continue
            v, i = zbool(it.eng.force(r[w])), fresh_int("x")
            it.eng.prove(z3.Implies(z3.And(v, i >= 0, i < k), holds(short)(i)), f"{w} is claimed only if every part has it")
            if complete:
                j = z3.Int("cj")
                it.eng.prove(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), holds(short)(j)), patterns=[holds(short)(j)]), v), f"{w} is claimed if every part has it")
    CONTRACTS.append(Contract(f"{name}: predicates", setup, run, ens))


BOTH = ("is_cellwise_constant", "_is_linear")
for n in (None, 1, 2, 3):
    tag = "any number of" if n is None else str(n)
    for cls, which, complete in ((fu.MixedElement, BOTH, True), (fu.EnrichedElement, ("is_cellwise_constant",), True), (fu.NodalEnrichedElement, ("is_cellwise_constant",), False)):
        claims_contract(f"{cls.__name__} of {tag} parts", lambda it, ps, cls=cls: star(cls, it, ps), n, which, complete)
claims_contract("RestrictedElement", lambda it, ps: it.construct(fu.RestrictedElement, [it.iter_seq(ps).items()[0], "facet"], {}), 1, BOTH, True)
for cls, which in ((fu.BrokenElement, BOTH), (fu.HDivElement, BOTH), (fu.HCurlElement, BOTH)):
    claims_contract(cls.__name__, lambda it, ps, cls=cls: it.construct(cls, [it.iter_seq(ps).items()[0]], {}), 1, which, False)
claims_contract("WithMapping", lambda it, ps: it.construct(fu.WithMapping, [it.iter_seq(ps).items()[0], "identity"], {}), 1, ("is_cellwise_constant",), False)
claims_contract("VectorElement of 3 components", lambda it, ps: it.construct(fu.VectorElement, [it.iter_seq(ps).items()[0]], {"dim": 3}), 1, BOTH, True)
claims_contract("TensorElement of shape (2, 2)", lambda it, ps: it.construct(fu.TensorElement, [it.iter_seq(ps).items()[0]], {"shape": (2, 2)}), 1, BOTH, True)
