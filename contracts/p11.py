"""P11: point sets present the same points in every view."""
from .evals import *
import numpy
import gem
from finat import point_set
from finat.point_set import PointSet, PointSingleton, TensorPointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet, UnknownPointSet, UnknownPointsArray
from pyvc.ndarray import NArr, exact
from pyvc.models import all_entries
from pyvc.engine import zr

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


def tolerance_model(it, a, kw):
    """numpy.allclose(x, y, rtol, atol): every |x - y| <= atol + rtol |y| (real arithmetic)"""
    v = dict(zip(["a", "b", "rtol", "atol"], a)); v.update(kw)
    x, y = [it.eng.force(deref(v[n])) for n in ("a", "b")]
    rt, at = [zr(it.eng.force(deref(v[n]))) if n in v else z3.RealVal(d) for n, d in (("rtol", "1e-5"), ("atol", "1e-8"))]
    ab = lambda t: z3.If(t < 0, -t, t)
    it.eng.assumptions.add("numpy.allclose in exact arithmetic")
    return all_entries(it, [x, y], lambda p, q: ab(p - q) <= at + rt * ab(q))


MODELS = {numpy.allclose: tolerance_model}


def views_agree(it, ps, want, n, d, extents):
    """array, indices and expression of ps all describe want[flat position of the indices, coordinate]"""
    e = it.eng
    pts = e.force(deref(it.getattr(ps, "points")))
    shape = it.getattr(pts, "shape")
    e.equal(shape, (SInt(n), d), "shape of the array of points")
    if isinstance(pts, NArr):
        e.equal(pts, want, "array of points")
    e.equal(it.getattr(ps, "dimension"), d, "dimension")
    ix = list(as_seq_(as_seq(e.force(deref(it.getattr(ps, "indices"))))).items())
    e.equal(tuple(gm.extent_of(it, i) for i in ix), tuple(extents), "extents of the indices")
    again = list(as_seq_(as_seq(e.force(deref(it.getattr(ps, "indices"))))).items())
    e.equal(tuple(again), tuple(ix), "the indices are the same at every access")
    for a in range(len(ix)):
        for b in range(a):
            e.prove(z3.BoolVal(ix[a].id != ix[b].id), "distinct indices")
    x = e.force(it.getattr(ps, "expression"))
    x = gm.as_node(it, x)
    e.equal(it.mk(e.norm(x.shape), "tuple"), (d,), "shape of the expression")
    q = [gm.lookup(it, (), ("i", i)) for i in ix]
    flat_ = gm.ravel(it, [SInt(t) for t in q], extents) if ix else z3.IntVal(0)
    e.with_pc([z3.And(t >= 0, t < zi(m)) for t, m in zip(q, extents)],
              lambda: [e.prove(gm.den(it, x, [gm.Slot("i", z3.IntVal(c))]) == zr(want.at(it, [flat_, z3.IntVal(c)])),
                               f"coordinate {c} of the expression at the indices is that of the array") for c in range(d)] and True)


# ---- basic point sets
def ps_setup(cls, d):
    def setup(it):
        n = z3.Int("N")
        it.eng.assume(n >= 0)
        X = NArr.opaque("X", [], [n, d])
        return [X], {}, (X, n, d)
    return setup


def build(cls):
    @driver
    def t(it, args, kw):
        return it.construct(cls, args, kw)
    return t


def ps_ens(it, ctx, r):
    X, n, d = ctx
    views_agree(it, r, X, n, d, [SInt(n)])


for cls in (PointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet):
    for d in ((0, 1, 2, 3, 4) if cls is PointSet else (1,)):
        C(f"{cls.__name__}[{d} coordinates] views", ps_setup(cls, d), build(cls), ps_ens)
for cls in (GaussLegendrePointSet, GaussLobattoLegendrePointSet):
    for d in (0, 2, 3):
        C(f"{cls.__name__}[{d} coordinates] rejected", ps_setup(cls, d), build(cls), must_raise, raises=raises(AssertionError))


def single_setup(d):
    def setup(it):
        X = NArr.opaque("X", [], [d])
        return [X], {}, (X, d)
    return setup


def single_ens(it, ctx, r):
    X, d = ctx
    views_agree(it, r, NArr([1, d], lambda it2, ix: X.at(it2, ix[1:])), z3.IntVal(1), d, [])


for d in (1, 2, 3, 4):
    C(f"PointSingleton[{d} coordinates] views", single_setup(d), build(PointSingleton), single_ens)


def unk_setup(d):
    def setup(it):
        n = z3.Int("N")
        it.eng.assume(n >= 1)
        v = it.call(gem.Variable, ["rt_:X", (SInt(n), d)], {})
        return [v], {}, (v, n, d)
    return setup


def unk_ens(it, ctx, r):
    v, n, d = ctx
    arr = NArr([n, d], lambda it2, ix: SReal(gm.den(it2, v, [gm.Slot("i", ix[0]), gm.Slot("i", ix[1])])))
    views_agree(it, r, arr, n, d, [SInt(n)])
    e = it.eng
    e.equal(it.call(len, [it.getattr(r, "points")], {}), SInt(n), "number of unknown points")


for d in (1, 2, 3):
    C(f"UnknownPointSet[{d} coordinates] views", unk_setup(d), build(UnknownPointSet), unk_ens)


# ---- tensor point sets: factors are any point sets that honour the contract
def factor(it, i, k, d):
    ext = [z3.Int(f"f{i}_{j}_n") for j in range(k)]
    n = z3.IntVal(1)
    for x in ext:
        it.eng.assume(x >= 1)
        n = n * x
    n = z3.simplify(n)
    X = NArr.opaque(f"X{i}", [], [n, d])
    ix = []
    for j, x in enumerate(ext):
        g = gm.GIndex(f"f{i}_{j}", ())
        gm.store_extent(it, g, SInt(x))
        q = gm.lookup(it, (), ("i", g))
        it.eng.fact(z3.And(q >= 0, q < x))
        ix.append(g)
    def expr(it2, o):
        # the array entry at the flat position of the indices
        arr = NArr([*ext, d], lambda it3, q: X.at(it3, [gm.ravel(it3, [SInt(t) for t in q[:-1]], [SInt(x) for x in ext]) if ext else z3.IntVal(0), q[-1]]))
        c = gm.new_index(it2, d)
        return gm.component_tensor(it2, gm.indexed(it2, gm.G("arr", (arr,), arr.shape_seq(it2)), Seq([Elem(g) for g in ix] + [Elem(c)], "tuple")), Seq([Elem(c)], "tuple"))
    o = Obj(f"factor{i}", (), Schema(f"factor{i}", {"points": lambda it2, o: X, "indices": lambda it2, o: tuple(ix), "expression": expr, "dimension": lambda it2, o: d},
                                     cls=(point_set.AbstractPointSet,)))
    return o, X, ext, n


def tens_setup(kd):
    def setup(it):
        fs = [factor(it, i, k, d) for i, (k, d) in enumerate(kd)]
        return [[f[0] for f in fs]], {}, (fs, kd)
    return setup


def tens_ens(it, ctx, r):
    fs, kd = ctx
    e = it.eng
    n = z3.IntVal(1)
    for f in fs:
        n = n * f[3]
    n = z3.simplify(n)
    owner = [(i, c) for i, (_, d) in enumerate(kd) for c in range(d)]
    D = len(owner)
    pts = e.force(deref(it.getattr(r, "points")))
    pts = pts if isinstance(pts, NArr) else NArr.from_seq(it, as_seq(pts))
    e.equal(it.getattr(pts, "shape"), (SInt(n), D), "shape of the array of points")
    e.equal(it.getattr(r, "dimension"), D, "dimension")
    # lexicographic product, last factor fastest
    p = [z3.Int(f"p{i}") for i in range(len(fs))]
    pos = gm.ravel(it, [SInt(t) for t in p], [SInt(f[3]) for f in fs])
    e.with_pc([z3.And(t >= 0, t < f[3]) for t, f in zip(p, fs)], lambda: [
        e.prove(zr(pts.at(it, [pos, z3.IntVal(c)])) == zr(fs[i][1].at(it, [p[i], z3.IntVal(k)])), f"coordinate {c} is coordinate {k} of factor {i}, last factor fastest")
        for c, (i, k) in enumerate(owner)] and True)
    ix = list(as_seq_(as_seq(e.force(deref(it.getattr(r, "indices"))))).items())
    ext = [SInt(x) for f in fs for x in f[2]]
    e.equal(tuple(gm.extent_of(it, i) for i in ix), tuple(ext), "extents of the indices")
    e.equal(tuple(ix), tuple(g for f in fs for g in as_seq_(as_seq(it.getattr(f[0], "indices"))).items()), "the factors' indices in order")
    x = gm.as_node(it, e.force(it.getattr(r, "expression")))
    e.equal(it.mk(e.norm(x.shape), "tuple"), (D,), "shape of the expression")
    q = [gm.lookup(it, (), ("i", i)) for i in ix]
    own, o = [], 0
    for (k, _), f in zip(kd, fs):
        own.append(gm.ravel(it, [SInt(t) for t in q[o:o + k]], [SInt(t) for t in f[2]]) if k else z3.IntVal(0))
        o += k
    for c, (i, k) in enumerate(owner):
        e.prove(gm.den(it, x, [gm.Slot("i", z3.IntVal(c))]) == zr(fs[i][1].at(it, [own[i], z3.IntVal(k)])), f"coordinate {c} of the expression is coordinate {k} of factor {i} at its own indices")
    # the position in the array of the point at the indices
    e.prove((gm.ravel(it, [SInt(t) for t in q], ext) if q else z3.IntVal(0)) == gm.ravel(it, [SInt(t) for t in own], [SInt(f[3]) for f in fs]), "the flat position of the indices is that of the factors' points")


KD = [[(1, 1)], [(0, 2)], [(2, 2)], [(1, 1), (1, 1)], [(1, 2), (1, 1)], [(1, 1), (1, 2)], [(0, 1), (1, 1)], [(1, 1), (0, 1)], [(2, 2), (1, 1)], [(1, 1), (2, 2)], [(0, 1), (0, 2)],
      [(1, 1), (1, 1), (1, 1)], [(1, 1), (0, 1), (1, 1)], [(2, 2), (1, 1), (1, 1)], [(1, 2), (1, 1), (1, 2)]]
for kd in KD:
    C(f"TensorPointSet[factors with (indices, coordinates) {kd}] views", tens_setup(kd), build(TensorPointSet), tens_ens, bounded="number of factors, of their indices and coordinates")


# ---- approximate equality
def eq_setup(a, b, da, db):
    def setup(it):
        out = []
        for nm, cls, d in (("A", a, da), ("B", b, db)):
            n = z3.Int("N" + nm)
            it.eng.assume(n >= 0)
            X = NArr.opaque("X" + nm, [], [n, d])
            out.append((it.construct(cls, [X], {}), X, n, d))
        t = z3.Real("tol")
        return [out[0][0], out[1][0]], {"tolerance": SReal(t)}, (a, b, out, t)
    return setup


def within(it, X, Y, n, d, t):
    i = z3.Int("bi")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And([z3.BoolVal(True)] + [z3.And(zr(X.at(it, [i, z3.IntVal(c)])) - zr(Y.at(it, [i, z3.IntVal(c)])) <= t,
                                                                            zr(Y.at(it, [i, z3.IntVal(c)])) - zr(X.at(it, [i, z3.IntVal(c)])) <= t) for c in range(d)])))


def truth_of(it, r):
    r = it.eng.force(r)
    return r.e if isinstance(r, SBool) else z3.BoolVal(bool(r))


def eq_ens(it, ctx, r):
    a, b, ((_, X, n, d), (_, Y, m, d2)), t = ctx
    same = z3.And(z3.BoolVal(a is b), z3.BoolVal(d == d2), n == m)
    want = z3.And(same, within(it, X, Y, n, d, t)) if d == d2 else z3.BoolVal(False)
    it.eng.prove(truth_of(it, r) == want, "equal iff same class, same shape and every coordinate within the tolerance")


for a, b, da, db in [(PointSet, PointSet, 1, 1), (PointSet, PointSet, 2, 2), (PointSet, PointSet, 3, 3), (PointSet, PointSet, 1, 2), (PointSet, GaussLegendrePointSet, 1, 1),
                     (GaussLegendrePointSet, PointSet, 1, 1), (GaussLegendrePointSet, GaussLegendrePointSet, 1, 1), (GaussLobattoLegendrePointSet, GaussLegendrePointSet, 1, 1),
                     (GaussLobattoLegendrePointSet, GaussLobattoLegendrePointSet, 1, 1), (PointSet, PointSet, 0, 0)]:
    C(f"{a.__name__}.almost_equal({b.__name__})[{da} and {db} coordinates]", eq_setup(a, b, da, db), meth("almost_equal"), eq_ens, models=MODELS)

C("PointSet.almost_equal[default tolerance 1e-12]", lambda it: (lambda r: (r[0], {}, r[2][:3] + (exact(1e-12),)))(eq_setup(PointSet, PointSet, 2, 2)(it)), meth("almost_equal"), eq_ens, models=MODELS)

AE = z3.Function("almost_equal", I, I, z3.RealSort(), z3.BoolSort())


def teq_setup(it):
    """two tensor point sets of any numbers of factors; equality of factors is any relation"""
    n, m, t = z3.Int("n"), z3.Int("m"), z3.Real("tol")
    it.eng.assume(z3.And(n >= 1, m >= 1))
    b = Schema("fb", {}, cls=(point_set.AbstractPointSet,))
    def ae(it2, o):
        def call(it3, a, kw):
            tol = zr(it3.eng.force(kw["tolerance"])) if "tolerance" in kw else (zr(it3.eng.force(a[1])) if len(a) > 1 else z3.RealVal("0.000000000001"))
            other = deref(a[0])
            if not (isinstance(other, Obj) and other.name == "fb"):
                raise Unsupported("factor compared with another object")
            return SBool(AE(o.params[0], other.params[0], tol))
        return Model(call, "almost_equal")
    a = Schema("fa", {"almost_equal": ae}, cls=(point_set.AbstractPointSet,))
    objs = [new(it, TensorPointSet, factors=family(lambda i, s=s: Obj(s.name, (i,), s), k)) for s, k in ((a, n), (b, m))]
    return objs, {"tolerance": SReal(t)}, (n, m, t)


def teq_ens(it, ctx, r):
    n, m, t = ctx
    i = z3.Int("bi")
    it.eng.prove(truth_of(it, r) == z3.And(n == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), AE(i, i, t)))), "equal iff equally many factors, each equal to its partner with the tolerance given")


C("TensorPointSet.almost_equal[any factors]", teq_setup, meth("almost_equal"), teq_ens)
for other in (PointSet, UnknownPointSet):
    def setup(it, other=other):
        o, k, c = teq_setup(it)
        return [o[0], new(it, other)], {}, None
    C(f"TensorPointSet.almost_equal({other.__name__})", setup, meth("almost_equal"), lambda it, ctx, r: it.eng.prove(z3.Not(truth_of(it, r)), "different structure"))
    C(f"{other.__name__}.almost_equal(TensorPointSet)", lambda it, setup=setup: (lambda r: (r[0][::-1], r[1], r[2]))(setup(it)), meth("almost_equal"),
      lambda it, ctx, r: it.eng.prove(z3.Not(truth_of(it, r)), "different structure"))


def ueq_setup(same):
    def setup(it):
        n = z3.Int("N")
        it.eng.assume(n >= 1)
        v = it.call(gem.Variable, ["rt_:X", (SInt(n), 2)], {})
        w = v if same else it.call(gem.Variable, ["rt_:Y", (SInt(n), 2)], {})
        return [it.construct(UnknownPointSet, [v], {}), it.construct(UnknownPointSet, [w], {})], {}, same
    return setup


for same in (True, False):
    C(f"UnknownPointSet.almost_equal[{'same' if same else 'different'} variables]", ueq_setup(same), meth("almost_equal"), lambda it, same, r: it.eng.prove(truth_of(it, r) == same, "equal iff the same variable"))
