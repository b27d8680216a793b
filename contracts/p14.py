"""Direct serendipity functions: numbering for every degree, nodality on all cells, evaluation.

Numbering, the evaluation of the basis at physical points and the cache of derivatives are interpreted for any degree.  The construction
of the basis is executed, per degree, on circuits over symbols for the coordinates of the vertices; what it returns is decided by
identity testing (all cells at once), and each of its divisors is shown not to vanish on any convex quadrilateral."""
import sympy
import symengine
import FIAT
import gem
import numpy as np
import z3
from itertools import combinations
from pyvc.values import *
from .evals import *
from .symgem import RunContract
from . import circuit as ci
from finat import direct_serendipity as ds
from finat.direct_serendipity import DirectSerendipity, ds_sym

CONTRACTS = []
quad = FIAT.reference_element.UFCQuadrilateral()


# ------------------------------------------------------------------ numbering, any degree
def dims(r): return z3.If(r == 1, z3.IntVal(4), (r + 1) * (r + 2) / 2 + 2)


def ds_obj(it, **kw):
    r = z3.Int("degree")
    it.eng.assume(r >= 1)
    return new(it, DirectSerendipity, _degree=SInt(r), _cell=quad, **kw), r


def C(name, setup, target, ens, **kw):
    CONTRACTS.append(Contract(name, setup, target, ens, **kw))


def simple(name, target, spec, what):
    def setup(it):
        o, r = ds_obj(it)
        return [o], {}, r
    C(name, setup, target, lambda it, r, x: it.eng.equal(x, spec(r), what))


simple("space_dimension, any degree", meth("space_dimension"), lambda r: SInt(dims(r)), "four for degree one, else the polynomials of the degree and two functions")
simple("index_shape, any degree", attr("index_shape"), lambda r: (SInt(dims(r)),), "one index over the functions")
simple("value_shape", attr("value_shape"), lambda r: (), "scalar")
simple("degree", attr("degree"), lambda r: SInt(r), "degree")
simple("formdegree", attr("formdegree"), lambda r: 0, "continuous")
simple("mapping", attr("mapping"), lambda r: "physical", "defined on the physical cell")
simple("cell", attr("cell"), lambda r: quad, "cell")


def run_of(lo, n):
    k = fresh_int("k")
    return Seq([Flat(k, Dom(n=n), Seq([Elem(SInt(lo + k))]))])


def numbering(r):
    return {0: {i: [i] for i in range(4)}, 1: {i: run_of(4 + i * (r - 1), r - 1) for i in range(4)}, 2: {0: run_of(4 * r, dims(r) - 4 * r)}}


simple("entity_dofs, any degree", meth("entity_dofs"), numbering, "vertices first, then degree - 1 functions per edge in order, then the interior")


# ------------------------------------------------------------------ derivatives
def term(x): return x if isinstance(x, z3.ExprRef) else zi(x)


class Func(Substitutable):
    """a basis function or one of its derivatives: an expression in the symbols of the vertices and the point"""
    def __init__(self, phi, alpha, lib): self.phi, self.alpha, self.lib = phi, tuple(alpha), lib
    def subst(self, f): return Func(f(self.phi), [f(a) for a in self.alpha], self.lib)
    def parts(self): return [self.phi, *self.alpha]
    def pytype(self): return {"sympy": sympy.Expr, "symengine": symengine.Expr}[self.lib]
    def equal_to(self, eng, o, what):
        if not isinstance(o, Func): return eng.fail(what, repr(o))
        eng.prove(self.phi == o.phi, what + ": the function")
        for a, b in zip(self.alpha, o.alpha): eng.prove(term(a) == term(b), what + ": order of differentiation")
    def differentiate(self, it, counts): return Func(self.phi, [term(a) + term(c) for a, c in zip(self.alpha, counts)], self.lib)
    def sym_getattr(self, it, name):
        if name == "diff" and self.lib == "sympy": return Model(lambda it2, a, kw: self.differentiate(it2, count_pairs(it2, a)), "Expr.diff")
        raise Unsupported(f"attribute {name} of an expression")


X, Y = sympy.symbols("x y")
SX, SY = symengine.symbols("x y")


def which(it, x):
    x = it.eng.force(deref(x))
    for i, s in enumerate((X, Y)):
        if x is s or (isinstance(x, (sympy.Symbol, symengine.Symbol)) and str(x) == str(s)): return i
    raise Unsupported(f"derivative with respect to {x!r}")


def variables(it, a):
    """the arguments of a call: (variable, number of times) pairs"""
    for v in a:
        if type(v).__name__ != "Star":
            yield it.eng.force(deref(v)), 1
            continue
        for p in it.eng.norm(v.seq).pieces:
            if isinstance(p, Elem): yield it.eng.force(deref(p.v)), 1
            elif isinstance(p, Flat) and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem) and p.dom.n is not None:
                yield it.eng.force(deref(p.body.pieces[0].v)), p.dom.n
            else: raise Unsupported(f"arguments {p!r}")


def count_pairs(it, a):
    """the numbers of differentiations in diff(x, y, ...), diff((x, n), (y, m), ...)"""
    n = [z3.IntVal(0), z3.IntVal(0)]
    for v, k in variables(it, a):
        if isinstance(v, Seq): v = tuple(v.items())
        if isinstance(v, tuple): v, k = v[0], term(it.eng.force(deref(v[1])))
        n[which(it, v)] = n[which(it, v)] + k
    return n


def se_diff(it, a, kw):
    f = it.eng.force(deref(a[0]))
    if not isinstance(f, Func): raise Unsupported(f"derivative of {f!r}")
    return f.differentiate(it, count_pairs(it, a[1:]))


DIFF = {symengine.diff: se_diff, sympy.diff: se_diff}


def sym_alpha(it):
    al = z3.Ints("alpha0 alpha1")
    it.eng.assume(z3.And(al[0] >= 0, al[1] >= 0))
    return al


for lib, xs in (("sympy", (X, Y)), ("symengine", (SX, SY))):
    def setup(it, lib=lib, xs=xs):
        al = sym_alpha(it)
        f = Func(z3.Const("phi", U), (0, 0), lib)
        return [f, xs, tuple(SInt(a) for a in al)], {}, (f, al)
    C(f"diff of a {lib} expression, any multi-index", setup, ds.diff, lambda it, c, r: it.eng.equal(r, Func(c[0].phi, c[1], c[0].lib), "differentiated as often as the multi-index says"), models=DIFF)


# ------------------------------------------------------------------ evaluation
PHI = z3.Function("phi", I, I, U)          # degree, number
VS = np.array([[symengine.Symbol(f"{c}{i}") for c in "xy"] for i in range(4)])
XX = np.array([SX, SY])


def basis(r, lib="symengine"):
    k = fresh_int("k")
    return lambda al: Seq([Flat(k, Dom(n=dims(r)), Seq([Elem(Func(PHI(r, k), al, lib))]))], "tuple")


def ds_model(it, a, kw):
    v = dict(zip(["ct", "r"], a)); v.update(kw)
    ct, r = it.concretize(v["ct"]), zi(it.eng.force(deref(v["r"])))
    if ct != quad.topology: raise Unsupported("topology")
    it.eng.assumptions.add("the construction of the basis is decided per degree, by execution on circuits (contracts below)")
    return VS, XX, basis(r)((0, 0))


class Map(Substitutable):
    """gem.node.Memoizer(sympy2gem): the value of an expression with its symbols bound (property P13)"""
    def __init__(self): self.bindings = None
    def sym_setattr(self, it, name, v):
        if name != "bindings": raise Unsupported("mapper attribute " + name)
        self.bindings = v
    def sym_getattr(self, it, name):
        if name == "bindings" and self.bindings is not None: return self.bindings
        raise Unsupported("mapper attribute " + name)
    def subst(self, f): return self
    def parts(self): return []
    def sym_call(self, it, a, kw):
        x = it.eng.force(deref(a[0]))
        if not isinstance(x, Func): raise Unsupported(f"sympy2gem of {x!r}")
        return ds_value(x.phi, x.alpha, [gm.as_node(it, it.getitem(self.bindings, s)) for s in [*VS.flat, *XX]])


def ds_value(phi, al, args): return gm.tensor("ds_value", [phi, *[term(a) for a in al], *args], ())


def memoizer(it, a, kw):
    from finat.sympy2gem import sympy2gem as s2g
    if getattr(a[0], "pyfunc", a[0]) is not s2g: raise Unsupported(f"Memoizer of {a[0]!r}")
    it.eng.assumptions.add("sympy2gem preserves values (property P13)")
    return Map()


EVAL = {**DIFF, gem.node.Memoizer: memoizer}


def geometry(it, ix, ent):
    """a mapping of the cell: physical vertices and the physical points of this point set on this entity"""
    verts = gm.tensor("vertices", [], Seq([Elem(4), Elem(2)], "tuple"))
    def pts(it2, a, kw):
        v = dict(zip(["ps", "entity"], a)); v.update(kw)
        pt = it2.eng.force(deref(v["ps"]))
        return gm.tensor("points", [token(it2, pt), token(it2, v.get("entity"))], Seq([*[Elem(gm.extent_of(it2, i)) for i in ix], Elem(2)], "tuple"))
    return Obj("cm", (), Schema("cm", {"physical_vertices": method(lambda it2, o: verts), "physical_points": lambda it2, o: Model(pts, "physical_points")})), verts, pts


def ev_setup(k):
    def setup(it):
        r, s = z3.Ints("degree other_degree")
        it.eng.assume(z3.And(r >= 1, s >= 1))
        ix = []
        for j in range(k):
            n = z3.Int(f"q{j}_n")
            it.eng.assume(n >= 1)
            g = gm.GIndex(f"q{j}", ())
            gm.store_extent(it, g, SInt(n))
            q = gm.lookup(it, (), ("i", g))
            it.eng.fact(z3.And(q >= 0, q < n))
            ix.append(g)
        ps = Obj("ps", (), Schema("ps", {"indices": lambda it2, o: tuple(ix)}))
        ent = SU(z3.Const("entity", U))
        cm, verts, pts = geometry(it, ix, ent)
        return [SInt(r), SInt(s), ps, ent, cm], {}, (r, s, ix, verts, pts, ps, ent)
    return setup


HISTORY = [(0, 1), (1, 2), (0, 2), (0, 0), (1, 0), (0, 1), (0, 3)]


@driver
def ev_all(it, args, kw):
    """evaluations of two elements one after the other, of all orders, repeated"""
    r, s, ps, ent, cm = args
    e = [it.construct(DirectSerendipity, [quad, d], {}) for d in (r, s)]
    return [it.call(it.getattr(e[o], "basis_evaluation"), [order, ps], dict(entity=ent, coordinate_mapping=cm)) for o, order in HISTORY]


def ev_ens(it, ctx, res):
    r, s, ix, verts, pts, ps, ent = ctx
    P = pts(it, [ps, ent], {})
    scal = lambda node, idx: gm.indexed(it, node, Seq([Elem(i) for i in idx], "tuple"))
    args = [scal(verts, (i, j)) for i in range(4) for j in range(2)] + [scal(P, (*ix, j)) for j in range(2)]
    for (o, order), got in zip(HISTORY, res):
        d = (r, s)[o]
        want = {}
        for al in [(a, b) for m in range(order + 1) for a in range(m, -1, -1) for b in [m - a]]:
            k = fresh_int("k")
            want[al] = gm.list_tensor(it, Seq([Flat(k, Dom(n=dims(d)), Seq([Elem(ds_value(PHI(d, k), al, args))]))], "tuple"))
        keys = sorted(it.concretize(it.call(list, [got], {})))
        it.eng.equal(tuple(keys), tuple(sorted(want)), f"derivatives up to order {order}")
        for al, w in want.items():
            it.eng.equal(it.getitem(got, al), w, f"evaluation {o}, order {order}: derivative {al} of every function at the physical points")


for k in (0, 1, 2):
    C(f"basis_evaluation of two elements in any of their degrees, {k} point indices, all orders up to three, repeated", ev_setup(k), ev_all, ev_ens,
      models=EVAL, contracts={ds_sym: ds_model}, bounded="derivative order")


# ------------------------------------------------------------------ the basis itself, on all convex quadrilaterals
def nodes(v, r):
    """nodes in the element's order: vertices, edges in order, interior; v: vertices as pairs"""
    Fr = ci.Fraction
    lin = lambda *cw: tuple(sum((w * c[k] for w, c in cw), ci.const(0)) for k in range(2))
    out = [tuple(x) for x in v]
    for e in range(4):
        a, b = quad.topology[1][e]
        out += [lin((1 - Fr(i, r), v[a]), (Fr(i, r), v[b])) for i in range(1, r)]
    if r == 4: out.append(lin(*[(Fr(1, 4), x) for x in v]))
    if r > 4:
        pt = lambda i, j: lin((1 - Fr(i + j, r - 2), v[0]), (Fr(i, r - 2), v[1]), (Fr(j, r - 2), v[2]))
        p0, p1, p2 = pt(1, 1), pt(r - 3, 1), pt(1, r - 3)
        m = r - 4
        for i in range(m, -1, -1):
            for j in range(m - i, -1, -1):
                out.append(lin((Fr(i, m), p0), (Fr(j, m), p1), (Fr(m - i - j, m), p2)))
    return out


def constructed(c, r, lib):
    """the real construction: vertices, point, functions as circuits"""
    c.cover(True)
    vs, xx, phis = ds_sym(quad.topology, r, sp=ci.Algebra) if lib == "circuit" else ds_sym(quad.topology, r)
    c.cover(False)
    if lib != "circuit":
        memo = {}
        vs, xx, phis = [np.array([ci.from_expr(e, memo) for e in np.asarray(a).flat], dtype=object).reshape(np.asarray(a).shape) for a in (vs, xx, phis)]
    syms = [s for s in [*np.asarray(vs).flat, *xx]]
    if not all(isinstance(s, ci.Circ) and s.op == "sym" for s in syms) or len(set(syms)) != 10: raise Unsupported("the basis is not given in symbols of the vertices and the point")
    return np.asarray(vs), list(xx), list(phis)


def at_random(vs, xx, phis, *key):
    g = ci.rng("P14", *key)
    ev = ci.ModP({s.a[0]: g.randrange(ci.P) for s in [*vs.flat, *xx]})
    return ev, g


ERR = 100       # bits: probability that a false identity is accepted is below 2^-ERR


def nodal_run(r, lib):
    def run(c):
        vs, xx, phis = constructed(c, r, lib)
        n = 4 if r == 1 else (r + 1) * (r + 2) // 2 + 2
        nds = nodes([tuple(x) for x in vs], r)
        if not c.prove(len(phis) == n == len(nds), f"{n} functions", len(phis)): return
        free = {s.a[0] for s in [*vs.flat, *xx]}
        for i, p in enumerate(phis):
            if not ci.lift(p).free <= free: return c.prove(False, f"function {i} depends only on the vertices and the point", ci.lift(p).free - free)
        memo = {}
        d = sum(max(ci.degree(ci.lift(p), memo)) for p in phis) + 4 * r
        c.prove(d.bit_length() + ERR < ci.P.bit_length(), "degree of the identities small against the field", d.bit_length())
        ev, g = at_random(vs, xx, phis, r, lib)
        N = [tuple(ev(t) for t in nd) for nd in nds]
        x, y = xx[0].a[0], xx[1].a[0]
        for i, p in enumerate(phis):
            bad = [j for j, (a, b) in enumerate(N) if ev(ci.lift(p), {x: a, y: b}) != int(i == j)]
            c.prove(not bad, f"function {i} is one at its own node and zero at the {n - 1} others, for all vertices", f"wrong at nodes {bad[:8]}")
        V = [ev(ci.lift(p)) for p in phis]
        X0, Y0 = ev(xx[0]), ev(xx[1])
        for a in range(r + 1):
            for b in range(r + 1 - a):
                s = sum(pow(q[0], a, ci.P) * pow(q[1], b, ci.P) * w for q, w in zip(N, V)) % ci.P
                c.prove(s == pow(X0, a, ci.P) * pow(Y0, b, ci.P) % ci.P, f"x^{a} y^{b} is in the span, for all vertices")
        # conforming numbering: only the functions of an edge and its end points are non-zero on it
        for e in range(4):
            a, b = quad.topology[1][e]
            t = g.randrange(ci.P)
            pt = {s: ((1 - t) * N[a][k] + t * N[b][k]) % ci.P for k, s in enumerate((x, y))}
            on = {a, b, *range(4 + e * (r - 1), 4 + (e + 1) * (r - 1))}
            bad = [i for i, p in enumerate(phis) if i not in on and ev(ci.lift(p), pt) != 0]
            c.prove(not bad, f"on edge {e}, only its own functions and those of its vertices are non-zero", bad)
    return run


# ---- well defined on every convex quadrilateral: no divisor vanishes
def divisor_run(r):
    def run(c):
        vs, xx, phis = constructed(c, r, "circuit")
        ev, g = at_random(vs, xx, phis, r, "divisors")
        x, y = xx[0].a[0], xx[1].a[0]
        sym = lambda i, k: vs[i, k].a[0]
        W = ci.P
        general = [[ev(vs[i, k]) for k in range(2)] for i in range(4)]
        # affine coordinates: vertex 0 -> (0,0), 1 -> (0,1), 2 -> (1,0), 3 -> (p,q), point -> (u,w)
        e1 = [general[1][k] - general[0][k] for k in range(2)]
        e2 = [general[2][k] - general[0][k] for k in range(2)]
        det = (e2[0] * e1[1] - e2[1] * e1[0]) % W
        inv = pow(det, -1, W)
        def affine(z):
            d = [z[k] - general[0][k] for k in range(2)]
            return (d[0] * e1[1] - d[1] * e1[0]) * inv % W, (e2[0] * d[1] - e2[1] * d[0]) * inv % W
        p, q = affine(general[3])
        u, w = affine([ev(xx[0]), ev(xx[1])])
        chart = {sym(0, 0): 0, sym(0, 1): 0, sym(1, 0): 0, sym(1, 1): 1, sym(2, 0): 1, sym(2, 1): 0, sym(3, 0): p, sym(3, 1): q, x: u, y: w}
        evc = ci.ModP(chart)
        from sympy.polys.fields import field
        K, *gens = field("p,q,u,w", sympy.QQ)
        fr = {**{k: K(v) for k, v in chart.items() if k not in (sym(3, 0), sym(3, 1), x, y)}, sym(3, 0): gens[0], sym(3, 1): gens[1], x: gens[2], y: gens[3]}
        memo = {}
        def exact(t):
            if t in memo: return memo[t]
            if t.op == "const": v = K(sympy.Rational(t.a[0].numerator, t.a[0].denominator))
            elif t.op == "sym": v = fr[t.a[0]]
            elif evc(t) == 0: v = K(0)
            else:
                a, b = t.a
                if t.op == "mul": v = exact(a) * exact(b)
                elif t.op == "div": v = exact(a) / exact(b)
                else: v = exact(a) + exact(b) if t.op == "add" else exact(a) - exact(b)
            memo[t] = v
            return v
        divisors = {t.a[1] for t in ci.topo([ci.lift(f) for f in phis]) if t.op == "div" and t.a[1].op != "const"}
        classes, lengths = {}, 0
        sq = {sum((general[a][k] - general[b][k]) ** 2 for k in range(2)) % W for a, b in combinations(range(4), 2)}
        powers = {pow(det, k, W): k for k in range(-4 * r - 12, 4 * r + 13)}
        for t in sorted(divisors, key=lambda t: t.n):
            gv = ev(t)
            if gv in sq or (-gv) % W in sq:
                lengths += 1        # squared length of an edge
                continue
            cv = evc(t)
            if cv == 0 or gv * pow(cv, -1, W) % W not in powers:
                raise Unsupported("a divisor that is not invariant under affine maps")
            classes.setdefault(cv, t)
        P_, Q_, U_, W_ = z3.Reals("p q u w")
        zs = [P_, Q_, U_, W_]
        convex = [P_ > 0, Q_ > 0, P_ + Q_ > 1]
        # the point in the closed cell with the corners (0,0), (0,1), (p,q), (1,0)
        inside = [U_ >= 0, W_ >= 0, (P_ - 0) * (W_ - 1) - (Q_ - 1) * U_ <= 0, (P_ - 1) * W_ - Q_ * (U_ - 1) >= 0]
        done = {}
        for k, t in enumerate(classes.values()):
            f = exact(t)
            bad = []
            for h, _ in f.numer.factor_list()[1]:
                if h not in done:
                    s = z3.Solver()
                    s.set("timeout", 20000)
                    e = z3.Sum([z3.RealVal(str(co)) * z3.Product([z3.RealVal(1)] + [zs[i] for i, m in enumerate(mon) for _ in range(m)]) for mon, co in h.terms()])
                    s.add(*convex, e == 0)
                    if {x, y} & t.free: s.add(*inside)
                    done[h] = str(s.check())
                if done[h] != "unsat": bad.append((str(h), done[h]))
            if any(b[1] == "unknown" for b in bad): raise Unsupported(f"sign of {bad}")
            c.prove(not bad, f"divisor {k} of {len(classes)} vanishes on no convex quadrilateral", bad)
    return run


QUICK, ALL = range(1, 9), range(1, 12)
for r in ALL:
    CONTRACTS.append(RunContract(f"ds_sym, degree {r}, all quadrilaterals: nodal, reproduces polynomials", nodal_run(r, "circuit"), backend="polynomial identity test", bounded="degree", thorough_only=r not in QUICK))
for r in range(1, 7):
    CONTRACTS.append(RunContract(f"ds_sym with the element's own algebra, degree {r}, all quadrilaterals", nodal_run(r, "symengine"), backend="polynomial identity test", bounded="degree", thorough_only=r > 5))
for r in range(1, 8):
    CONTRACTS.append(RunContract(f"ds_sym, degree {r}: defined on every convex quadrilateral", divisor_run(r), backend="z3 on factored normal forms", bounded="degree", thorough_only=r > 5))
