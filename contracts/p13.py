"""Translation of sympy / symengine expressions: structural induction, one contract per kind of node.

The node has any number of abstract arguments; `self`, the translation of the arguments, satisfies the induction hypothesis
value(self(a)) = T(a), with T(a) the mathematical value of a (a truth value is T(a) != 0).  The post-condition of the translation of
the node is that its value is the meaning of the node's kind on the values of its arguments, in order."""
import inspect
import sympy
import symengine
from pyvc.values import *
from .evals import *
from .symgem import RunContract
from finat.sympy2gem import sympy2gem
import sympy.logic.boolalg as sb

CONTRACTS = []
T = z3.Function("T", U, R)
BINDING = z3.Function("binding", U, R)


def tr(u): return gm.tensor("T", [u], Seq([], "tuple"))


def self_obj(it):
    """the memoized translation"""
    def call(it2, a, kw):
        x = it2.eng.force(deref(a[0]))
        if isinstance(x, SU): return tr(x.e)
        if isinstance(x, (SReal, SInt)): return gm.const(x)
        if isinstance(x, bool): return gm.const(SReal(z3.RealVal(int(x))))
        if isinstance(x, (int, float)) or x in (sympy.true, sympy.false, symengine.true, symengine.false): return gm.const(SReal(z3.RealVal(int(bool(x)) if not isinstance(x, (int, float)) else x)))
        if isinstance(x, Obj): return gm.tensor("T", [token(it2, x)], Seq([], "tuple"))
        raise Unsupported(f"translation of {x!r}")
    sch = Schema("mapper", {"bindings": lambda it2, o: Bindings()})
    sch.call = lambda it2, o, a, kw: call(it2, a, kw)
    return Obj("mapper", (), sch)


class Bindings(Substitutable):
    def sym_getitem(self, it, k): return gm.tensor("binding", [token(it, k)], Seq([], "tuple"))
    def subst(self, f): return self
    def parts(self): return []


def node(cls, args=None, **extra):
    at = {"args": (lambda it, o: args) if args is not None else (lambda it, o: ())}
    at.update(extra)
    return exact(Obj("node", (), Schema("node", at, cls=(cls,))))


def exact(o):
    """the object is an instance of its class and its bases only"""
    o.schema.isinstance = lambda it, v, c: any(issubclass(k, c) for k in v.schema.cls)
    return o


def sym_args(it, n):
    """n abstract arguments, n a number or None for any n >= 1"""
    if n is not None:
        us = [z3.Const(f"arg{i}", U) for i in range(n)]
        return us, tuple(SU(u) for u in us)
    f = z3.Function("arg", I, U)
    m = z3.Int("nargs")
    it.eng.assume(m >= 1)
    k = fresh_int("k")
    return (f, m), Seq([Flat(k, Dom(n=m), Seq([Elem(SU(f(k)))]))], "tuple")


def value(it, r):
    r = it.eng.force(deref(r))
    return gm.den(it, gm.as_node(it, r), [], ())


def truth(it, r):
    return gm.den_bool(it, gm.as_node(it, it.eng.force(deref(r))), ())


def C(name, setup, ens, models=None, **kw):
    CONTRACTS.append(Contract(name, setup, sympy2gem, ens, models=models, **kw))


def nary(cls, nm, n, meaning, boolean=False):
    def setup(it):
        ts, args = sym_args(it, n)
        return [node(cls, args), self_obj(it)], {}, ts
    def ens(it, ctx, r):
        want = meaning(it, ctx)
        if boolean: it.eng.prove(truth(it, r) == want, f"{nm} of the arguments")
        else: it.eng.prove(value(it, r) == want, f"{nm} of the arguments")
    C(f"{cls.__module__.split('.')[0]} {cls.__name__}, {'any number of' if n is None else n} arguments: {nm} of their values", setup, ens)


def fold(op):
    def f(it, ctx):
        if isinstance(ctx, tuple):
            a, m = ctx
            k = fresh_int("s")
            t = T(a(k))
            if op == "sum": return it.eng.sum_over(k, Dom(n=m), t)
            if op == "prod": return it.eng.sum_over(k, Dom(n=m), t, "PROD")
            c = z3.And(0 <= k, k < m)
            return z3.ForAll([k], z3.Implies(c, t != 0)) if op == "and" else z3.Exists([k], z3.And(c, t != 0))
        vs = [T(u) for u in ctx]
        if op == "sum": return z3.Sum(vs)
        if op == "prod":
            r = vs[0]
            for v in vs[1:]: r = r * v
            return r
        return (z3.And if op == "and" else z3.Or)([v != 0 for v in vs])
    return f


for lib in (sympy, symengine):
    for n in (None, 1, 2, 3):
        nary(lib.Add, "sum", n, fold("sum"))
        nary(lib.Mul, "product", n, fold("prod"))
        nary(lib.And, "conjunction", n, fold("and"), True)
        nary(lib.Or, "disjunction", n, fold("or"), True)
    nary(lib.Not, "negation", 1, lambda it, c: z3.Not(T(c[0]) != 0), True)
    nary(lib.Abs, "absolute value", 1, lambda it, c: z3.If(T(c[0]) < 0, -T(c[0]), T(c[0])))
    nary(lib.Pow, "power", 2, lambda it, c: gm.power(T(c[0]), T(c[1])))
    for nm, f in (("Eq", lambda a, b: a == b), ("Gt", lambda a, b: a > b), ("Ge", lambda a, b: a >= b), ("Lt", lambda a, b: a < b), ("Le", lambda a, b: a <= b)):
        cls = getattr(lib, nm)
        if isinstance(cls, type): nary(cls, nm, 2, lambda it, c, f=f: f(T(c[0]), T(c[1])), True)
nary(sympy.ITE, "choice", 3, lambda it, c: z3.If(T(c[0]) != 0, T(c[1]), T(c[2])))


# ------------------------------------------------------------------ leaves
NUM = {int: ("integer", I), float: ("float", R), bool: ("truth", z3.BoolSort())}


def num_model(py, fallback):
    """int(node), float(node), bool(node) of a symbolic number: its value"""
    sort = NUM[py][1]
    def f(it, a, kw):
        v = it.eng.force(deref(a[0])) if a else None
        if isinstance(v, Obj) and v.name == "node":
            t = z3.Const("node_value_" + NUM[py][0], sort)
            return {int: SInt, float: SReal, bool: SBool}[py](t)
        if isinstance(v, {int: SInt, float: SReal, bool: SBool}[py]): return v
        return fallback(it, a, kw)
    return f


def leaf_models():
    from pyvc.models import MODELS
    return {py: num_model(py, MODELS.get(py) or (lambda it, a, kw, py=py: it.native_call(py, a, kw))) for py in NUM}


def leaf(cls, py):
    def setup(it): return [node(cls), self_obj(it)], {}, None
    def ens(it, ctx, r):
        t = z3.Const("node_value_" + NUM[py][0], NUM[py][1])
        if py is bool: it.eng.prove(truth(it, r) == t, "truth value of the constant")
        else: it.eng.prove(value(it, r) == (z3.ToReal(t) if py is int else t), "value of the constant")
    C(f"{cls.__module__.split('.')[0]} {cls.__name__}: value of the constant", setup, ens, models=leaf_models())


for lib in (sympy, symengine):
    leaf(lib.Integer, int)
leaf(sympy.Float, float)
leaf(symengine.Float, float)
leaf(sympy.logic.boolalg.BooleanTrue, bool)
leaf(sympy.logic.boolalg.BooleanFalse, bool)


def py_setup(v):
    return lambda it: ([v, self_obj(it)], {}, None)


C("Python int: its value", lambda it: ([SInt(z3.Int("n")), self_obj(it)], {}, z3.ToReal(z3.Int("n"))), lambda it, c, r: it.eng.prove(value(it, r) == c, "value"), models=leaf_models())
C("Python float: its value", lambda it: ([SReal(z3.Real("x")), self_obj(it)], {}, z3.Real("x")), lambda it, c, r: it.eng.prove(value(it, r) == c, "value"), models=leaf_models())
C("Python bool: its value", lambda it: ([SBool(z3.Bool("b")), self_obj(it)], {}, z3.Bool("b")), lambda it, c, r: it.eng.prove(truth(it, r) == c, "value"), models=leaf_models())


def symbol(cls):
    def setup(it):
        n = node(cls)
        return [n, self_obj(it)], {}, n
    def ens(it, n, r):
        it.eng.prove(value(it, r) == z3.Function("binding", U, R)(token(it, n)), "the bound expression")
    C(f"{cls.__module__.split('.')[0]} {cls.__name__}: the expression bound to it", setup, ens)


symbol(sympy.Symbol)
symbol(symengine.Symbol)


def rational(cls):
    def setup(it):
        p, q = z3.Const("numerator", U), z3.Const("denominator", U)
        it.eng.assume(T(q) != 0)
        return [node(cls, as_numer_denom=method(lambda it2, o: (SU(p), SU(q)))), self_obj(it)], {}, (p, q)
    def ens(it, c, r):
        it.eng.prove(value(it, r) == T(c[0]) / T(c[1]), "numerator over denominator")
    C(f"{cls.__module__.split('.')[0]} {cls.__name__}: quotient of numerator and denominator", setup, ens)


rational(sympy.Rational)
rational(symengine.Rational)


# ------------------------------------------------------------------ piecewise
NAN = "not a number"


def piecewise(lib, n, trues, tname):
    """n pieces; those numbered in `trues` have the condition true, the others an abstract one"""
    def setup(it):
        expr = lambda i: exact(Obj("value", (z3.Const(f"v{i}", U),), Schema("value", {}, cls=(lib.Add,))))
        vs = [expr(i) for i in range(n)]
        cs = [z3.Const(f"c{i}", U) for i in range(n)]
        t = {"True": True, "true": lib.true}[tname]
        cond = [t if i in trues else exact(Obj("cond", (c,), Schema("cond", {}, cls=(lib.Lt if isinstance(lib.Lt, type) else sympy.Lt,)))) for i, c in enumerate(cs)]
        if lib is sympy: args = tuple((v, c) for v, c in zip(vs, cond))
        else: args = tuple(x for v, c in zip(vs, cond) for x in (v, c))
        return [node(lib.Piecewise, args), self_obj(it)], {}, (vs, cond)
    def ens(it, ctx, r):
        vs, cond = ctx
        want, known = None, z3.BoolVal(False)
        guard = [z3.BoolVal(True) if i in trues else T(token(it, c)) != 0 for i, c in enumerate(cond)]
        for v, g in reversed(list(zip(vs, guard))):
            want = T(token(it, v)) if want is None else z3.If(g, T(token(it, v)), want)
        it.eng.prove(z3.Implies(z3.Or(guard), value(it, r) == want), "value of the first piece whose condition holds")
    C(f"{lib.__name__} Piecewise of {n} pieces{''.join(f', piece {i} {tname}' for i in trues)}: first piece whose condition holds", setup, ens, models={float: nan_model(), gem.Literal: lit_model()},
      bounded="up to five pieces; all conditions and values")


def nan_model():
    from pyvc.models import MODELS
    def f(it, a, kw):
        if a and a[0] == "nan": return NAN
        return it.native_call(float, a, kw)
    return f


def lit_model():
    from pyvc.models import MODELS
    def f(it, a, kw):
        if a and a[0] == NAN: return gm.tensor("nan", [], Seq([], "tuple"))
        return MODELS[gem.Literal](it, a, kw)
    return f


import gem   # noqa: E402
for lib in (sympy, symengine):
    for n in (1, 2, 3, 4, 5):
        for trues in [()] + [(i,) for i in range(n)] + ([(0, n - 1), (n - 2, n - 1)] if n >= 3 else []):
            piecewise(lib, n, trues, "true")
    for n in (2, 3):
        piecewise(lib, n, (n - 1,), "True")


# ------------------------------------------------------------------ dispatch over all node classes of both back ends
DOCUMENTED = [(l, n) for l in (sympy, symengine) for n in ("Add", "Mul", "Pow", "Integer", "Float", "Symbol", "Rational", "Abs", "Not", "Or", "And", "Eq", "Lt", "Le", "Piecewise")] \
    + [(sympy, n) for n in ("Gt", "Ge", "ITE")] + [(sb, "BooleanTrue"), (sb, "BooleanFalse")]


def subclasses(k, out):
    for s in type.__subclasses__(k):
        if s not in out:
            out.add(s)
            subclasses(s, out)
    return out


class Untouched:
    """node that must not be looked at"""
    def __getattribute__(self, n): raise Unsupported("a handler for a construct outside the documented ones looks at its node")
    __iter__ = __getitem__ = __len__ = __call__ = lambda self, *a: (_ for _ in ()).throw(Unsupported("node used"))


def dispatch_run(c):
    doc = [getattr(l, n) for l, n in DOCUMENTED]
    import sympy.core, sympy.functions, sympy.logic, sympy.matrices   # noqa: F401
    every = subclasses(sympy.Basic, set()) | subclasses(symengine.Basic, set())
    near = lambda k: next((b for b in k.__mro__ if b in doc), None)
    wrong = [k for k in every if near(k) is not None and sympy2gem.dispatch(k) is not sympy2gem.dispatch(near(k))]
    c.prove(not wrong, f"{sum(near(k) is not None for k in every)} node classes derived from supported ones are translated as these", wrong[:5])
    c.cover(True)
    bad = []
    rest = [k for k in every if near(k) is None]
    for h in {sympy2gem.dispatch(k) for k in rest}:
        try:
            h(Untouched(), Untouched())
            bad.append(h)
        except Unsupported:
            raise
        except Exception:
            pass
    c.cover(False)
    c.prove(not bad, f"the {len(rest)} other node classes are rejected", bad)


CONTRACTS.append(RunContract("dispatch over every node class of sympy and symengine", dispatch_run))
