"""P13: translating symbolic expressions preserves their value."""
from fractions import Fraction
import math
import sympy as sp
import symengine as se
import gem.gem as G
from .common import *
from finat.sympy2gem import sympy2gem

VARS = ("x", "y", "z")


def cases(rng, tier):
    n = 500 if tier == "quick" else 12000
    for i in range(n):
        yield "value", {"seed": rng.randrange(10**9), "depth": rng.choice([1, 2, 3, 4]), "backend": rng.choice(["sympy", "symengine"])}
    for s in FIXED:
        for b in ("sympy", "symengine"):
            yield "fixed", {"expr": s, "backend": b}
    for s in REJECTED:
        yield "rejected", {"expr": s}


FIXED = ["x+y+z", "x*y*z", "x-y", "x/y", "x**2", "x**-2", "x**3*y**-1", "S(1)/3", "S(-2)/7*x", "S(5)", "x+1", "x*0.5", "2*x-3*y+S(1)/2", "x**(S(1)/2)", "2**x", "x**y", "Abs(x-y)", "x<y", "x<=y", "x>y", "x>=y", "Eq(x,y)", "Not(x<y)", "Or(x<y,x<z)", "And(x<y,x<z)",
         "And(x<y,y<z,x<z)", "Or(x<y,y<z,z<x)", "Piecewise((x,x<y),(y,True))", "Piecewise((x,x<y),(y,x<z),(z,True))", "Piecewise((x,x<y),(y,y<z))", "Piecewise((1,x>y),(2,x>z),(3,x>0.5),(4,True))", "Piecewise((x,And(x<y,y<z)),(y*z,Or(x<z,y<x)),(x*y,True))",
         "Piecewise((x+Piecewise((y,y<z),(z,True)),x<z),(-x,True))", "Abs(Piecewise((x,x<y),(-y,True)))", "x-(y-z)", "x/(y/z)", "(x/y)/z", "(x-y)**3", "x**(y-z)", "-x", "-(x+y)", "1/x", "1/(x*y)", "x*y-y*z+x*z", "S(7)/3*x**2*y-S(1)/9", "Piecewise((0,x<y),(1,True))", "Piecewise((x,x<=y),(y,x<=z),(z,True))",
         "Piecewise((x,Eq(x,y)),(2*x,True))", "sqrt(x)*sqrt(y)", "x**(S(-3)/2)", "(x+y)**2*(x-y)**-3", "1e-30*x", "1e20+x", "S(10)**30*x", "S(2)**-3"]
REJECTED = ["sp.sin(x)", "sp.exp(x)", "sp.pi*x", "sp.E+x", "sp.Ne(x,y)", "sp.Max(x,y)", "sp.oo", "sp.nan", "sp.I*x", "sp.Mod(x,y)", "sp.Xor(x<0,y<0)", "sp.Function('f')(x)", "sp.Derivative(sp.Function('f')(x),x)", "sp.Sum(x,(x,0,3))", "sp.floor(x)", "sp.sign(x)", "sp.Piecewise((x,sp.Ne(x,y)),(1,True))",
            "se.sin(u)", "se.pi*u", "se.Ne(u,v)", "se.Max(u,v)", "se.I", "se.exp(u)", "'x'", "None", "(1,2)", "sp.Symbol('unbound')", "sp.Symbol('unbound')*x"]


class Mapper:
    def __init__(self):
        self.var = {n: gem.Variable(n, ()) for n in VARS}
    def __call__(self, expr):
        m = gem.node.Memoizer(sympy2gem)
        m.bindings = {}
        for n in VARS:
            m.bindings[sp.Symbol(n)] = self.var[n]
            m.bindings[se.Symbol(n)] = self.var[n]
        return m(expr)


def value(e, env):
    """value of a scalar GEM expression (mathematical semantics)"""
    r = lambda o: value(o, env)
    c = e.children
    if isinstance(e, G.Literal):
        require(e.shape == (), "scalar literal expected")
        v = e.array.item() if hasattr(e.array, "item") else e.value
        return v
    if isinstance(e, G.Zero):
        return 0
    if isinstance(e, G.Variable):
        return env[e.name]
    if isinstance(e, G.Sum):
        return r(c[0]) + r(c[1])
    if isinstance(e, G.Product):
        return r(c[0]) * r(c[1])
    if isinstance(e, G.Division):
        return r(c[0]) / r(c[1])
    if isinstance(e, G.Power):
        b, p = r(c[0]), r(c[1])
        return float(b) ** float(p)
    if isinstance(e, G.MathFunction):
        require(e.name == "abs", f"function {e.name}")
        return abs(r(c[0]))
    if isinstance(e, G.Comparison):
        a, b = r(c[0]), r(c[1])
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[e.operator]
    if isinstance(e, G.LogicalNot):
        return not r(c[0])
    if isinstance(e, G.LogicalAnd):
        return bool(r(c[0])) and bool(r(c[1]))
    if isinstance(e, G.LogicalOr):
        return bool(r(c[0])) or bool(r(c[1]))
    if isinstance(e, G.Conditional):
        return r(c[1]) if r(c[0]) else r(c[2])
    raise Broken(f"unexpected node {type(e).__name__}")


def reference(expr, env):
    """value of a sympy expression by direct recursion on its mathematical meaning"""
    r = lambda o: reference(o, env)
    if expr is True or expr is False:
        return expr
    if isinstance(expr, (int, float)):
        return expr
    if expr is sp.true or expr is sp.false:
        return bool(expr)
    if expr.is_Symbol:
        return env[expr.name]
    if isinstance(expr, sp.Rational):
        return int(expr.p) / int(expr.q)
    if isinstance(expr, sp.Float):
        return float(expr)
    a = expr.args
    if isinstance(expr, sp.Add):
        return math.fsum(map(r, a))
    if isinstance(expr, sp.Mul):
        return math.prod(map(r, a))
    if isinstance(expr, sp.Pow):
        return float(r(a[0])) ** float(r(a[1]))
    if isinstance(expr, sp.Abs):
        return abs(r(a[0]))
    if isinstance(expr, sp.Not):
        return not r(a[0])
    if isinstance(expr, sp.And):
        return all(map(r, a))
    if isinstance(expr, sp.Or):
        return any(map(r, a))
    if isinstance(expr, sp.ITE):
        return r(a[1]) if r(a[0]) else r(a[2])
    if isinstance(expr, sp.Piecewise):
        for v, c in a:
            if r(c):
                return r(v)
        return float("nan")
    ops = {sp.Eq: lambda p, q: p == q, sp.Lt: lambda p, q: p < q, sp.Le: lambda p, q: p <= q, sp.Gt: lambda p, q: p > q, sp.Ge: lambda p, q: p >= q}
    for k, f in ops.items():
        if isinstance(expr, k):
            return f(r(a[0]), r(a[1]))
    raise ValueError(f"no reference meaning for {type(expr)}")


def compare(se_or_sp, spexpr, env, what):
    out = Mapper()(se_or_sp)
    require(isinstance(out, gem.Node) and out.shape == () and not out.free_indices, f"{what}: result is not a scalar expression")
    try:
        want = reference(spexpr, env)
        if isinstance(want, complex):
            return
    except (ZeroDivisionError, OverflowError):
        return
    try:
        got = value(out, env)
    except (ZeroDivisionError, OverflowError):
        return
    if isinstance(want, bool):
        require(bool(got) == want, f"{what}: {got} != {want} at {env}")
        return
    if want != want:
        require(got != got, f"{what}: {got} where no piece applies")
        return
    if isinstance(got, complex) and got.imag == 0:      # integers beyond 64 bits become complex literals
        got = got.real
    require(not isinstance(got, complex) and abs(got - want) <= 1e-8 * (1 + abs(want)), f"{what}: {got} != {want} at {env}")


def rnd_num(rng, S):
    k = rng.choice(["i", "q", "f"])
    if k == "i":
        return S["I"](rng.choice([-3, -2, -1, 0, 1, 2, 3, 7]))
    if k == "q":
        return S["Q"](rng.randint(-9, 9), rng.randint(1, 9))
    return S["F"](rng.choice([0.5, -1.25, 0.1, 3.75, 1e-3]))


def rnd(rng, S, d):
    if d == 0:
        return S["V"][rng.choice(VARS)] if rng.random() < 0.7 else rnd_num(rng, S)
    k = rng.choice(["add", "mul", "sub", "div", "pow", "abs", "pw", "pw", "num"])
    s = lambda: rnd(rng, S, d - 1)
    if k == "add":
        return s() + s() + s()
    if k == "mul":
        return s() * s()
    if k == "sub":
        return s() - s()
    if k == "div":
        return s() / (S["M"].Abs(s()) + 2)
    if k == "pow":
        return (S["M"].Abs(s()) + 1) ** rng.choice([2, 3, -1, -2, S["Q"](1, 2)])
    if k == "abs":
        return S["M"].Abs(s())
    if k == "pw":
        ps = [(s(), rndc(rng, S, d - 1)) for _ in range(rng.choice([1, 2, 3]))]
        return S["M"].Piecewise(*ps, (s(), True))
    return rnd_num(rng, S)


def rndc(rng, S, d):
    k = rng.choice(["lt", "le", "gt", "ge", "eq", "not", "or", "and"] if d else ["lt", "le", "gt", "ge"])
    s = lambda: rnd(rng, S, max(0, d - 1))
    if k in ("lt", "le", "gt", "ge"):
        a, b = s(), s()
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]
    if k == "eq":
        return S["M"].Eq(s(), s())
    c = lambda: rndc(rng, S, d - 1)
    return S["M"].Not(c()) if k == "not" else (S["M"].Or if k == "or" else S["M"].And)(c(), c())


SP = {"M": sp, "I": sp.Integer, "Q": sp.Rational, "F": sp.Float, "V": {n: sp.Symbol(n) for n in VARS}}
SE = {"M": se, "I": se.Integer, "Q": se.Rational, "F": se.RealDouble, "V": {n: se.Symbol(n) for n in VARS}}


def has_bool_atom(e):
    return any(type(a).__name__ in ("BooleanTrue", "BooleanFalse") for a in sp.preorder_traversal(e))


def check_value(seed, depth, backend):
    rng = sd(seed)
    try:
        e = rnd(rng, SP, depth)
        # decided by the simplifier, not by the code
        assert not e.has(sp.zoo, sp.oo, sp.nan, sp.I)
        q = e if backend == "sympy" else se.sympify(e)
        ref = e if backend == "sympy" else sp.sympify(q)
        assert not ref.has(sp.zoo, sp.oo, sp.nan, sp.I, sp.Ne)
    except Exception:
        return
    if any(type(x).__name__ in ("Unequality", "Max", "Min", "Heaviside", "sign") for x in sp.preorder_traversal(ref)):
        return
    for _ in range(4):
        env = {n: rng.choice([rng.uniform(-2, 2), rng.choice([-1.0, 0.0, 0.5, 1.0])]) for n in VARS}
        compare(q, ref, env, f"{backend} {e}")


def check_fixed(expr, backend):
    ns = {n: sp.Symbol(n) for n in VARS}
    ns.update({k: getattr(sp, k) for k in ("S", "Abs", "Eq", "Not", "Or", "And", "Piecewise", "sqrt")})
    e = eval(expr, ns)
    q = e if backend == "sympy" else se.sympify(e)
    rng = sd(1)
    for env in ([{"x": a, "y": b, "z": c} for a in (0.25, 0.5, 1.5) for b in (0.25, 0.5, 1.5) for c in (0.5, 1.5, 0.1)] + [{"x": -0.5, "y": 0.75, "z": -2.0}, {"x": 2, "y": 3, "z": 4}]):
        compare(q, e, env, f"{backend} {expr}")


def check_rejected(expr):
    e = eval(expr, {"sp": sp, "se": se, "x": sp.Symbol("x"), "y": sp.Symbol("y"), "u": se.Symbol("x"), "v": se.Symbol("y")})
    try:
        out = Mapper()(e)
    except Exception:
        return
    raise Broken(f"{expr} was translated to {out!r}")
