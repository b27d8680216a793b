"""Arithmetic circuits: the algebra in which the symbolic construction of a basis is executed for all cells at once.

The real construction runs with the symbols and numbers of this module; its results are straight-line programs over the symbols.
Equality of two results as rational functions of all symbols is decided by evaluation at a random point of a prime field (polynomial
identity testing): two different rational functions of degree d agree there with probability at most d / P."""
import random
from fractions import Fraction

P = 2 ** 521 - 1


class Circ:
    table = {}
    __slots__ = ("op", "a", "free", "n")

    def __new__(cls, op, *a):
        k = (op,) + tuple(id(x) if isinstance(x, Circ) else x for x in a)
        c = cls.table.get(k)
        if c is None:
            c = object.__new__(cls)
            c.op, c.a, c.n = op, a, len(cls.table)
            c.free = frozenset(a) if op == "sym" else frozenset().union(*(x.free for x in a if isinstance(x, Circ)))
            cls.table[k] = c
        return c

    def __add__(s, o): return mk("add", s, o)
    def __radd__(s, o): return mk("add", o, s)
    def __sub__(s, o): return mk("sub", s, o)
    def __rsub__(s, o): return mk("sub", o, s)
    def __mul__(s, o): return mk("mul", s, o)
    def __rmul__(s, o): return mk("mul", o, s)
    def __truediv__(s, o): return mk("div", s, o)
    def __rtruediv__(s, o): return mk("div", o, s)
    def __neg__(s): return mk("sub", 0, s)
    def __pos__(s): return s
    def __pow__(s, n):
        n = plain(n)
        if isinstance(n, Fraction) and n.denominator == 1: n = int(n)
        if not isinstance(n, int): return NotImplemented
        if n < 0: return 1 / s ** -n
        if n == 0: return const(1)
        h = s ** (n // 2) if n > 1 else None
        return s if n == 1 else (h * h * s if n % 2 else h * h)
    def __eq__(s, o): return s is o or (s.op == "const" and not isinstance(o, Circ) and s.a[0] == o)
    def __hash__(s): return id(s)
    def __bool__(s): raise TypeError("truth value of a symbolic expression")
    def simplify(s, *a, **k): return s
    expand = factor = together = cancel = simplify
    def subs(s, *d):
        d = d[0] if len(d) == 1 else {d[0]: d[1]}
        d = {(k if isinstance(k, Circ) else const(k)).a[0]: lift(v) for k, v in dict(d).items()}
        keys = frozenset(d)
        memo = {}
        for c in topo([s]):
            if not (c.free & keys): memo[c] = c
            elif c.op == "sym": memo[c] = d[c.a[0]]
            else: memo[c] = mk(c.op, *[memo[x] for x in c.a])
        return memo[s]
    def __repr__(s): return f"<circuit {s.n} {s.op}>"


def plain(x):
    if isinstance(x, Circ) and x.op == "const": return x.a[0]
    return x


def const(x): return Circ("const", Fraction(x))
def lift(x): return x if isinstance(x, Circ) else const(int(x) if hasattr(x, "__index__") else Fraction(x))


def mk(op, a, b):
    try: a, b = lift(a), lift(b)
    except (TypeError, ValueError): return NotImplemented
    p, q = plain(a), plain(b)
    if isinstance(p, Fraction) and isinstance(q, Fraction):
        return const(p + q if op == "add" else p - q if op == "sub" else p * q if op == "mul" else p / q)
    if op in ("add", "sub") and isinstance(q, Fraction) and q == 0: return a
    if op == "add" and isinstance(p, Fraction) and p == 0: return b
    if op == "mul" and (isinstance(p, Fraction) and p == 0 or isinstance(q, Fraction) and q == 0): return const(0)
    if op in ("mul", "div") and isinstance(q, Fraction) and q == 1: return a
    if op == "mul" and isinstance(p, Fraction) and p == 1: return b
    if op == "div" and isinstance(q, Fraction) and q == 0: raise ZeroDivisionError
    return Circ(op, a, b)


def topo(roots):
    """every circuit below the roots, operands first"""
    seen, out, st = set(), [], [(r, False) for r in roots]
    while st:
        c, done = st.pop()
        if done: out.append(c)
        elif c not in seen:
            seen.add(c)
            st.append((c, True))
            st.extend((x, False) for x in c.a if isinstance(x, Circ) and x not in seen)
    return out


class Algebra:
    """stands for the module sympy / symengine"""
    @staticmethod
    def Symbol(n, **k): return Circ("sym", n)
    @staticmethod
    def symbols(s, **k):
        out = []
        for t in s.replace(",", " ").split():
            b, c, e = t.partition(":")
            out += [Circ("sym", b + str(i)) for i in range(int(e))] if c else [Circ("sym", b)]
        return tuple(out) if len(out) > 1 or ":" in s or "," in s else out[0]
    @staticmethod
    def Integer(n): return const(n)
    @staticmethod
    def Rational(a, b=1): return lift(a) / lift(b)
    S = staticmethod(lift)
    sympify = staticmethod(lift)


class ModP:
    """evaluation at one point of the field of P elements"""
    def __init__(self, env):
        self.env = env
        self.memo = {}
    def __call__(self, c, env=None):
        """value of c; env: values of further symbols"""
        env = env or {}
        keys = frozenset(env)
        loc = {}
        get = lambda x: loc[x] if x in loc else self.memo[x]
        st = [c]
        while st:
            c = st[-1]
            m = loc if c.free & keys else self.memo
            if c in m:
                st.pop()
                continue
            if c.op == "const": m[c] = modp(c.a[0])
            elif c.op == "sym": m[c] = env[c.a[0]] if c.a[0] in env else self.env[c.a[0]]
            else:
                x, y = c.a
                todo = [z for z in (x, y) if z not in (loc if z.free & keys else self.memo)]
                if todo:
                    st.extend(todo)
                    continue
                x, y = get(x), get(y)
                m[c] = (x + y if c.op == "add" else x - y if c.op == "sub" else x * y if c.op == "mul" else x * inv(y)) % P
            st.pop()
        return get(c)


def inv(y):
    if y % P == 0: raise ZeroDivisionError("division by zero on every cell")
    return pow(y, -1, P)


def modp(f):
    f = Fraction(f)
    return f.numerator * pow(f.denominator, -1, P) % P


def degree(c, memo):
    """bounds of the degrees of numerator and denominator"""
    for x in topo([c]):
        if x in memo: continue
        if x.op in ("const", "sym"): memo[x] = (int(x.op == "sym"), 0)
        else:
            (a, b), (p, q) = memo[x.a[0]], memo[x.a[1]]
            if x.op in ("add", "sub"): memo[x] = (max(a + q, p + b), b + q)
            elif x.op == "mul": memo[x] = (a + p, b + q)
            else: memo[x] = (a + q, b + p)
    return memo[c]


def from_expr(e, memo):
    """circuit of a sympy / symengine expression"""
    st = [e]
    while st:
        e = st[-1]
        if e in memo:
            st.pop()
            continue
        if e.is_Number or getattr(e, "is_number", False) and not e.args:
            n, d = e.as_numer_denom()
            memo[e] = const(Fraction(int(n), int(d)))
        elif e.is_Symbol: memo[e] = Circ("sym", str(e))
        else:
            todo = [x for x in e.args if x not in memo]
            if todo:
                st.extend(todo)
                continue
            v = [memo[x] for x in e.args]
            if e.is_Add:
                r = v[0]
                for x in v[1:]: r = r + x
            elif e.is_Mul:
                r = v[0]
                for x in v[1:]: r = r * x
            elif e.is_Pow: r = v[0] ** v[1]
            else: raise ValueError(f"not a rational function: {type(e)}")
            memo[e] = r
        st.pop()
    return memo[e]


def rng(*key):
    import os
    return random.Random(repr((os.environ.get("VERIF_SEED", "1"),) + key))
