"""Helpers for writing contracts."""
import z3
from pyvc.values import *
from pyvc.verify import Contract, driver
from pyvc.engine import Choice, deref, wrapz, zi
from .schemas import *

I = z3.IntSort()


def attr(name):
    """target: read attribute/property `name` of the first argument (the repository's own property body runs)"""
    @driver
    def t(it, args, kw):
        public(args[0], name)
        return it.getattr(args[0], name)
    return t


def public(o, name):
    """a private function under contract may be renamed: then its contract has no subject"""
    if name.startswith("_") and isinstance(o, PObj) and not hasattr(o.cls, name) and name not in o.fields:
        raise Unsupported(f"{o.cls.__name__}.{name} no longer exists")


def meth(name):
    """target: call method `name` of the first argument"""
    @driver
    def t(it, args, kw):
        public(args[0], name)
        return it.call(it.getattr(args[0], name), list(args[1:]), kw)
    return t


def new(it, cls, **fields):
    return it.eng.new_obj(cls, fields)


def flat(n, f, kind="iter", var=None):
    """[*f(k) for k < n], f returns a list of values"""
    k = var if var is not None else fresh_int("k")
    return Seq([Flat(k, Dom(n=n), Seq([Elem(v) for v in f(k)]))], kind)


def shape_fun(name, ps, it, rank=None):
    """abstract shape (tuple of positive ints) depending on the parameters ps, of symbolic rank >= 0"""
    r = rank if rank is not None else ufun(name + "_rank", ps, I)(*ps)
    f = z3.Function(name, *[p.sort() for p in ps], I, I)
    rf = ufun(name + "_rank", ps, I)
    vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(ps)]
    x = z3.Int("x")
    it.eng.fact(z3.ForAll(vs + [x], f(*vs, x) >= 1, patterns=[f(*vs, x)]))
    if rank is None:
        if vs:
            it.eng.fact(z3.ForAll(vs, rf(*vs) >= 0, patterns=[rf(*vs)]))
        else:
            it.eng.fact(r >= 0)
    k = fresh_int("k")
    return Seq([Flat(k, Dom(n=r), Seq([Elem(SInt(f(*ps, k)))]))], "tuple")


def prod_of(it, shape):
    """z3 term of the product of an abstract shape"""
    e = it.eng
    t = z3.IntVal(1)
    for p in as_pieces(shape):
        if isinstance(p, Elem):
            t = t * zi(p.v)
        else:
            t = t * e.sum_over(p.var, p.dom, zi(p.body.pieces[0].v), "PROD")
    return t


def as_pieces(s):
    if isinstance(s, Seq):
        return s.pieces
    if isinstance(s, tuple):
        return [Elem(v) for v in s]
    return deref(s).seq.pieces


def opaque(name, *ps):
    return App(name, tuple(wrapz(p) for p in ps))


def raises(*excs):
    """the precondition's error case: only these exceptions, always"""
    def f(it, ctx, e):
        (it.eng.ok if e.exc in excs else lambda n: it.eng.fail(n, f"{e.exc.__name__}{e.eargs!r}"))(f"raises {'/'.join(x.__name__ for x in excs)}")
    return f


def must_raise(it, ctx, r):
    it.eng.prove(z3.BoolVal(False), "rejected with an error", f"returned {r!r}")
