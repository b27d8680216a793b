"""Interpreter of the Python subset over symbolic values; loops over symbolic sequences are summarised.

Loop rules (each is an inductive invariant synthesised from one generic iteration):
  overwrite   a location written before being read in every iteration
  accumulate  lists extended / integers incremented by an amount independent of the loop-carried value
  footprint   dictionaries touched only at the key equal to the loop variable
  array       list cells assigned at an index that is an injective linear function of the loop variable
"""
import itertools
import os
import ast
import builtins
import functools
import inspect
import operator
import sys
import textwrap
import types
import z3
import numpy

from .values import *
from .engine import (Engine, Choice, Infeasible, deref, wrapz, num_kind, zi, zr, zb, as_seq, solve_for, conjuncts,
                     linear_coeff, split_flat)

REPO_PREFIX = (os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/",)
SPEC_PREFIX = (os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep,)


class Env:
    __slots__ = ("parent", "vars", "eng", "serial", "isfun", "nonlocals")
    def __init__(self, parent=None, vars=None, eng=None, isfun=False):
        self.parent, self.vars, self.eng, self.isfun = parent, vars if vars is not None else {}, eng, isfun
        self.nonlocals = ()
        if eng is not None:
            eng.serial += 1
            self.serial = eng.serial
        else:
            self.serial = 0


class _Missing:
    pass


MISSING = _Missing()


class Poison(Substitutable):
    """value of a variable that is not determined after a summarised loop"""
    def __init__(self, why): self.why = why
    def subst(self, f): return self
    def parts(self): return []


class ReturnSig(Exception):
    def __init__(self, v): self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


_src_cache = {}


def func_ast(pyfunc):
    """AST of a Python function, read from the file on disk"""
    code = pyfunc.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _src_cache:
        return _src_cache[key]
    tree = _file_tree(code.co_filename)
    best = None
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            ln = node.lineno
            if isinstance(node, ast.FunctionDef):
                first = min([ln] + [d.lineno for d in node.decorator_list])
                if node.name == code.co_name and first == code.co_firstlineno:
                    best = node
                    break
            elif code.co_name == "<lambda>" and ln == code.co_firstlineno:
                if best is None:
                    best = node
                else:
                    raise Unsupported("several lambdas on one line")
    if best is None:
        raise Unsupported(f"no source for {pyfunc}")
    _src_cache[key] = best
    return best


_trees = {}


def _file_tree(fn):
    if fn not in _trees:
        _trees[fn] = ast.parse(open(fn).read(), fn)
    return _trees[fn]


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.Div: "/",
          ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
NATIVE_BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
              "**": operator.pow, "/": operator.truediv, "@": operator.matmul, "|": operator.or_, "&": operator.and_,
              "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift}
MUTATORS = {"append", "extend", "insert", "pop", "update", "setdefault", "remove", "clear", "sort", "reverse"}


class Interp:
    def __init__(self, eng, models=None, contracts=None, repo_prefix=REPO_PREFIX):
        from . import models as M
        from . import gemmodel      # noqa: F401 (registers the GEM contracts)
        self.eng = eng
        eng.interp = self
        from .ndarray import CURRENT
        CURRENT[0] = self
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.contracts = contracts or {}     # python function -> handler(interp, args, kw)
        self.methods = M.METHODS
        self.prefix = repo_prefix + SPEC_PREFIX
        self.covered = set()
        self.inline = set()         # functions of dependencies whose source is verified as well (instead of being assumed)
        self.depth = 0
        self.assert_raises = False      # contracts that describe exceptions: a failing assert is a path, not an obligation
        self.trace_calls = set()

    # ------------------------------------------------------------------ calling
    def wrap_func(self, pyfunc):
        node = func_ast(pyfunc)
        env = None
        if pyfunc.__closure__:
            env = Env(None, {n: c.cell_contents for n, c in zip(pyfunc.__code__.co_freevars, pyfunc.__closure__)
                             if _has(c)})
        defcls = env.vars.get("__class__") if env else None
        return Func(node, env, pyfunc.__globals__, pyfunc.__qualname__, pyfunc.__defaults__ or (), pyfunc.__kwdefaults__ or {},
                    defcls, pyfunc)

    def is_repo(self, pyfunc):
        try:
            return pyfunc.__code__.co_filename.startswith(self.prefix) or pyfunc in self.inline
        except AttributeError:
            return False

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        f = self.eng.force(deref(f))
        if isinstance(f, Model):
            return f.f(self, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + args, kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + args, {**f.kw, **kw})
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kw})
        if isinstance(f, Obj):
            if f.schema.call is None:
                return App(("call", f.name), (f, *args), kw)
            return f.schema.call(self, f, args, kw)
        if isinstance(f, App):
            return App("call", [f] + args, kw)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Substitutable) and hasattr(f, "sym_call"):
            return f.sym_call(self, args, kw)
        # native callables
        tc = getattr(type(f), "__call__", None)
        if isinstance(tc, types.FunctionType) and self.is_repo(tc) and not isinstance(f, type):
            return self.call(tc, [f] + args, kw)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if fn in self.contracts or self.is_repo(fn):
                return self.call(fn, [f.__self__] + args, kw)
        if isinstance(f, types.FunctionType):
            w = getattr(f, "__wrapped__", None)
            if f in self.contracts:
                self.trace_calls.add(f.__qualname__)
                return self.contracts[f](self, args, kw)
            if hasattr(f, "registry") and hasattr(f, "dispatch"):
                return self.call_singledispatch(f, args, kw)
            if self.is_repo(f):
                return self.call_func(self.wrap_func(f), args, kw)
        if isinstance(f, functools._lru_cache_wrapper) and self.is_repo(f.__wrapped__):
            return self.call(f.__wrapped__, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, operator.methodcaller):
            rd = f.__reduce__()
            if isinstance(rd[0], functools.partial):
                nm, margs, mkw = rd[0].args[0], rd[1], rd[0].keywords
            else:
                nm, margs, mkw = rd[1][0], rd[1][1:], {}
            return self.call(self.getattr(args[0], nm), list(margs), dict(mkw))
        if isinstance(f, operator.attrgetter):
            nm = f.__reduce__()[1][0]
            v = args[0]
            for p in nm.split("."):
                v = self.getattr(v, p)
            return v
        if isinstance(f, operator.itemgetter):
            its = f.__reduce__()[1]
            if len(its) == 1:
                return self.getitem(args[0], its[0])
            return tuple(self.getitem(args[0], i) for i in its)
        if isinstance(f, types.MethodDescriptorType) and args and not isinstance(args[0], Star):
            # str.format(s, ...), list.append(l, x), ...: the method of the first argument
            key = (f.__objclass__.__name__, f.__name__)
            if key in self.methods and self.type_of(args[0]) is f.__objclass__:
                return self.methods[key](self, args, kw)
        return self.native_call(f, args, kw)

    def native_call(self, f, args, kw):
        try:
            a = [self.concretize(x) for x in args]
            k = {n: self.concretize(x) for n, x in kw.items()}
        except NotConcrete:
            return self.app_call(f, args, kw)
        try:
            r = f(*a, **k)
        except Exception as e:
            raise PyRaise(type(e), e.args)
        return self.lift(r)

    def app_call(self, f, args, kw):
        name = getattr(f, "__qualname__", None) or repr(f)
        mod = getattr(f, "__module__", "") or ""
        if any(isinstance(a, (Func, Model)) for a in args):
            raise Unsupported(f"function argument to unmodelled {name}")
        self.eng.assumptions.add(f"library call {mod}.{name} is a pure function of its arguments")
        args = [Star(a.seq) if isinstance(a, Star) else deref(a) for a in args]
        return App(f"{mod}.{name}", [a.seq.as_kind("star") if isinstance(a, Star) else a for a in args], {k: deref(v) for k, v in kw.items()})

    def call_singledispatch(self, f, args, kw):
        cls = self.type_of(args[0])
        if cls is None:
            raise Unsupported("singledispatch on abstract object")
        impl = f.dispatch(cls)
        if impl in self.contracts:
            return self.contracts[impl](self, args, kw)
        if isinstance(impl, types.FunctionType):
            if self.is_repo(impl):
                return self.call_func(self.wrap_func(impl), args, kw)
        return self.native_call(impl, args, kw)

    def type_of(self, v):
        v = deref(v)
        if isinstance(v, PObj):
            return v.cls
        if isinstance(v, SInt):
            return int
        if isinstance(v, SReal):
            return float
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SStr):
            return str
        if isinstance(v, PList):
            return list
        if isinstance(v, PDict):
            return dict
        if isinstance(v, Seq):
            return {"tuple": tuple, "list": list, "range": range, "set": set, "frozenset": frozenset}.get(v.kind)
        if isinstance(v, Obj):
            return v.schema.cls[0] if v.schema.cls else None
        if isinstance(v, (App, SU, Choice, Poison)):
            return None
        if hasattr(v, "pytype"):
            return v.pytype()
        return type(v)

    def construct(self, cls, args, kw):
        if cls is dict or cls is list:
            pass
        mod = sys.modules.get(cls.__module__)
        fn = getattr(mod, "__file__", "") or ""
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if not fn.startswith(self.prefix):
            return self.native_call(cls, args, kw)
        new = cls.__new__
        if isinstance(new, types.FunctionType) and self.is_repo(new):
            obj = self.call_func(self.wrap_func(new), [cls] + args, kw)
        else:
            obj = self.eng.new_obj(cls)
        if isinstance(obj, PObj) and issubclass(obj.cls, cls) and obj.cls is cls or isinstance(obj, PObj) and issubclass(obj.cls, cls):
            init = obj.cls.__init__
            if isinstance(init, types.FunctionType):
                if init in self.contracts:
                    self.contracts[init](self, [obj] + args, kw)
                elif self.is_repo(init):
                    self.call_func(self.wrap_func(init), [obj] + args, kw)
                else:
                    raise Unsupported(f"external __init__ {init.__qualname__}")
        return obj

    def bind(self, f, args, kw):
        a = f.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        pos = []
        rest_star = None
        for x in args:
            if isinstance(x, Star):
                rest_star = x.seq
                continue
            if rest_star is not None:
                raise Unsupported("positional after symbolic star")
            pos.append(x)
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
        extra = pos[len(params):]
        if a.vararg:
            if rest_star is not None:
                env[a.vararg.arg] = Seq([Elem(x) for x in extra] + list(rest_star.pieces), "tuple")
            else:
                env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise(TypeError, (f"too many positional arguments for {f.name}",))
        elif rest_star is not None:
            raise Unsupported("symbolic star into fixed parameters")
        for p in params:
            if p in kw:
                if p in env:
                    raise PyRaise(TypeError, (f"multiple values for {p}",))
                env[p] = kw.pop(p)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j < 0:
                    raise PyRaise(TypeError, (f"missing argument {p} of {f.name}",))
                env[p] = self.lift(f.defaults[j])
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = self.lift(f.kwdefaults[p.arg])
            else:
                raise PyRaise(TypeError, (f"missing keyword argument {p.arg}",))
        if a.kwarg:
            env[a.kwarg.arg] = self.eng.new_dict(Seq([Elem((k, v)) for k, v in kw.items()]))
        elif kw:
            raise PyRaise(TypeError, (f"unexpected keyword {list(kw)} for {f.name}",))
        return env

    def call_func(self, f, args, kw):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        env = Env(f.closure, self.bind(f, args, kw), self.eng, True)
        if f.pyfunc is not None:
            self.covered.add(f"{f.pyfunc.__module__}.{f.pyfunc.__qualname__}")
        fr = Frame(self, f, env)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return fr.ev(f.node.body, env)
            if is_generator(f.node):
                out = self.eng.new_list(Seq())
                fr.yields = out
                try:
                    fr.block(f.node.body, env)
                except ReturnSig:
                    pass
                return out.seq.as_kind("iter")
            try:
                fr.block(f.node.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------ concrete <-> interpreted
    def lift(self, v):
        return v

    def concretize(self, v):
        v = deref(v)
        if isinstance(v, (SInt, SReal, SBool)):
            s = z3.simplify(v.e)
            if z3.is_int_value(s):
                return s.as_long()
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            raise NotConcrete(v)
        if isinstance(v, (SU, Obj, App, Func, Model, Poison, Rho, Star, SStr, Partial, Choice, Bound)):
            raise NotConcrete(v)
        if isinstance(v, Substitutable):
            raise NotConcrete(v)
        if isinstance(v, PList):
            return self.concretize(v.seq.as_kind("list"))
        if isinstance(v, Seq):
            s = self.eng.norm(v)
            if not s.concrete:
                raise NotConcrete(v)
            vals = [self.concretize(x) for x in s.items()]
            if s.kind in ("list",):
                return vals
            if s.kind == "array":
                return numpy.array(vals)
            if s.kind in ("set", "frozenset"):
                try:
                    return {"set": set, "frozenset": frozenset}[s.kind](vals)
                except TypeError as e:
                    raise PyRaise(TypeError, e.args)
            if s.kind == "iter":
                return vals
            return tuple(vals)
        if isinstance(v, PDict):
            s = self.eng.norm(v.items)
            if not s.concrete:
                raise NotConcrete(v)
            return {self.concretize(k): self.concretize(x) for k, x in s.items()}
        if isinstance(v, PObj):
            raise NotConcrete(v)
        if isinstance(v, tuple):
            return tuple(self.concretize(x) for x in v)
        if isinstance(v, list):
            return [self.concretize(x) for x in v]
        if isinstance(v, ExcVal):
            return v.cls(*v.args)
        return v

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o0 = o
        o = self.eng.force(deref(o))
        if isinstance(o, PObj):
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return o.cls
            ga = getattr(o.cls, "__getattr__", None)
            try:
                for c in o.cls.__mro__:
                    if name in c.__dict__:
                        return self.bind_attr(c.__dict__[name], o, c, name)
                raise PyRaise(AttributeError, (name,))
            except PyRaise as e:
                if issubclass(e.exc, AttributeError) and isinstance(ga, types.FunctionType) and self.is_repo(ga):
                    return self.call_func(self.wrap_func(ga), [o, name], {})
                raise
        if isinstance(o, Obj):
            if name in o.schema.attrs:
                a = o.schema.attrs[name]
                key = name
                if key not in o.attrcache:
                    o.attrcache[key] = a(self, o)
                return o.attrcache[key]
            for c in o.schema.cls:
                for k in c.__mro__:
                    if name in k.__dict__:
                        d = k.__dict__[name]
                        if isinstance(d, types.FunctionType) or isinstance(d, (property, functools.cached_property)) or hasattr(d, "func"):
                            return self.bind_attr(d, o, k, name)
            if name in getattr(o.schema, "missing", ()):
                raise PyRaise(AttributeError, (name,))
            if getattr(o.schema, "opaque_attrs", False):
                return App("attr:" + name, (o,))
            raise Unsupported(f"attribute {name} of abstract {o!r}")
        if isinstance(o, App):
            return App("attr:" + name, (o,))
        if isinstance(o, Super):
            mro = o.objcls.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    if name == "__new__":
                        return Model(lambda it, a, k: it.eng.new_obj(a[0]), "object.__new__")
                    d = c.__dict__[name]
                    if name == "__init__" and c is object:
                        return Model(lambda it, a, k: None, "object.__init__")
                    return self.bind_attr(d, o.obj, c, name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Substitutable) and hasattr(o, "sym_getattr"):
            return o.sym_getattr(self, name)
        if isinstance(o, Partial) and name in ("func", "args", "keywords"):
            return {"func": o.func, "args": o.args, "keywords": o.kw}[name]
        if isinstance(o, Func) and name == "__name__":
            return o.name
        t = self.type_of(o)
        if isinstance(o, (PList, PDict, Seq, SInt, SReal, SBool, SStr, SU, tuple, str, dict, list, LRef)) and not isinstance(o, type):
            kinds = []
            if isinstance(o, (PDict, dict)): kinds.append("dict")
            if isinstance(o, (PList, list)): kinds.append("list")
            if isinstance(o, Seq): kinds += [o.kind, "seq"]
            if isinstance(o, tuple): kinds += ["tuple", "seq"]
            if isinstance(o, (str, SStr)): kinds.append("str")
            if isinstance(o, (SInt,)): kinds.append("int")
            for k in kinds:
                m = self.methods.get((k, name))
                if m is not None:
                    return Model(lambda it, a, kw, m=m, o=(LRefView(o0.it, o0.root, o0.path) if isinstance(o0, LRef) else o): m(it, [o] + a, kw), f"{k}.{name}")
        if isinstance(o, Seq) and o.kind == "array":
            from .ndarray import NArr
            return NArr.from_seq(self, o).sym_getattr(self, name)
        if isinstance(o, SBool) and name in ("all", "any"):
            return Model(lambda it, a, kw: o, "truth value." + name)       # an array without axes
        if isinstance(o, (PList, PDict, Seq, SInt, SReal, SBool, SU, SStr)):
            try:
                c = self.concretize(o)
            except NotConcrete:
                raise Unsupported(f"attribute {name} of {o!r}")
            return self.lift(getattr(c, name))
        if isinstance(o, type):
            mod = sys.modules.get(o.__module__)
        try:
            r = inspect.getattr_static(o, name) if not isinstance(o, (type, types.ModuleType)) else None
        except AttributeError:
            r = None
        if isinstance(r, property) and r.fget is not None and self.is_repo(r.fget):
            return self.call_func(self.wrap_func(r.fget), [o], {})
        try:
            return self.lift(getattr(o, name))
        except AttributeError as e:
            raise PyRaise(AttributeError, e.args)

    def bind_attr(self, d, o, c, name):
        if isinstance(d, property):
            f = d.fget
            if f in self.contracts:
                return self.contracts[f](self, [o], {})
            return self.call_func(self.wrap_func(f), [o], {})
        if isinstance(d, types.FunctionType):
            if name == "__new__":
                return d
            return Bound(d, o)
        if isinstance(d, classmethod):
            return Bound(d.__func__, o.cls if isinstance(o, PObj) else type(o))
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, functools.cached_property) or (hasattr(d, "func") and hasattr(d, "__get__")):
            f = d.func
            if f in self.contracts:
                v = self.contracts[f](self, [o], {})
            else:
                v = self.call_func(self.wrap_func(f), [o], {})
            if isinstance(o, PObj):
                o.set(name, v, "memo")
            return v
        if hasattr(d, "__get__") and hasattr(d, "dispatcher"):
            raise Unsupported("singledispatchmethod")
        if hasattr(d, "fget"):
            return self.call_func(self.wrap_func(d.fget), [o], {})
        if isinstance(d, types.MemberDescriptorType) and isinstance(o, PObj):
            raise PyRaise(AttributeError, (name,))          # a slot without a value
        if isinstance(d, types.GetSetDescriptorType) or isinstance(d, types.MemberDescriptorType):
            raise Unsupported(f"descriptor {name}")
        return self.lift(d)

    def setattr(self, o, name, v):
        o = self.eng.force(deref(o))
        if isinstance(o, PObj):
            for c in o.cls.__mro__:
                if name in c.__dict__:
                    p = c.__dict__[name]
                    if isinstance(p, property):
                        if p.fset is None:
                            raise PyRaise(AttributeError, (name,))
                        self.call(p.fset, [o, v])
                        return
                    break
            o.set(name, v)
            return
        if isinstance(o, Substitutable) and hasattr(o, "sym_setattr"):
            return o.sym_setattr(self, name, v)
        raise Unsupported(f"attribute assignment on {o!r}")

    def isinstance(self, v, c):
        v = self.eng.force(deref(v))
        if isinstance(c, tuple):
            rs = [self.isinstance(v, x) for x in c]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return SBool(z3.Or(*[zb(r) for r in rs]))
        cs = as_seq(c)
        if cs is not None:
            return self.isinstance(v, tuple(cs.items()))
        if isinstance(v, Obj):
            for k in v.schema.cls:
                if issubclass(k, c):
                    return True
            for k in v.schema.notcls:
                if issubclass(c, k):
                    return False
            h = getattr(v.schema, "isinstance", None)
            if h is not None:
                return h(self, v, c)
            raise Unsupported(f"isinstance({v!r}, {c})")
        if isinstance(v, (Func, Model, Bound, Partial)):
            return c in (types.FunctionType, object) or c.__name__ == "Callable"
        if isinstance(v, ExcVal):
            return issubclass(v.cls, c)
        t = self.type_of(v)
        if t is None:
            if isinstance(v, Seq):
                return False if isinstance(c, type) and not issubclass(c, (list, tuple, dict, set)) else _unsup(f"isinstance({v}, {c})")
            if isinstance(v, SU):
                h = getattr(self, "su_isinstance", None)
                if h is not None:
                    return h(v, c)
            raise Unsupported(f"isinstance({v!r}, {c})")
        return issubclass(t, c)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        v = self.eng.force(deref(v))
        if isinstance(v, SBool):
            return self.eng.branch(v.e)
        if isinstance(v, SInt):
            return self.eng.branch(v.e != 0)
        if isinstance(v, (PList, Seq)):
            s = as_seq(v)
            return self.eng.branch(self.eng.seq_len(s) > 0)
        if isinstance(v, PDict):
            return self.eng.branch(self.eng.seq_len(v.items) > 0)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Unsupported("truth of symbolic string")
        if isinstance(v, (Obj, PObj)):
            cls = self.type_of(v)
            for c in (cls.__mro__ if cls else ()):
                if "__bool__" in c.__dict__:
                    return self.truth(self.call(c.__dict__["__bool__"], [v]))
                if "__len__" in c.__dict__:
                    return self.truth(self.call(c.__dict__["__len__"], [v]))
            return True
        if isinstance(v, (App, SU, SReal, Poison)):
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, (Func, Model, Bound, Partial)):
            return True
        if isinstance(v, Substitutable):
            if hasattr(v, "sym_truth"):
                return v.sym_truth(self)
            return True
        try:
            return bool(v)
        except Exception as e:
            raise PyRaise(type(e), e.args)

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b, inplace=False):
        a, b = self.eng.force(a), self.eng.force(b)
        if inplace and op == "+":
            if isinstance(a, LRef) and isinstance(deref(a), PList):
                a.put(PList(self.eng, deref(a).seq + self.iter_seq(b)))
                return a
            if isinstance(a, PList):
                a.set(a.seq + self.iter_seq(b))
                return a
        a, b = deref(a), deref(b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        for x, y, m in ((a, b, "sym_binop"), (b, a, "sym_rbinop")):
            if isinstance(x, Substitutable) and hasattr(x, m):
                r = getattr(x, m)(self, op, y)
                if r is not NotImplemented:
                    return r
        ka, kb = num_kind(a), num_kind(b)
        sa, sb = as_seq(a), as_seq(b)
        if isinstance(a, numpy.ndarray) and sb is not None and isinstance(b, Seq) and b.kind == "array":
            sa, a = Seq([Elem(x) for x in a], "array"), Seq([Elem(x) for x in a], "array")
        if (isinstance(a, Seq) and a.kind == "array") or (isinstance(b, Seq) and b.kind == "array"):
            return self.array_op(op, a, b)
        if sa is not None and sb is not None and op == "+":
            k = "list" if isinstance(a, (PList, list)) else "tuple"
            s = Seq(sa.pieces + sb.pieces, k)
            return self.mk(s, k)
        if op == "*" and (sa is not None and kb == "int" or sb is not None and ka == "int"):
            s, n = (sa, b) if sa is not None else (sb, a)
            src = a if sa is not None else b
            k = "list" if isinstance(src, (PList, list)) else "tuple"
            v = fresh_int()
            if isinstance(n, int):
                return self.mk(Seq(s.pieces * max(n, 0), k), k)
            if not self.eng.entails(zi(n) >= 0):
                nn = z3.If(zi(n) > 0, zi(n), 0)
            else:
                nn = zi(n)
            return self.mk(Seq([Flat(v, Dom(n=nn), s)], k), k)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if op == "+":
                return self.mkstr([a, b])
            if op == "%":
                return self.strformat(a, b)
        if ka and kb and not (isinstance(a, (int, float, numpy.number)) and isinstance(b, (int, float, numpy.number))):
            if ka == "u" or kb == "u":
                raise Unsupported(f"arithmetic on opaque value {a} {op} {b}")
            if ka == "real" or kb == "real" or op == "/":
                x, y = zr(a), zr(b)
                if op == "+": return SReal(x + y)
                if op == "-": return SReal(x - y)
                if op == "*": return SReal(x * y)
                if op == "/": return SReal(x / y)
                if op == "**" and isinstance(b, int):
                    if b >= 0:
                        r = z3.RealVal(1)
                        for _ in range(b):
                            r = r * x
                        return SReal(r)
                    r = z3.RealVal(1)
                    for _ in range(-b):
                        r = r * x
                    return SReal(z3.RealVal(1) / r)
                raise Unsupported(f"real op {op}")
            x, y = zi(a), zi(b)
            if op == "+": return SInt(z3.simplify(x + y))
            if op == "-": return SInt(z3.simplify(x - y))
            if op == "*": return SInt(z3.simplify(x * y))
            if op in ("//", "%"):
                # Python floor semantics; z3 div/mod agree for positive divisors
                if self.eng.entails(y > 0):
                    return SInt(x / y if op == "//" else x % y)
                if self.eng.entails(y == 0):
                    raise PyRaise(ZeroDivisionError)
                raise Unsupported("division by a divisor not known to be positive")
            if op == "**":
                if isinstance(b, int) and b >= 0:
                    r = z3.IntVal(1)
                    for _ in range(b):
                        r = r * x
                    return SInt(r)
                if isinstance(a, int) and a > 0:
                    f = z3.Function(f"pow_{a}", z3.IntSort(), z3.IntSort())
                    t = f(y)
                    self.eng.fact(z3.Implies(y == 0, t == 1))
                    self.eng.fact(z3.Implies(y >= 1, t == a * f(y - 1)))
                    self.eng.fact(z3.Implies(y >= 0, t >= 1))
                    return SInt(t)
            raise Unsupported(f"int op {op}")
        for x, y, nm in ((a, b, _DUNDER.get(op)), (b, a, _RDUNDER.get(op))):
            cls = x.cls if isinstance(x, PObj) else None
            if cls is not None and nm and hasattr(cls, nm):
                return self.call(self.getattr(x, nm), [y])
        if isinstance(a, (App, Obj, SU)) or isinstance(b, (App, Obj, SU)):
            return App("op:" + op, (a, b))
        if op == "|" and isinstance(a, PDict):
            d = self.eng.new_dict(a.items)
            self.methods[("dict", "update")](self, [d, b], {})
            return d
        if sa is not None and sb is not None and op == "-" and isinstance(a, Seq):
            return self.models[("setop", "-")](self, [a, b], {})
        try:
            ca, cb = self.concretize(a), self.concretize(b)
        except NotConcrete:
            raise Unsupported(f"{a!r} {op} {b!r}")
        try:
            return self.lift(NATIVE_BIN[op](ca, cb))
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def array_op(self, op, a, b):
        """elementwise arithmetic of 1-d symbolic arrays"""
        sa = as_seq(a) if not isinstance(a, numpy.ndarray) else Seq([Elem(x) for x in a], "array")
        sb = as_seq(b) if not isinstance(b, numpy.ndarray) else Seq([Elem(x) for x in b], "array")
        if sa is not None and sb is not None:
            pairs = self.zip_seqs([sa, sb])
            s = self.map_seq(lambda t: self.binop(op, t[0], t[1]), pairs)
        elif sa is not None:
            s = self.map_seq(lambda x: self.binop(op, x, b), sa)
        else:
            s = self.map_seq(lambda x: self.binop(op, a, x), sb)
        return s.as_kind("array")

    def unop(self, op, a):
        a = self.eng.force(deref(a))
        if isinstance(op, ast.Not):
            if isinstance(a, SBool):
                return SBool(z3.Not(a.e))
            return not self.truth(a)
        if isinstance(op, ast.USub):
            if isinstance(a, SInt): return SInt(z3.simplify(-a.e))
            if isinstance(a, SReal): return SReal(-a.e)
            if isinstance(a, Substitutable) and hasattr(a, "sym_neg"):
                return a.sym_neg(self)
            if isinstance(a, (App, Obj)):
                return App("op:neg", (a,))
            return -self.concretize(a)
        if isinstance(op, ast.UAdd):
            return a
        if isinstance(op, ast.Invert):
            return ~self.concretize(a)
        raise Unsupported("unary op")

    def compare(self, op, a, b):
        a, b = self.eng.force(deref(a)), self.eng.force(deref(b))
        t = type(op)
        if t is ast.Is:
            if a is b:
                return True
            if a is None or b is None:
                return self.is_none(b if a is None else a)
            if isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
                return a is b
            if isinstance(a, Obj) and isinstance(b, Obj) and a.name == b.name and all(_same(x, y) for x, y in zip(a.params, b.params)):
                return True
            if isinstance(a, PObj) and isinstance(b, PObj):
                return a is b
            if isinstance(a, App) and repr(a) == repr(b):
                return True
            for x, y in ((a, b), (b, a)):
                if type(x) is object and (y is None or isinstance(y, (Obj, PObj))):
                    return False        # a sentinel of the module is no element
            raise Unsupported(f"{a!r} is {b!r}")
        if t is ast.IsNot:
            return not self.truth(self.compare(ast.Is(), a, b))
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if t is ast.NotIn:
                return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r
            return r
        if t in (ast.Eq, ast.NotEq):
            r = self.eq(a, b)
            if t is ast.NotEq:
                return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r
            return r
        ka, kb = num_kind(a), num_kind(b)
        if ka and kb and ka != "u" and kb != "u":
            if isinstance(a, (int, float, numpy.number)) and isinstance(b, (int, float, numpy.number)):
                return bool({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t])
            if "real" in (ka, kb):
                if isinstance(a, float) and a in (float("inf"), float("-inf")) or isinstance(b, float) and b in (float("inf"), float("-inf")):
                    x, y = (a if isinstance(a, float) else 0.0), (b if isinstance(b, float) else 0.0)
                    return bool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
                x, y = zr(a), zr(b)
            else:
                x, y = zi(a), zi(b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])
        for x, y in ((a, kb), (b, ka)):
            if isinstance(x, Seq) and x.kind == "array" and y in ("int", "real"):
                xs = self.eng.norm(x)
                if xs.concrete:
                    return BoolArr([self.compare(op, v, b) if x is a else self.compare(op, a, v) for v in xs.items()])
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None:
            sa, sb = self.eng.norm(sa), self.eng.norm(sb)
            if sa.concrete and sb.concrete:
                return self.lex(t, sa.items(), sb.items())
        if isinstance(a, PObj) or isinstance(b, PObj):
            nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[t]
            if isinstance(a, PObj) and hasattr(a.cls, nm) and getattr(a.cls, nm) is not getattr(object, nm):
                return self.call(self.getattr(a, nm), [b])
        if all(isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], App) and x.parts[0].fn == "text" for x in (a, b)):
            f = z3.Function("text_before", U, U, z3.BoolSort())
            u, v = a.parts[0].args[0].e, b.parts[0].args[0].e
            self.eng.fact(z3.And(z3.Not(z3.And(f(u, v), f(v, u))), z3.Or(f(u, v), f(v, u), u == v), z3.Implies(u == v, z3.Not(f(u, v)))))
            return SBool({ast.Lt: f(u, v), ast.Gt: f(v, u), ast.LtE: z3.Not(f(v, u)), ast.GtE: z3.Not(f(u, v))}[t])
        try:
            ca, cb = self.concretize(a), self.concretize(b)
        except NotConcrete:
            if (a is None and isinstance(b, (SInt, SReal))) or (b is None and isinstance(a, (SInt, SReal))):
                raise PyRaise(TypeError, ("ordering of None and a number",))
            raise Unsupported(f"compare {a!r} {t.__name__} {b!r}")
        try:
            r = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t](ca, cb)
        except Exception as e:
            raise PyRaise(type(e), e.args)
        return r

    def lex(self, t, x, y):
        if not x or not y:
            lx, ly = len(x), len(y)
            return {ast.Lt: lx < ly, ast.LtE: lx <= ly, ast.Gt: lx > ly, ast.GtE: lx >= ly}[t]
        e = self.eq(x[0], y[0])
        if self.truth(e):
            return self.lex(t, x[1:], y[1:])
        strict = {ast.Lt: ast.Lt(), ast.LtE: ast.Lt(), ast.Gt: ast.Gt(), ast.GtE: ast.Gt()}[t]
        return self.compare(strict, x[0], y[0])

    def is_none(self, v):
        if isinstance(v, Obj):
            h = getattr(v.schema, "maybe_none", None)
            return h(self, v) if h else False
        if isinstance(v, App):
            raise Unsupported(f"{v!r} is None")
        return v is None

    def eq(self, a, b):
        a, b = self.eng.force(deref(a)), self.eng.force(deref(b))
        if a is b:
            return True
        if isinstance(a, Substitutable) and hasattr(a, "sym_eq"):
            return a.sym_eq(self, b)
        if isinstance(b, Substitutable) and hasattr(b, "sym_eq"):
            return b.sym_eq(self, a)
        if isinstance(a, PObj) or isinstance(b, PObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PObj) and x.cls.__eq__ is not object.__eq__:
                    f = x.cls.__eq__
                    if isinstance(f, types.FunctionType):
                        return self.call(f, [x, y])
            return a is b
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Obj):
                return self.is_none(o)
            return False if not isinstance(o, (App, SU)) else _unsup(f"{o!r} == None")
        if isinstance(a, (PDict, dict)) and isinstance(b, (PDict, dict)):
            return self.dict_eq(a, b)
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None:
            if self.kind_of(a) != self.kind_of(b) and None not in (self.kind_of(a), self.kind_of(b)):
                return False
            sa, sb = self.eng.norm(sa), self.eng.norm(sb)
            if sa.concrete and sb.concrete:
                if len(sa.pieces) != len(sb.pieces):
                    return False
                cs = []
                for x, y in zip(sa.items(), sb.items()):
                    e = self.eq(x, y)
                    if e is False:
                        return False
                    if e is not True:
                        cs.append(zb(e))
                return SBool(z3.And(*cs)) if cs else True
            return self.seq_eq_formula(sa, sb)
        if (sa is None) != (sb is None) and not isinstance(a, (App, SU)) and not isinstance(b, (App, SU)):
            return False
        if isinstance(a, SStr) or isinstance(b, SStr):
            return self.str_eq(a, b)
        try:
            e = self.eng.key_eq(a, b)
        except NotConcrete:
            raise Unsupported(f"{a!r} == {b!r}")
        return e if isinstance(e, bool) else SBool(e)

    @staticmethod
    def kind_of(v):
        if isinstance(v, PList) or isinstance(v, list):
            return "list"
        if isinstance(v, tuple):
            return "tuple"
        return v.kind if isinstance(v, Seq) and v.kind in ("list", "tuple") else None

    def dict_eq(self, a, b):
        xs, ys = self.eng.norm(self.eng.dict_items(a)), self.eng.norm(self.eng.dict_items(b))
        if not (xs.concrete and ys.concrete):
            if self.surely_equal(a, b):
                return True
            raise Unsupported("equality of dictionaries with symbolic keys")
        ys = list(ys.items())
        xs = list(xs.items())
        if len(xs) != len(ys):
            return False
        cs = []
        for k, v in xs:
            hit = [w for k2, w in ys if self.eq(k, k2) is True]
            if len(hit) != 1:
                if all(self.eq(k, k2) is False for k2, _ in ys):
                    return False
                raise Unsupported("equality of dictionaries with symbolic keys")
            e = self.eq(v, hit[0])
            if e is False:
                return False
            if e is not True:
                cs.append(zb(e))
        return SBool(z3.And(*cs)) if cs else True

    def char_in(self, x, s):
        """single character in a symbolic string. Names ("text") consist of characters other than quotes, backslashes and line breaks"""
        if any(isinstance(p, str) and x in p for p in s.parts):
            return True
        for p in s.parts:
            if isinstance(p, str): continue
            if isinstance(p, App) and p.fn in ("text", "represented") and x in "\"\\\n": continue
            if isinstance(p, App) and p.fn == "text" and x == "'": continue
            if isinstance(p, App) and p.fn == "str" and isinstance(p.args[0], SInt) and x not in "-0123456789": continue
            raise Unsupported(f"{x!r} in {s!r}")
        return False

    def str_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], App) and x.parts[0].fn in ("text", "represented"):
                u = x.parts[0].args[0]
                if isinstance(y, str):
                    return SBool(u.e == self.eng.to_u(y)) if x.parts[0].fn == "text" else self._str_eq(a, b)
                if isinstance(y, SStr) and len(y.parts) == 1 and isinstance(y.parts[0], App) and y.parts[0].fn == x.parts[0].fn and x.parts[0].fn == "text":
                    return SBool(u.e == y.parts[0].args[0].e)
        return self._str_eq(a, b)

    def _str_eq(self, a, b):
        pa = a.parts if isinstance(a, SStr) else (a,)
        pb = b.parts if isinstance(b, SStr) else (b,)
        if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
            return False
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
            if all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
                if len(pa) == 1:
                    return self.eq(pa[0], pb[0])
                cs = [self.eq(x, y) for x, y in zip(pa, pb) if not isinstance(x, str)]
                if all(c is True for c in cs):
                    return True
        raise Unsupported("string equality")

    def surely_equal(self, a, b):
        """True only if the equality is provable here"""
        e = self.eng
        n = len(e.obligations)
        try:
            r = e.equal(a.as_kind("tuple") if isinstance(a, Seq) else a, b.as_kind("tuple") if isinstance(b, Seq) else b, "trial")
            return bool(r) and all(o.status == "discharged" for o in e.obligations[n:])
        except Unsupported:
            return False
        finally:
            del e.obligations[n:]

    def seq_eq_formula(self, sa, sb):
        e = self.eng
        if len(sa.pieces) == len(sb.pieces) == 1 and isinstance(sa.pieces[0], Flat) and isinstance(sb.pieces[0], Flat):
            x, y = sa.pieces[0], sb.pieces[0]
            if x.dom.keys is None and y.dom.keys is None and len(x.body.pieces) == 1 == len(y.body.pieces) \
                    and isinstance(x.body.pieces[0], Elem) and isinstance(y.body.pieces[0], Elem):
                v = fresh_int("q")
                c = self.formula(lambda: self.eq(subst(x.body.pieces[0].v, [(x.var, v)]), subst(y.body.pieces[0].v, [(y.var, v)])),
                                 [v >= 0, v < x.dom.n, v < y.dom.n])
                return SBool(z3.And(x.dom.n == y.dom.n, z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < x.dom.n), c))))
        la, lb = e.seq_len(sa), e.seq_len(sb)
        if e.entails(la != lb):
            return False
        if len(sa.pieces) == len(sb.pieces) > 1 and all(e.entails(e.piece_len(x) == e.piece_len(y)) for x, y in zip(sa.pieces, sb.pieces)):
            # same length piece by piece
            cs = []
            for x, y in zip(sa.pieces, sb.pieces):
                if isinstance(x, Elem) and isinstance(y, Elem):
                    r = self.eq(x.v, y.v)
                else:
                    r = self.seq_eq_formula(Seq([x]), Seq([y]))
                if r is False:
                    return False
                if r is not True:
                    cs.append(zb(r))
            return SBool(z3.And(*cs)) if cs else True
        if e.entails(la == 0) and e.entails(lb == 0):
            return True
        for A, B, l in ((sa, sb, la), (sb, sa, lb)):
            if not A.pieces:
                return SBool(e.seq_len(B) == 0)
        if self.surely_equal(sa, sb):
            return True
        raise Unsupported(f"equality of symbolic sequences {sa} == {sb}")

    def contains(self, c, x):
        c0 = c
        c = self.eng.force(deref(c))
        if isinstance(c, PDict) or isinstance(c, dict):
            if isinstance(c0, LRef):
                self.log_access(c0.root, "r", *c0.path, x)
            else:
                self.log_access(c, "r", x)
            return self.dict_contains(c, x)
        if isinstance(c, Substitutable) and hasattr(c, "sym_contains"):
            return c.sym_contains(self, x)
        s = as_seq(c)
        if s is not None:
            s = self.eng.norm(s)
            cs = []
            for p in s.pieces:
                if isinstance(p, Elem):
                    e = self.eq(p.v, x)
                    if e is True:
                        return True
                    if e is not False:
                        cs.append(zb(e))
                elif isinstance(p, Flat):
                    if len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                        w = p.body.pieces[0].v
                        k = self.eng.match_key(p.var, w, x)
                        if k is False:
                            continue
                        if k is not None and k[1] is not None:
                            cs.append(z3.And(p.dom.constraint(k[1]), *[z3.substitute(q, (p.var, k[1])) for q in k[0]]))
                            continue
                        v = p.dom.fresh()
                        e = self.formula(lambda: self.eq(subst(w, [(p.var, v)]), x), [p.dom.constraint(v)])
                        cs.append(z3.Exists([v], z3.And(p.dom.constraint(v), e)))
                    else:
                        raise Unsupported("membership in nested sequence")
                else:
                    raise Unsupported("membership")
            if not cs:
                return False
            return SBool(z3.Or(*cs))
        if isinstance(c, (str,)) and isinstance(x, str):
            return x in c
        if isinstance(c, SStr) and isinstance(x, str) and len(x) == 1:
            return self.char_in(x, c)
        if isinstance(c, PObj) and hasattr(c.cls, "__contains__"):
            return self.call(self.getattr(c, "__contains__"), [x])
        if isinstance(c, (Obj, App, SU)):
            return App("op:in", (x, c))
        try:
            return self.concretize(x) in self.concretize(c)
        except NotConcrete:
            if isinstance(c, (set, frozenset)):
                return self.contains(tuple(c), x)
            try:
                return self.contains(tuple(c), x)
            except TypeError:
                raise Unsupported(f"{x!r} in {c!r}")

    def dict_contains(self, d, k):
        items = self.eng.norm(self.eng.dict_items(d))
        cs = []
        for p in items.pieces:
            if isinstance(p, Elem):
                e = self.eng.key_eq(p.v[0], k)
                if e is True:
                    return True
                if e is not False:
                    cs.append(e)
            elif isinstance(p, Flat):
                r = self.eng._lookup_flat(p, k)
                if r is None:
                    raise Unsupported(f"membership of {k!r} in {p}")
                g = z3.simplify(r[0])
                if z3.is_true(g):
                    return True
                if not z3.is_false(g):
                    cs.append(g)
            else:
                raise Unsupported("dict membership")
        if not cs:
            return False
        return SBool(z3.Or(*cs))

    # ------------------------------------------------------------------ access log
    def log_access(self, d, mode, *path):
        if self.eng.accesses is not None and isinstance(d, (PDict, PList)):
            self.eng.accesses.append((d, mode, path))

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        o = self.eng.force(o)
        if isinstance(o, LRef):
            inner = deref(o)
            if isinstance(inner, PDict):
                return self.dict_get(o, k)
            o = inner
        k = self.eng.force(deref(k))
        if isinstance(o, PDict):
            return self.dict_get(o, k)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Substitutable) and hasattr(o, "sym_getitem"):
            return o.sym_getitem(self, k)
        s = as_seq(o)
        if s is not None:
            if isinstance(o, PList):
                self.log_access(o, "r", k)
            return self.seq_get(s, k, o)
        if isinstance(o, Obj):
            if o.schema.item is not None:
                return o.schema.item(self, o, k)
            return App("getitem", (o, k))
        if isinstance(o, (App, SU)):
            return App("getitem", (o, k))
        if isinstance(o, PObj):
            return self.call(self.getattr(o, "__getitem__"), [k])
        if isinstance(o, dict):
            try:
                ck = self.concretize(k)
            except NotConcrete:
                r = self.eng.lookup(self.eng.dict_items(o), k)
                if r is None:
                    # case split over the concrete keys
                    for kk, vv in o.items():
                        if self.truth(self.eq(kk, k)):
                            return vv
                    raise PyRaise(KeyError, (k,))
                return r
            try:
                return self.lift(o[ck])
            except KeyError as e:
                raise PyRaise(KeyError, e.args)
        try:
            return self.lift(o[self.concretize(k)])
        except NotConcrete:
            if isinstance(o, numpy.ndarray) and o.ndim == 1:
                return self.seq_get(Seq([Elem(x) for x in o], "array"), k, o)
            if isinstance(o, (type, types.GenericAlias)):
                return o
            raise Unsupported(f"{o!r}[{k!r}]")
        except Exception as e:
            raise PyRaise(type(e), e.args)

    def dict_get(self, d, k, default=MISSING):
        """d: PDict or LRef to one"""
        D = deref(d)
        root, path = (d.root, d.path) if isinstance(d, LRef) else (d, ())
        items = self.eng.norm(D.items)
        for idx, p in enumerate(items.pieces):
            if isinstance(p, Elem):
                e = self.eng.key_eq(p.v[0], k)
                if e is False:
                    continue
                if e is True or self.eng.branch(e):
                    v = self.eng.force(self.eng.resolve(p.v[1]))
                    r = self.lref_flat(d, k, v) if isinstance(v, (PList, PDict)) and self.eng.serial_of(v) == 0 else v
                    self.log_access(root, "nav" if isinstance(r, LRef) else "r", *path, k)
                    return r
            elif isinstance(p, Flat):
                r = self.eng._lookup_flat(p, k)
                if r is None:
                    raise Unsupported(f"lookup of {k!r} in {p}")
                g, v = r
                if v is None:
                    continue
                if self.eng.branch(g):
                    v = self.eng.force(self.eng.resolve(v))
                    r = self.lref_flat(d, k, v)
                    self.log_access(root, "nav" if isinstance(r, LRef) else "r", *path, k)
                    return r
            else:
                raise Unsupported("dict lookup")
        self.log_access(root, "r", *path, k)
        if default is not MISSING:
            return default
        if D.default is not None:
            v = self.call(D.default, [])
            self.dict_set(d, k, v)
            return v
        raise PyRaise(KeyError, (k,))

    def lref_flat(self, d, k, v):
        """reference to the (mutable) value at key k of container d"""
        if not isinstance(v, (PList, PDict)):
            return v
        if isinstance(d, LRef):
            return LRef(self, d.root, d.path + (k,))
        return LRef(self, d, (k,))

    def dict_set(self, d, k, v):
        v = self.eng.freeze(deref(v)) if isinstance(v, LRef) else v
        if isinstance(d, LRef):
            return LRef(self, d.root, d.path + (k,)).put(v)
        self.log_access(d, "w", k)
        d.set(self.store(d.items, k, v))

    def path_put(self, items, path, v):
        if len(path) == 1:
            return self.store(items, path[0], v)
        sub = self.eng.lookup(self.eng.norm(items), path[0])
        if not isinstance(sub, PDict):
            raise Unsupported("nested store")
        return self.store(items, path[0], PDict(self.eng, self.path_put(sub.items, path[1:], v), sub.default))

    def store(self, items, k, v):
        """items with key k mapped to v (may case split)"""
        items = self.eng.norm(items)
        out = []
        done = False
        for p in items.pieces:
            if done:
                out.append(p)
                continue
            if isinstance(p, Elem):
                e = self.eng.key_eq(p.v[0], k)
                if e is not False and (e is True or self.eng.branch(e)):
                    out.append(Elem((p.v[0], v)))
                    done = True
                else:
                    out.append(p)
            elif isinstance(p, Flat):
                r = self.eng._lookup_flat(p, k)
                if r is None:
                    raise Unsupported(f"store at {k!r} in {p}")
                g, old = r
                if old is None and z3.is_false(z3.simplify(g)):
                    out.append(p)
                elif self.eng.branch(g):
                    if len(p.body.pieces) != 1 or not isinstance(p.body.pieces[0], Elem):
                        raise Unsupported("store into nested family")
                    kk, ov = p.body.pieces[0].v
                    mk = self.eng.match_key(p.var, kk, k)
                    if not mk or mk[1] is None:
                        raise Unsupported("store")
                    cond = p.var == mk[1]
                    nv = self.eng.merge([(cond, v), (z3.Not(cond), ov)])
                    out.append(Flat(p.var, p.dom, Seq([Elem((kk, nv))])))
                    done = True
                else:
                    out.append(p)
            else:
                raise Unsupported("dict store")
        if not done:
            out.append(Elem((k, v)))
        return Seq(out)

    def seq_get(self, s, k, o=None):
        e = self.eng
        kk = k
        if isinstance(k, slice):
            k = SliceVal(k.start, k.stop, k.step)
        if isinstance(k, SliceVal):
            return self.seq_slice(s, k, o)
        if isinstance(k, tuple) or isinstance(k, Seq):
            ks = as_seq(k)
            if isinstance(s, Seq) and s.kind == "array" and ks.concrete and len(ks.pieces) == 1:
                return self.seq_get(s, ks.items()[0], o)
            raise PyRaise(TypeError, ("indices",)) if s.kind in ("list", "tuple") else Unsupported("fancy index")
        if not isinstance(k, (int, SInt, numpy.integer)):
            raise Unsupported(f"index {k!r}")
        s = e.norm(s)
        if s.concrete and isinstance(k, (int, numpy.integer)):
            vals = s.items()
            try:
                return vals[k]
            except IndexError:
                raise PyRaise(IndexError)
        n = e.seq_len(s)
        i = zi(k)
        if isinstance(k, (int, numpy.integer)) and k < 0:
            i = z3.simplify(n + i)
            if len(s.pieces) and isinstance(s.pieces[-1], Elem) and k == -1:
                return s.pieces[-1].v
        elif not e.entails(i >= 0):
            if e.branch(i < 0):
                i = n + i
        off = z3.IntVal(0)
        for p in s.pieces:
            l = e.piece_len(p)
            if e.branch(z3.And(i - off < l, i - off >= 0)):
                return self.piece_get(p, z3.simplify(i - off), s)
            off = off + l
        raise PyRaise(IndexError)

    def piece_get(self, p, i, s=None):
        e = self.eng
        if isinstance(p, Elem):
            return p.v
        if isinstance(p, Flat):
            if len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                if p.dom.keys is None:
                    return subst(p.body.pieces[0].v, [(p.var, i)])
                f = z3.Function(p.dom.keys.name + "_at", *[x.sort() for x in p.dom.keys.params], z3.IntSort(), p.dom.keys.sort)
                t = f(*p.dom.keys.params, i)
                e.fact(z3.Implies(z3.And(i >= 0, i < p.dom.keys.card()), p.dom.keys.member(t)))
                return subst(p.body.pieces[0].v, [(p.var, t)])
            w = e.seq_len(p.body)
            if p.dom.keys is None and p.var.get_id() not in __import__("pyvc.values", fromlist=["zconsts"]).zconsts(w):
                if e.entails(w > 0):
                    q, r = i / w, i % w
                    return self.seq_get(subst(p.body, [(p.var, q)]), SInt(r))
            raise Unsupported("index into nested sequence")
        if isinstance(p, Alt):
            for g, s2 in p.cases:
                if e.branch(g):
                    return self.seq_get(s2, SInt(i))
            raise Infeasible()
        if isinstance(p, Rho):
            return App("rho_elem", (p.name, *[wrapz(x) if isinstance(x, z3.ExprRef) else x for x in p.params], SInt(i)))
        raise Unsupported("index")

    def seq_slice(self, s, k, o):
        e = self.eng
        s = e.norm(s)
        lo, hi, st = k.lo, k.hi, k.step
        kind = "list" if isinstance(o, (PList, list)) else s.kind
        if s.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return self.mk(Seq([Elem(x) for x in s.items()[lo:hi:st]], kind), kind)
        if st not in (None, 1):
            if st == -1 and lo is None and hi is None:
                return self.mk(self.rev_seq(s), kind)
            raise Unsupported("slice step")
        n = e.seq_len(s)
        def norm_idx(x, dflt):
            if x is None:
                return dflt
            x = zi(x)
            if not e.entails(x >= 0):
                if e.branch(x < 0):
                    x = n + x
                    if not e.entails(x >= 0) and e.branch(x < 0):
                        x = z3.IntVal(0)
            if not e.entails(x <= n) and e.branch(x > n):
                x = n
            return z3.simplify(x)
        a, b = norm_idx(lo, z3.IntVal(0)), norm_idx(hi, n)
        if not e.entails(a <= b) and e.branch(a > b):
            return self.mk(Seq([], kind), kind)
        out = []
        off = z3.IntVal(0)
        started = False
        # drop [0,a), keep [a,b)
        pieces = list(s.pieces)
        rest = self.drop(pieces, a)
        keep = self.take(rest, z3.simplify(b - a))
        return self.mk(Seq(keep, kind), kind)

    def drop(self, pieces, a):
        e = self.eng
        pieces = list(pieces)
        while pieces:
            if e.entails(a == 0):
                return pieces
            p = pieces[0]
            l = e.piece_len(p)
            if e.entails(a >= l):
                a = z3.simplify(a - l)
                pieces.pop(0)
                continue
            if isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem) and e.entails(a <= l):
                return [split_flat(p, a)[1]] + pieces[1:]
            if e.branch(a >= l):
                a = z3.simplify(a - l)
                pieces.pop(0)
                continue
            if isinstance(p, Elem):
                return pieces
            if isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                return [split_flat(p, a)[1]] + pieces[1:]
            raise Unsupported("slice of nested sequence")
        return pieces

    def take(self, pieces, m):
        e = self.eng
        out = []
        for p in pieces:
            if e.entails(m <= 0):
                return out
            l = e.piece_len(p)
            if e.entails(m >= l) or (not (isinstance(p, Flat) and e.entails(m <= l)) and e.branch(m >= l)):
                out.append(p)
                m = z3.simplify(m - l)
                continue
            if isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                out.append(split_flat(p, m)[0])
                return out
            if isinstance(p, Elem):
                return out
            raise Unsupported("slice of nested sequence")
        return out

    def rev_seq(self, s):
        out = []
        for p in reversed(s.pieces):
            if isinstance(p, Elem):
                out.append(p)
            elif isinstance(p, Flat) and p.dom.keys is None:
                v = fresh_int()
                b = self.rev_seq(subst(p.body, [(p.var, p.dom.n - 1 - v)]))
                out.append(Flat(v, p.dom, b))
            elif isinstance(p, Alt):
                out.append(Alt([(g, self.rev_seq(x)) for g, x in p.cases]))
            else:
                raise Unsupported("reverse")
        return Seq(out, s.kind)

    def setitem(self, o, k, v):
        o = self.eng.force(o)
        D = deref(o)
        k = self.eng.force(deref(k))
        if isinstance(D, PDict):
            return self.dict_set(o, k, v)
        if isinstance(D, PList):
            v = deref(v) if isinstance(v, LRef) else v
            new = self.list_store(D, k, v)
            if isinstance(o, LRef):
                o.put(PList(self.eng, new))
            else:
                D.set(new)
            return
        if isinstance(D, Substitutable) and hasattr(D, "sym_setitem"):
            return D.sym_setitem(self, k, v)
        if isinstance(D, (dict, list, numpy.ndarray)):
            raise Unsupported(f"mutation of a native {type(D).__name__}")
        raise Unsupported(f"item assignment on {D!r}")

    def list_store(self, D, k, v):
        e = self.eng
        s = e.norm(D.seq)
        self.log_access(D, "w", k)
        if isinstance(k, slice):
            k = SliceVal(k.start, k.stop, k.step)
        if isinstance(k, SliceVal):
            if s.concrete and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                l = s.items()
                vs = e.norm(self.iter_seq(v))
                if vs.concrete:
                    l[k.lo:k.hi:k.step] = vs.items()
                    return seq_of(l, "list")
            raise Unsupported("slice store")
        if s.concrete and isinstance(k, (int, numpy.integer)):
            l = s.items()
            try:
                l[k] = v
            except IndexError:
                raise PyRaise(IndexError)
            return seq_of(l, "list")
        n = e.seq_len(s)
        i = zi(k)
        if not e.entails(i >= 0) and e.branch(i < 0):
            i = n + i
        off = z3.IntVal(0)
        out = list(s.pieces)
        for j, p in enumerate(s.pieces):
            l = e.piece_len(p)
            if e.branch(z3.And(i - off < l, i - off >= 0)):
                if isinstance(p, Elem):
                    out[j] = Elem(v)
                elif isinstance(p, Flat) and p.dom.keys is None and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                    c = p.var == z3.simplify(i - off)
                    out[j] = Flat(p.var, p.dom, Seq([Elem(e.merge([(c, v), (z3.Not(c), p.body.pieces[0].v)]))]))
                else:
                    raise Unsupported("store into nested sequence")
                return Seq(out, "list")
            off = off + l
        raise PyRaise(IndexError)

    # ------------------------------------------------------------------ iteration helpers
    def mk(self, s, kind):
        """build a list/tuple value from a Seq"""
        if kind == "list":
            return self.eng.new_list(s.as_kind("list"))
        if kind == "tuple" and s.concrete:
            return tuple(s.items())
        return s.as_kind(kind)

    def iter_seq(self, v):
        """the sequence of values obtained by iterating v"""
        v0 = v
        v = self.eng.force(deref(v))
        if isinstance(v0, LRef):
            self.log_access(v0.root, "r", *v0.path)
        if isinstance(v, PList):
            self.log_access(v, "r")
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, PDict):
            self.log_access(v, "r")
            return self.map_seq(lambda kv: kv[0], v.items, pure=True)
        if isinstance(v, (tuple, list, range)):
            return Seq([Elem(x) for x in v])
        if isinstance(v, dict):
            return Seq([Elem(x) for x in v])
        if isinstance(v, (str, set, frozenset)):
            return Seq([Elem(x) for x in (sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)])
        if isinstance(v, numpy.ndarray):
            return Seq([Elem(x) for x in v])
        if isinstance(v, Obj):
            h = getattr(v.schema, "iter", None)
            if h:
                return h(self, v)
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, Substitutable) and hasattr(v, "sym_iter"):
            return v.sym_iter(self)
        if isinstance(v, (App, SU, PObj, Poison)):
            if isinstance(v, PObj) and hasattr(v.cls, "__iter__"):
                return self.iter_seq(self.call(self.getattr(v, "__iter__"), []))
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, (SInt, SReal, int, float)) or v is None:
            raise PyRaise(TypeError, ("not iterable",))
        try:
            if isinstance(v, itertools.count):
                raise Unsupported("iteration over an unending iterator")
            xs = list(itertools.islice(v, 200001))
        except TypeError as e:
            raise PyRaise(TypeError, e.args)
        if len(xs) > 200000:
            raise Unsupported("iteration over an unending iterator")
        return Seq([Elem(x) for x in xs])

    def map_seq(self, f, s, pure=False):
        """apply f (python callable on values) to every element"""
        r = self.flat_map(lambda x: Seq([Elem(f(x))]), s, pure)
        return r if r.kind == "symset" else r.as_kind("iter")

    def flat_map(self, f, s, pure=False):
        e = self.eng
        out = []
        s = e.norm(s) if not pure else s
        for p in s.pieces:
            if isinstance(p, Elem):
                out.extend(f(p.v).pieces)
            elif isinstance(p, Flat):
                v = p.dom.fresh()
                body = subst(p.body, [(p.var, v)])
                base = len(e.pc)
                e.pc.append(p.dom.constraint(v))
                binders, e.binders = e.binders, e.binders + [v]
                try:
                    if pure:
                        res = self.flat_map(f, body, True)
                    else:
                        res = self.generic(lambda: self.flat_map(f, body))
                finally:
                    del e.pc[base:]
                    e.binders = binders
                out.append(Flat(v, p.dom, res))
            elif isinstance(p, Alt):
                cs = []
                for g, x in p.cases:
                    base = len(e.pc)
                    e.pc.append(g)
                    try:
                        if not pure and not e.feasible(z3.BoolVal(True)):
                            continue
                        cs.append((g, self.flat_map(f, x, True) if pure else self.generic(lambda: self.flat_map(f, x))))
                    finally:
                        del e.pc[base:]
                out.append(Alt(cs))
            elif isinstance(p, Rho):
                k = fresh_int()
                el = self.piece_get(p, k)
                out.append(Flat(k, Dom(n=p.len), f(el)))
            else:
                raise Unsupported(f"map over {p}")
        return Seq(out, s.kind)

    def generic(self, thunk):
        """evaluate a Seq-valued thunk for a generic index: all paths merged, no heap effects allowed"""
        e = self.eng
        before = e.serial
        def collect(journal):
            for key, _ in journal:
                if self.preexisting(key, before):
                    raise Unsupported(f"side effect inside a comprehension over a symbolic sequence: {key[0]}")
            return None
        res = e.explore(thunk, collect)
        for g, k, v, _ in res:
            if k == "raise":
                # an iteration raises: propagate if it does so in every iteration, else unsupported
                raise GenericRaise(z3.And(*g) if g else z3.BoolVal(True), v)
        if len(res) == 1:
            return res[0][2]
        return Seq([Alt([(z3.And(*g) if g else z3.BoolVal(True), v) for g, _, v, _ in res])])

    def formula(self, thunk, pc=()):
        """the truth value computed by a thunk as one formula: no branching on the (bound) variables it mentions"""
        e = self.eng
        before = e.serial
        def collect(journal):
            for key, _ in journal:
                if self.preexisting(key, before):
                    raise Unsupported("side effect inside a comparison")
            return None
        def run():
            v = thunk()
            return SBool(zb(v)) if isinstance(v, SBool) else SBool(z3.BoolVal(bool(v)))
        base = len(e.pc)
        e.pc.extend(pc)
        try:
            res = e.explore(run, collect)
        finally:
            del e.pc[base:]
        out = []
        for g, k, v, _ in res:
            if k == "raise":
                raise Unsupported("exception inside a comparison")
            out.append(z3.And(*g, zb(v)) if g else zb(v))
        return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)

    def preexisting(self, key, before):
        """is the written location older than serial number `before`?"""
        if key[0] == "memo":
            return False
        if key[0] == "var":
            return key[1].serial <= before
        s = self.eng.serial_of(key[1])
        return 0 < s <= before

    def zip_seqs(self, seqs):
        from .models import no_set
        for x in seqs:
            no_set(x, "zip")
        e = self.eng
        seqs = [list(e.norm(s).pieces) for s in seqs]
        out = []
        guard = 0
        while all(seqs):
            guard += 1
            if guard > 200:
                raise Unsupported("zip alignment")
            heads = [s[0] for s in seqs]
            for i, h in enumerate(heads):
                if isinstance(h, Alt):
                    for g, x in h.cases:
                        if e.branch(g):
                            seqs[i] = list(e.norm(Seq(list(x.pieces) + seqs[i][1:])).pieces)
                            break
                    break
            else:
                if all(isinstance(h, Elem) for h in heads):
                    out.append(Elem(tuple(h.v for h in heads)))
                    for s in seqs:
                        s.pop(0)
                elif all(isinstance(h, Flat) and len(h.body.pieces) == 1 and isinstance(h.body.pieces[0], Elem) for h in heads):
                    if all(e.dom_eq(heads[0].dom, h.dom) for h in heads[1:]):
                        v = heads[0].dom.fresh()
                        out.append(Flat(v, heads[0].dom, Seq([Elem(tuple(
                            subst(h.body.pieces[0].v, [(h.var, v)]) for h in heads))])))
                        for s in seqs:
                            s.pop(0)
                    elif all(h.dom.keys is None for h in heads):
                        # shortest
                        m = None
                        for h in heads:
                            if all(e.entails(h.dom.n <= g.dom.n) for g in heads):
                                m = h.dom.n
                                break
                        if m is None:
                            a, b = heads[0], heads[1]
                            e.branch(a.dom.n <= b.dom.n)
                            continue
                        for i, h in enumerate(heads):
                            x, y = split_flat(h, m)
                            seqs[i] = [x] + ([y] if not e.entails(h.dom.n == m) else []) + seqs[i][1:]
                    else:
                        raise Unsupported("zip over different domains")
                elif all(isinstance(h, (Flat, Elem)) for h in heads):
                    # mixture: peel one element off every Flat
                    for i, h in enumerate(heads):
                        if isinstance(h, Flat):
                            if h.dom.keys is not None:
                                raise Unsupported("zip of key set with list")
                            if e.branch(h.dom.n >= 1):
                                first = subst(h.body, [(h.var, z3.IntVal(0))])
                                rest = Flat(h.var, Dom(n=z3.simplify(h.dom.n - 1)), subst(h.body, [(h.var, h.var + 1)]))
                                seqs[i] = list(e.norm(first).pieces) + [rest] + seqs[i][1:]
                            else:
                                seqs[i] = seqs[i][1:]
                            break
                elif all(isinstance(h, Flat) for h in heads) and all(e.dom_eq(heads[0].dom, h.dom) for h in heads[1:]):
                    v = heads[0].dom.fresh()
                    bodies = [subst(h.body, [(h.var, v)]) for h in heads]
                    base = len(e.pc)
                    e.pc.append(heads[0].dom.constraint(v))
                    ls = [e.seq_len(b) for b in bodies]
                    same = all(e.entails(ls[0] == l) for l in ls[1:])
                    inner = self.generic(lambda: self.zip_seqs(bodies)) if same else None
                    del e.pc[base:]
                    if inner is None:
                        raise Unsupported("zip of ragged nested sequences")
                    out.append(Flat(v, heads[0].dom, inner))
                    for s in seqs:
                        s.pop(0)
                elif all(isinstance(h, Rho) for h in heads):
                    raise Unsupported("zip of opaque sequences")
                else:
                    raise Unsupported(f"zip of {heads}")
        return Seq(out)

    def enumerate_seq(self, s, start=0):
        from .models import no_set
        no_set(s, "enumerate")
        e = self.eng
        out = []
        pos = zi(start)
        for p in e.norm(s).pieces:
            out.append(self._enum_piece(p, pos))
            pos = z3.simplify(pos + e.piece_len(p))
        return Seq(out)

    def _enum_piece(self, p, pos):
        e = self.eng
        i = z3.simplify(pos)
        idx = i.as_long() if z3.is_int_value(i) else SInt(i)
        if isinstance(p, Elem):
            return Elem((idx, p.v))
        if isinstance(p, Flat):
            if p.dom.keys is not None:
                f = z3.Function(p.dom.keys.name + "_pos", *[x.sort() for x in p.dom.keys.params], p.dom.keys.sort, z3.IntSort())
                k = f(*p.dom.keys.params, p.var)
                e.fact(z3.Implies(p.dom.constraint(p.var), z3.And(k >= 0, k < p.dom.keys.card())))
                at = z3.Function(p.dom.keys.name + "_at", *[x.sort() for x in p.dom.keys.params], z3.IntSort(), p.dom.keys.sort)
                e.fact(z3.Implies(p.dom.constraint(p.var), at(*p.dom.keys.params, k) == p.var))
                if len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                    return Flat(p.var, p.dom, Seq([self._enum_piece(p.body.pieces[0], pos + k)]))
                raise Unsupported("enumerate nested key set")
            base = len(e.pc)
            e.pc.append(p.dom.constraint(p.var))
            try:
                l = e.seq_len(p.body)
                v2 = fresh_int()
                l2 = z3.substitute(l, (p.var, v2))
                before = e.sum_over(v2, Dom(n=p.var), l2)
                out = []
                q = pos + before
                for b in p.body.pieces:
                    out.append(self._enum_piece(b, z3.simplify(q)))
                    q = q + e.piece_len(b)
            finally:
                del e.pc[base:]
            return Flat(p.var, p.dom, Seq(out))
        if isinstance(p, Alt):
            cs = []
            for g, x in p.cases:
                q = pos
                o = []
                for b in x.pieces:
                    o.append(self._enum_piece(b, q))
                    q = z3.simplify(q + e.piece_len(b))
                cs.append((g, Seq(o)))
            return Alt(cs)
        if isinstance(p, Rho):
            k = fresh_int()
            return Flat(k, Dom(n=p.len), Seq([Elem((SInt(pos + k), self.piece_get(p, k)))]))
        raise Unsupported("enumerate")

    # ------------------------------------------------------------------ strings
    def mkstr(self, parts):
        out = []
        for p in parts:
            p = deref(p)
            if isinstance(p, (str, SStr)):
                out.append(p)
            else:
                out.append(self.tostr(p))
        s = SStr(out)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def tostr(self, v, conv="s"):
        v = self.eng.force(deref(v))
        if isinstance(v, SStr):
            if conv == "r" and all(isinstance(p, App) and p.fn == "text" for p in v.parts):
                return SStr(["'", v, "'"])          # names without quotes, backslashes and line breaks
            return v if conv == "s" else SStr([App("repr", (v,))])
        if isinstance(v, (PObj,)):
            nm = "__str__" if conv == "s" else "__repr__"
            f = getattr(v.cls, nm)
            if isinstance(f, types.FunctionType):
                return self.call(f, [v])
            if conv == "s" and isinstance(v.cls.__repr__, types.FunctionType):
                return self.call(v.cls.__repr__, [v])
            return SStr([App(conv, (v,))])
        try:
            c = self.concretize(v)
            return str(c) if conv == "s" else repr(c)
        except NotConcrete:
            if isinstance(v, (SInt,)):
                return SStr([App("str", (v,))])       # decimal of an integer
            if isinstance(v, Obj) and ("__str__" in v.schema.attrs or "__repr__" in v.schema.attrs):
                a = v.schema.attrs.get("__str__" if conv == "s" else "__repr__") or v.schema.attrs["__repr__"]
                r = a(self, v)
                return r
            sq = as_seq(v)
            if sq is not None and isinstance(v, tuple):
                parts = ["("]
                for i, x in enumerate(v):
                    parts += ([", "] if i else []) + [self.tostr(x, "r")]
                parts.append(",)" if len(v) == 1 else ")")
                return SStr(parts)
            return SStr([App("str" if conv == "s" else "repr", (v,))])

    def strformat(self, f, args):
        if not isinstance(f, str):
            raise Unsupported("symbolic format string")
        args = deref(args)
        if not isinstance(args, tuple):
            args = (args,)
        import re
        out, i, n = [], 0, 0
        for m in re.finditer(r"%(%|s|r|d)", f):
            out.append(f[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            if n >= len(args):
                raise PyRaise(TypeError, ("not enough arguments for format string",))
            out.append(self.tostr(args[n], "r" if m.group(1) == "r" else "s"))
            n += 1
        out.append(f[i:])
        if "%" in "".join(x for x in (f[i:],)):
            raise Unsupported("format spec")
        if n != len(args):
            raise PyRaise(TypeError, ("not all arguments converted",))
        return self.mkstr(out)


class GenericRaise(Unsupported):
    """some iteration of a summarised loop / comprehension raises"""
    def __init__(self, guard, exc):
        super().__init__(f"iteration raises {exc.exc} when {guard}")
        self.guard, self.pyexc = guard, exc


class ExcVal:
    def __init__(self, cls, args): self.cls, self.args = cls, args
    def __repr__(self): return f"{self.cls.__name__}{tuple(self.args)}"


class Super:
    def __init__(self, cls, obj, objcls): self.cls, self.obj, self.objcls = cls, obj, objcls


class BoolArr(Substitutable):
    """elementwise comparison of a short array"""
    def __init__(self, vals): self.vals = vals
    def subst(self, f): return BoolArr([f(v) for v in self.vals])
    def parts(self): return list(self.vals)
    def sym_getattr(self, it, name):
        if name not in ("all", "any"):
            raise Unsupported("attribute " + name + " of an array of truth values")
        es = [v.e if isinstance(v, SBool) else z3.BoolVal(bool(v)) for v in self.vals]
        return Model(lambda it2, a, kw: SBool(z3.And(*es) if name == "all" else z3.Or(*es)), "ndarray." + name)


class SliceVal(Substitutable):
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
    def subst(self, f): return SliceVal(f(self.lo), f(self.hi), f(self.step))
    def parts(self): return [x for x in (self.lo, self.hi, self.step) if x is not None]
    def sym_getattr(self, it, name):
        return {"start": self.lo, "stop": self.hi, "step": self.step}[name]
    def equal_to(self, eng, o, name):
        if isinstance(o, slice):
            o = SliceVal(o.start, o.stop, o.step)
        if not isinstance(o, SliceVal):
            return eng.fail(name, f"{self!r} vs {o!r}")
        return eng.equal(self.lo, o.lo, name) and eng.equal(self.hi, o.hi, name)
    def __repr__(self): return f"slice({self.lo},{self.hi},{self.step})"


_DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__"}
_RDUNDER = {"+": "__radd__", "-": "__rsub__", "*": "__rmul__", "/": "__rtruediv__", "@": "__rmatmul__"}


def _unsup(m):
    raise Unsupported(m)


def _same(x, y):
    return x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else x is y or (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and repr(x) == repr(y))


def _has(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(n))
        _gen_cache[id(node)] = r
    return r


from .frame import Frame     # noqa: E402
