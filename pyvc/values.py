"""Symbolic values.

A symbolic value is one of
  SInt / SReal / SBool   a z3 term of that sort
  SU                     a z3 term of the uninterpreted sort U (opaque keys: cell dimensions, orientations, ...)
  Obj                    an abstract object, member of a family: name + parameters + schema
  App                    an uninterpreted application f(args): the result of a pure library call
  Seq                    a finite sequence in comprehension normal form
  PList / PDict / PObj   mutable heap objects of the interpreted program
and any native Python value (all of them concrete).
"""
import itertools
import z3

U = z3.DeclareSort("U")
_fresh = itertools.count()


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation stays undischarged."""


class NotConcrete(Exception):
    pass


class PyRaise(Exception):
    """The interpreted program raised."""
    def __init__(self, exc, args=()):
        super().__init__(exc, args)
        self.exc = exc          # exception class
        self.eargs = args


def fresh_int(prefix="k"):
    return z3.Int(f"{prefix}!{next(_fresh)}")


def fresh_u(prefix="u"):
    return z3.Const(f"{prefix}!{next(_fresh)}", U)


def fresh_name(prefix="x"):
    return f"{prefix}!{next(_fresh)}"


class SInt:
    __slots__ = ("e",)
    def __init__(self, e):
        self.e = z3.IntVal(e) if isinstance(e, int) else e
    def __repr__(self): return f"SInt({self.e})"
    def __hash__(self): raise NotConcrete("hash of symbolic int")
    def __eq__(self, o): raise NotConcrete("native comparison of symbolic int")
    def __bool__(self): raise NotConcrete("native truth of symbolic int")
    def __index__(self): raise NotConcrete("native index of symbolic int")


class SReal:
    __slots__ = ("e",)
    def __init__(self, e):
        self.e = z3.RealVal(e) if isinstance(e, (int, float)) else e
    def __repr__(self): return f"SReal({self.e})"
    def __hash__(self): raise NotConcrete("hash of symbolic real")
    def __eq__(self, o): raise NotConcrete("native comparison of symbolic real")
    def __bool__(self): raise NotConcrete("native truth of symbolic real")


class SBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return f"SBool({self.e})"
    def __hash__(self): raise NotConcrete("hash of symbolic bool")
    def __eq__(self, o): raise NotConcrete("native comparison of symbolic bool")
    def __bool__(self): raise NotConcrete("native truth of symbolic bool")


class SU:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __repr__(self): return f"SU({self.e})"
    def __hash__(self): raise NotConcrete("hash of opaque term")
    def __eq__(self, o): raise NotConcrete("native comparison of opaque term")
    def __bool__(self): raise NotConcrete("native truth of opaque term")


SCALARS = (SInt, SReal, SBool, SU)


class Schema:
    """Behaviour of a family of abstract objects. Attributes are looked up in `attrs` (name -> f(eng, obj));
    `cls` is the set of Python classes the object is an instance of."""
    def __init__(self, name, attrs=None, cls=(), notcls=(), item=None, call=None):
        self.name, self.attrs, self.cls, self.notcls = name, dict(attrs or {}), tuple(cls), tuple(notcls)
        self.item, self.call = item, call


class Obj:
    __slots__ = ("name", "params", "schema", "attrcache")
    def __init__(self, name, params, schema):
        self.name, self.params, self.schema = name, tuple(params), schema
        self.attrcache = {}
    def __repr__(self): return f"{self.name}({', '.join(map(str, self.params))})"


class App:
    """Uninterpreted application (pure library call)."""
    __slots__ = ("fn", "args", "kw")
    def __init__(self, fn, args=(), kw=()):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(dict(kw).items()))
    def __repr__(self):
        a = [repr(x) for x in self.args] + [f"{k}={v!r}" for k, v in self.kw]
        return f"{self.fn}({', '.join(a)})"


class Dom:
    """Domain of a binder: integer range [0, n) or an abstract ordered key set."""
    __slots__ = ("n", "keys")
    def __init__(self, n=None, keys=None):
        self.n, self.keys = n, keys
    def fresh(self):
        if self.keys is None or self.keys.sort == z3.IntSort():
            return fresh_int()
        return fresh_u()
    def constraint(self, v):
        if self.keys is None:
            return z3.And(v >= 0, v < self.n)
        return self.keys.member(v)
    def wrap(self, v):
        return SU(v) if v.sort() == U else SInt(v)
    def size(self):
        return self.n if self.keys is None else self.keys.card()
    def __repr__(self):
        return f"<{self.n}" if self.keys is None else f"in {self.keys}"


class KeySet:
    """Abstract finite ordered set of keys, a family `name(params)`."""
    def __init__(self, name, params=(), sort=U):
        self.name, self.params, self.sort = name, tuple(params), sort
    def member(self, v):
        f = z3.Function(self.name + "_mem", *[p.sort() for p in self.params], self.sort, z3.BoolSort())
        return f(*self.params, v)
    def card(self):
        f = z3.Function(self.name + "_card", *[p.sort() for p in self.params], z3.IntSort())
        return f(*self.params)
    def __repr__(self): return f"{self.name}({', '.join(map(str, self.params))})"


class Elem:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __repr__(self): return repr(self.v)


class Flat:
    """concatenation over var in dom of the sequence body"""
    __slots__ = ("var", "dom", "body")
    def __init__(self, var, dom, body):
        self.var, self.dom, self.body = var, dom, body
    def __repr__(self): return f"*[{self.body} | {self.var} {self.dom}]"


class Alt:
    """case distinction between sequences: mutually exclusive, exhaustive guards (under the path condition)"""
    __slots__ = ("cases",)
    def __init__(self, cases): self.cases = tuple(cases)
    def __repr__(self): return "{" + " | ".join(f"{g} -> {s}" for g, s in self.cases) + "}"


class Rho:
    """opaque sequence (placeholder / abstract sequence without element view), with a length term"""
    __slots__ = ("name", "params", "len")
    def __init__(self, name, params, len):
        self.name, self.params, self.len = name, tuple(params), len
    def __repr__(self): return f"rho:{self.name}({', '.join(map(str, self.params))})"


class Seq:
    """Immutable sequence in comprehension normal form. kind: 'tuple', 'iter', 'range', 'array', 'set', ..."""
    __slots__ = ("pieces", "kind")
    def __init__(self, pieces=(), kind="iter"):
        self.pieces, self.kind = tuple(pieces), kind
    def __repr__(self): return "[" + ", ".join(map(repr, self.pieces)) + "]"
    @property
    def concrete(self): return all(isinstance(p, Elem) for p in self.pieces)
    def items(self): return [p.v for p in self.pieces]
    def __add__(self, o): return Seq(self.pieces + o.pieces, self.kind)
    def as_kind(self, k): return self if self.kind == k else Seq(self.pieces, k)


def seq_of(values, kind="iter"):
    return Seq([Elem(v) for v in values], kind)


class PList:
    """heap list"""
    __slots__ = ("seq", "eng")
    def __init__(self, eng, seq): self.eng, self.seq = eng, seq
    def set(self, s):
        if self.eng.serial_of(self) == 0:
            raise Unsupported("mutation of a list through an untracked alias")
        old = self.seq
        self.eng.record(("list", self), lambda: setattr(self, "seq", old))
        self.seq = s
    def __repr__(self): return f"PList{self.seq}"


class PDict:
    """heap dict: items is a Seq of (key, value) pairs with pairwise distinct keys"""
    __slots__ = ("items", "eng", "default")
    def __init__(self, eng, items, default=None): self.eng, self.items, self.default = eng, items, default
    def set(self, s):
        if self.eng.serial_of(self) == 0:
            raise Unsupported("mutation of a dict through an untracked alias")
        old = self.items
        self.eng.record(("dict", self), lambda: setattr(self, "items", old))
        self.items = s
    def __repr__(self): return f"PDict{self.items}"


class PObj:
    """instance of a class of the interpreted program"""
    __slots__ = ("cls", "fields", "eng", "name")
    def __init__(self, eng, cls, fields=None, name=None):
        self.eng, self.cls, self.fields, self.name = eng, cls, dict(fields or {}), name
    def set(self, k, v, key="obj"):
        # key "memo": the cache of a cached_property, not an observable effect (undone at the end of the context)
        had, old = k in self.fields, self.fields.get(k)
        def undo():
            if had: self.fields[k] = old
            else: self.fields.pop(k, None)
        self.eng.record((key, self, k), undo)
        self.fields[k] = v
    def __repr__(self): return f"<{self.cls.__name__} {self.name or hex(id(self))}>"


class Star:
    """a starred argument of symbolic length passed to a modelled function"""
    __slots__ = ("seq",)
    def __init__(self, seq): self.seq = seq


class Func:
    """interpreted function value"""
    __slots__ = ("node", "closure", "globs", "name", "defaults", "kwdefaults", "defcls", "pyfunc", "isgen")
    def __init__(self, node, closure, globs, name, defaults, kwdefaults, defcls=None, pyfunc=None):
        self.node, self.closure, self.globs, self.name = node, closure, globs, name
        self.defaults, self.kwdefaults, self.defcls, self.pyfunc = defaults, kwdefaults, defcls, pyfunc
    def __repr__(self): return f"<interp {self.name}>"


class Bound:
    __slots__ = ("func", "self")
    def __init__(self, func, self_): self.func, self.self = func, self_


class Partial:
    __slots__ = ("func", "args", "kw")
    def __init__(self, func, args, kw): self.func, self.args, self.kw = func, tuple(args), dict(kw)


class Model:
    """modelled callable: f(eng, args, kw)"""
    __slots__ = ("f", "name")
    def __init__(self, f, name): self.f, self.name = f, name
    def __repr__(self): return f"<model {self.name}>"


class SStr:
    """string with symbolic fragments"""
    __slots__ = ("parts",)
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr): out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            elif p == "" if isinstance(p, str) else False: pass
            else: out.append(p)
        # merge again
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str): m[-1] += p
            elif isinstance(p, str) and p == "": pass
            else: m.append(p)
        self.parts = tuple(m)
    def __repr__(self): return "SStr" + repr(self.parts)


# ---------------------------------------------------------------------------------------------- substitution

class Substitutable:
    """mix-in for model objects: implement subst(f) with f mapping values to values and
    structurally equal comparison via parts()"""
    def subst(self, f): raise NotImplementedError
    def parts(self): raise NotImplementedError


def subst_dom(d, m):
    if d.keys is None:
        return Dom(n=zsub(d.n, m))
    return Dom(keys=KeySet(d.keys.name, [zsub(p, m) for p in d.keys.params], d.keys.sort))


def zsub(e, m):
    if isinstance(e, int):
        return e
    return z3.substitute(e, *m)


def subst(v, m):
    """substitute z3 constants (list of pairs) in a value (deep)"""
    if not m:
        return v
    if isinstance(v, SCALARS):
        return type(v)(zsub(v.e, m))
    if isinstance(v, z3.ExprRef):
        return zsub(v, m)
    if isinstance(v, Seq):
        return Seq([subst_piece(p, m) for p in v.pieces], v.kind)
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, PList):
        return PList(v.eng, subst(v.seq, m))
    if isinstance(v, PDict):
        return PDict(v.eng, subst(v.items, m), v.default)
    if isinstance(v, Obj):
        return Obj(v.name, [subst(p, m) for p in v.params], v.schema)
    if isinstance(v, App):
        return App(v.fn, [subst(a, m) for a in v.args], {k: subst(a, m) for k, a in v.kw})
    if isinstance(v, SStr):
        return SStr([subst(p, m) for p in v.parts])
    if isinstance(v, Partial):
        return Partial(subst(v.func, m), [subst(a, m) for a in v.args], {k: subst(a, m) for k, a in v.kw.items()})
    if isinstance(v, Bound):
        return Bound(v.func, subst(v.self, m))
    if isinstance(v, Substitutable):
        return v.subst(lambda x: subst(x, m))
    if isinstance(v, PObj):
        return PObj(v.eng, v.cls, {k: subst(x, m) for k, x in v.fields.items()}, v.name)
    if isinstance(v, Func):
        env = subst_env(v.closure, m)
        return v if env is v.closure else Func(v.node, env, v.globs, v.name, v.defaults, v.kwdefaults, v.defcls, v.pyfunc)
    if isinstance(v, LRef):
        return subst(v.value(), m)
    return v


def subst_env(env, m):
    if env is None:
        return None
    vs = [c for c, _ in m]
    loc = {}
    changed = False
    for k, x in env.vars.items():
        if isinstance(x, Func):
            loc[k] = x
            continue
        fv = free_consts(x)
        if any(c.get_id() in fv for c in vs):
            loc[k] = subst(x, m)
            changed = True
        else:
            loc[k] = x
    parent = subst_env(env.parent, m)
    if not changed and parent is env.parent:
        return env
    from .interp import Env
    e = Env(parent, dict(loc))
    return e


class LRef:
    """reference to a mutable value living inside a dict family: root PDict + key path"""
    __slots__ = ("it", "root", "path")
    def __init__(self, it, root, path): self.it, self.root, self.path = it, root, tuple(path)
    def value(self):
        v = self.root
        for k in self.path:
            v = self.it.eng.lookup(self.it.eng.norm(v.items), k)
            if v is None:
                raise Unsupported("dangling reference into dict family")
        return v
    def value_or_none(self):
        try:
            return self.value()
        except Unsupported:
            return None
    def put(self, nv):
        self.it.log_access(self.root, "w", *self.path)
        self.root.set(self.it.path_put(self.root.items, self.path, nv))


class LRefView(LRef):
    """LRef with the mutation interface of PList / PDict"""
    __slots__ = ()
    @property
    def seq(self): return self.value().seq
    @property
    def items(self): return self.value().items
    @property
    def default(self): return self.value().default
    def set(self, s):
        v = self.value()
        self.put(PList(v.eng, s) if isinstance(v, PList) else PDict(v.eng, s, v.default))


def subst_piece(p, m):
    if isinstance(p, Elem):
        return Elem(subst(p.v, m))
    if isinstance(p, Flat):
        m2 = [(a, b) for a, b in m if not a.eq(p.var)]
        if not m2:
            return p
        # capture avoidance: binders are globally fresh, but a substituted term may mention the binder
        if any(p.var.get_id() in zconsts(b) for _, b in m2):
            nv = p.dom.fresh()
            return Flat(nv, subst_dom(p.dom, m2), subst(subst(p.body, [(p.var, nv)]), m2))
        return Flat(p.var, subst_dom(p.dom, m2), subst(p.body, m2))
    if isinstance(p, Alt):
        return Alt([(zsub(g, m), subst(s, m)) for g, s in p.cases])
    if isinstance(p, Rho):
        return Rho(p.name, [subst(x, m) for x in p.params], zsub(p.len, m))
    raise TypeError(p)


_zc_cache = {}


def zconsts(e):
    """ids of uninterpreted constants in a z3 term"""
    if isinstance(e, int):
        return frozenset()
    i = e.get_id()
    r = _zc_cache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.get_id())
        st.extend(t.children())
    out = frozenset(out)
    _zc_cache[i] = (e, out)
    return out


def zconst_terms(e):
    out = {}
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.get_id()] = t
        st.extend(t.children())
    return out


def free_consts(v, depth=0):
    """ids of z3 constants occurring in a value (over-approximation)"""
    if isinstance(v, SCALARS):
        return zconsts(v.e)
    if isinstance(v, z3.ExprRef):
        return zconsts(v)
    if isinstance(v, Seq):
        r = frozenset()
        for p in v.pieces:
            r |= free_piece(p)
        return r
    if isinstance(v, (tuple, list)):
        r = frozenset()
        for x in v:
            r |= free_consts(x)
        return r
    if isinstance(v, PList):
        return free_consts(v.seq)
    if isinstance(v, PDict):
        return free_consts(v.items)
    if isinstance(v, Obj):
        return free_consts(v.params)
    if isinstance(v, App):
        return free_consts(v.args) | free_consts([x for _, x in v.kw])
    if isinstance(v, SStr):
        return free_consts(v.parts)
    if isinstance(v, Partial):
        return free_consts(v.func) | free_consts(v.args) | free_consts(tuple(v.kw.values()))
    if isinstance(v, Bound):
        return free_consts(v.self)
    if isinstance(v, Substitutable):
        return free_consts(v.parts())
    if isinstance(v, PObj):
        return free_consts(tuple(v.fields.values()))
    if isinstance(v, LRef):
        return free_consts(v.value())
    if isinstance(v, Func):
        r = frozenset()
        env = v.closure
        while env is not None:
            for x in env.vars.values():
                if not isinstance(x, Func):
                    r |= free_consts(x)
            env = env.parent
        return r
    return frozenset()


def free_piece(p):
    if isinstance(p, Elem):
        return free_consts(p.v)
    if isinstance(p, Flat):
        d = zconsts(p.dom.n) if p.dom.keys is None else free_consts(p.dom.keys.params)
        return (free_consts(p.body) - {p.var.get_id()}) | d
    if isinstance(p, Alt):
        r = frozenset()
        for g, s in p.cases:
            r |= zconsts(g) | free_consts(s)
        return r
    if isinstance(p, Rho):
        return free_consts(p.params) | zconsts(p.len)
    raise TypeError(p)
