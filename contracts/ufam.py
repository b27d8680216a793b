"""Abstract form-language elements, evaluation of representations, pickling."""
import ast
import types
import z3
import ufl
import finat.ufl as fu
from finat.ufl.finiteelementbase import FiniteElementBase
from .common import *


def text(name, *ps):
    """an arbitrary name (a non-empty string without quotes, backslashes and line breaks)"""
    e = z3.Function(name, *[p.sort() for p in ps], U)(*ps) if ps else z3.Const(name, U)
    return SStr([App("text", (SU(e),))])


def uf(name, o, *more):
    ps = [*o.params, *more]
    return z3.Function(name, *[p.sort() for p in ps], z3.IntSort())(*ps) if ps else z3.Int(name)


class UFam:
    """Form-language elements name(i). What is known: the cell; degree "int" (any), None or a number of entries (tuple); rank of the value shape
    (None: symbolic); the embedded sub-degree is at most the super-degree; quad/variant None or any name; space: Sobolev space or list per index."""
    def __init__(self, name, cell, deg="int", rank=0, quad=None, variant=None, mapping=None, space=None, kw=(), base=None, fam=None, emb=True, shape=None):
        self.name, self.cell, self.deg, self.rank, self.quad, self.var, self.map, self.space, self.kw, self.fam, self.emb, self.shp = name, cell, deg, rank, quad, variant, mapping, space, dict(kw), fam, emb, shape
        self.base = base or name
        m = method
        self.schema = Schema(name, {
            "cell": lambda it, o: self.cell, "degree": m(self.degree), "quadrature_scheme": m(lambda it, o: self.named("quad", it, o)),
            "variant": m(lambda it, o: self.named("var", it, o)), "mapping": m(lambda it, o: self.named("map", it, o)), "family": m(lambda it, o: self.named("fam", it, o) or text(self.name + "_family", *o.params)),
            "reference_value_shape": self.shape, "reference_value_size": lambda it, o: SInt(prod_of(it, self.shape(it, o))),
            "embedded_subdegree": lambda it, o: self.embedded(it, o, 0), "embedded_superdegree": lambda it, o: self.embedded(it, o, 1),
            "sobolev_space": lambda it, o: self.space(it, o) if callable(self.space) and not isinstance(self.space, ufl.sobolevspace.SobolevSpace) else self.space,
            "pullback": lambda it, o: App("pullback", (o,)), "symmetry": lambda it, o: Model(lambda it2, a, k: it2.eng.new_dict() if hasattr(it2.eng, "new_dict") else PDict(it2.eng, Seq()), "symmetry"),
            "is_cellwise_constant": m(lambda it, o: SBool(z3.Function(self.name + "_const", *[p.sort() for p in o.params], z3.BoolSort())(*o.params))),
            "_is_linear": m(lambda it, o: SBool(z3.Function(self.name + "_lin", *[p.sort() for p in o.params], z3.BoolSort())(*o.params))),
            "num_sub_elements": lambda it, o: 0, "sub_elements": lambda it, o: (),
            "reconstruct": lambda it, o: Model(lambda it2, a, k: self.reconstruct(it2, o, a, k), "reconstruct"),
            "__repr__": lambda it, o: SStr([App("represented", (o, App("kw", (), self.kw)))]),
            "__str__": lambda it, o: SStr([App("printed", (o, App("kw", (), self.kw)))]),
            "shortstr": m(lambda it, o: SStr([App("short", (o, App("kw", (), self.kw)))]))}, cls=(FiniteElementBase,))
        self.schema.missing = ("_sub_elements", "_elements", "_element", "_sub_element", "wrapee")
        for k in ("family", "cell", "degree", "reference_value_shape"):       # the slots of the base class hold what the accessors return
            a = self.schema.attrs[k]
            self.schema.attrs["_" + k] = a if k in ("cell", "reference_value_shape") else lambda it, o, a=a: a(it, o).f(it, [], {})
        self.schema.attrs["_quad_scheme"] = lambda it, o: self.named("quad", it, o)
        self.schema.isinstance = self.isinst

    def obj(self, *ps): return Obj(self.name, [z3.IntVal(p) if isinstance(p, int) else p for p in ps], self.schema)

    def isinst(self, it, o, c):
        if isinstance(c, type) and issubclass(c, FiniteElementBase): raise Unsupported(f"is a part an instance of {c.__name__}?")
        return False

    def named(self, what, it, o):
        v = getattr(self, what)
        if v is None or isinstance(v, (str, SStr)): return v
        return v(it, o)

    def degree(self, it, o):
        if self.deg is None: return None
        ks = [SInt(uf(self.name + "_deg", o))] if self.deg == "int" else [SInt(uf(self.name + "_deg", o, z3.IntVal(j))) for j in range(self.deg)]
        for k in ks: it.eng.fact(k.e >= 0) if not _bound(k.e) else None
        return ks[0] if self.deg == "int" else tuple(ks)

    def embedded(self, it, o, up):
        a, b = uf(self.name + "_sub", o), uf(self.name + "_sup", o)
        f, g = a.decl(), b.decl()
        vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(o.params)]
        if vs:
            it.eng.fact(z3.ForAll(vs, z3.And(f(*vs) <= g(*vs), f(*vs) >= 0), patterns=[f(*vs)]))
            it.eng.fact(z3.ForAll(vs, z3.And(f(*vs) <= g(*vs), f(*vs) >= 0), patterns=[g(*vs)]))
        else:
            it.eng.fact(z3.And(a <= b, a >= 0))
        return SInt(b if up else a)

    def shape(self, it, o):
        if self.shp is not None: return self.shp(it, o) if callable(self.shp) else self.shp
        if self.rank is None: return shape_fun(self.name + "_shape", list(o.params), it)
        out = []
        for j in range(self.rank):
            e = uf(self.name + "_ext", o, z3.IntVal(j))
            f = e.decl()
            vs = [z3.Const(f"x{i}", z3.IntSort()) for i in range(f.arity())]
            it.eng.fact(z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]))
            out.append(SInt(e))
        return tuple(out)

    def reconstruct(self, it, o, a, kw):
        """a part rebuilt with changes: an element about which the same is known, with the changes asked for"""
        if a: raise Unsupported("positional argument of reconstruct")
        kw = {k: deref(v) for k, v in kw.items() if v is not None}
        tag = self.base + "".join(f"|{k}" for k in sorted(kw))
        if not kw: return o
        d = kw.get("degree")
        deg = self.deg
        f = UFam(tag, kw.get("cell", self.cell), deg=deg, rank=self.rank, quad=kw.get("quad_scheme", self.quad), variant=kw.get("variant", self.var), mapping=self.map, space=self.space,
                 kw={**self.kw, **kw}, fam=self.fam, emb=self.emb, shape=self.shp)
        if d is not None and self.deg is not None:
            f.degree = lambda it2, o2: d if self.deg == "int" else (d,) * self.deg
            f.schema.attrs["degree"] = method(f.degree)
        return Obj(tag, o.params, f.schema)


def _bound(e):
    return any(z3.is_var(x) for x in _walk(e))


def _walk(e):
    yield e
    for c in e.children(): yield from _walk(c)


# ---------------------------------------------------------------- evaluation of a representation
NAMES = {**{k: getattr(fu, k) for k in dir(fu) if k[:1].isupper()}, **{k: ufl.cell.as_cell(k) for k in ("vertex", "interval", "triangle", "tetrahedron", "pentatope", "quadrilateral", "hexahedron", "tesseract", "prism", "pyramid")},
         "TensorProductCell": ufl.TensorProductCell, "Cell": ufl.Cell}


def evaluate(it, s):
    """Python's eval of a representation in which the representations of parts evaluate to the parts, numerals to numbers and quoted names to the names"""
    src, env = "", {}
    for p in (s.parts if isinstance(s, SStr) else (s,)):
        if isinstance(p, str):
            src += p
            continue
        nm = f"_t{len(env)}"
        if p.fn == "represented": env[nm] = p.args[0]
        elif p.fn == "str" and isinstance(p.args[0], SInt): env[nm] = p.args[0]
        elif p.fn == "text":
            if not src.endswith("'"): raise Unsupported("unquoted name in a representation")
            env[nm] = SStr([p])
        else: raise Unsupported(f"representation contains {p!r}")
        src += nm
    try: tree = ast.parse(src, mode="eval").body
    except SyntaxError: raise PyRaise(SyntaxError, (src,))

    def ev(n):
        if isinstance(n, ast.Name):
            if n.id in env: return env[n.id]
            if n.id in NAMES: return NAMES[n.id]
            raise PyRaise(NameError, (n.id,))
        if isinstance(n, ast.Constant):
            return env[n.value] if isinstance(n.value, str) and n.value in env else n.value
        if isinstance(n, ast.Tuple): return tuple(map(ev, n.elts))
        if isinstance(n, ast.List): return it.eng.new_list(Seq([Elem(ev(x)) for x in n.elts], "list"))
        if isinstance(n, ast.Dict): return it.dict_from_pairs(Seq([Elem((ev(k), ev(v))) for k, v in zip(n.keys, n.values)]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return -ev(n.operand)
        if isinstance(n, ast.Call):
            f = ev(n.func)
            args, kw = [ev(a) for a in n.args], {k.arg: ev(k.value) for k in n.keywords}
            return it.construct(f, args, kw) if isinstance(f, type) else it.call(f, args, kw)
        raise Unsupported(f"representation contains {ast.dump(n)[:60]}")
    return ev(tree)


def pickled(it, e):
    """the object that unpickling or copying e gives (copyreg protocol 2), with parts unpickling to themselves"""
    cls = e.cls
    for nm in ("__reduce_ex__", "__getstate__", "__setstate__", "__copy__", "__deepcopy__", "__getnewargs_ex__"):
        if isinstance(getattr(cls, nm, None), types.FunctionType): raise Unsupported(f"{nm} of {cls.__name__}")
    if isinstance(cls.__reduce__, types.FunctionType):
        r = it.iter_seq(it.call(it.getattr(e, "__reduce__"), [], {})).items()
        if len(r) != 2: raise Unsupported("__reduce__ with state")
        return it.construct(deref(r[0]), list(it.iter_seq(r[1]).items()), {})
    args = list(it.iter_seq(it.call(it.getattr(e, "__getnewargs__"), [], {})).items()) if isinstance(getattr(cls, "__getnewargs__", None), types.FunctionType) else []
    if isinstance(cls.__new__, types.FunctionType):
        out = it.call(cls.__new__, [cls, *args], {})
    else:
        if args: raise PyRaise(TypeError, (f"{cls.__name__}.__new__ takes no arguments",))
        out = it.eng.new_obj(cls)
    if isinstance(out, PObj):
        for k, v in e.fields.items(): out.set(k, v)
    return out


@driver
def same_element(it, args, kw): raise NotImplementedError


OBS = ("family", "degree", "quadrature_scheme", "variant", "mapping")


def observe(it, e, skip=()):
    """what an element tells about itself"""
    out = {}
    if not isinstance(e, PObj): return {"value": e}
    out["type"] = e.cls.__name__
    out["repr"] = it.tostr(e, "r")
    for nm in OBS:
        if nm not in skip: out[nm] = it.call(it.getattr(e, nm), [], {})
    for nm in ("cell", "reference_value_shape", "num_sub_elements"):
        if nm not in skip: out[nm] = it.getattr(e, nm)
    for nm in ("restriction_domain", "sub_element", "symmetry", "flattened_sub_element_mapping", "restricted_sub_elements"):
        if hasattr(e.cls, nm) and nm not in skip and not (nm == "symmetry" and issubclass(e.cls, fu.MixedElement) and e.cls is not fu.TensorElement):
            out[nm] = it.call(it.getattr(e, nm), [], {})
    if "sub_elements" not in skip:
        out["sub_elements"] = tuple_of(it, it.getattr(e, "sub_elements"))
    return out


def tuple_of(it, s):
    s = it.iter_seq(s)
    return tuple(s.items()) if s.concrete else s.as_kind("tuple")


def agree(it, a, b, what):
    if set(a) != set(b): return it.eng.fail(what, f"{a} against {b}")
    for k in a:
        it.eng.equal(_plain(it, a[k]), _plain(it, b[k]), f"{what}: {k}")


def _plain(it, v):
    v = it.eng.force(deref(v))
    if isinstance(v, Seq): return v.as_kind("tuple")
    if isinstance(v, PList): return tuple_of(it, v)
    return v
