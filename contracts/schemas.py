"""Abstract objects (precondition vocabulary) shared by the contracts."""
import z3
from pyvc.values import *
from pyvc.engine import Engine, Choice, deref, wrapz, zi


def zargs(obj):
    return list(obj.params)


def ufun(name, ps, ret):
    return z3.Function(name, *[p.sort() for p in ps], ret)


def method(val):
    """schema attribute that is a method without arguments returning val(it, obj)"""
    return lambda it, o: Model(lambda it2, a, k: val(it2, o), "method")


class CellFam:
    """Reference cell: get_topology() maps the dimensions (an arbitrary ordered key set) to dictionaries
    whose keys are the entities of that dimension (an arbitrary ordered set of integers)."""
    def __init__(self, name="cell", cls=()):
        self.name = name
        self.dims = lambda ps: KeySet(name + "_dims", ps, U)
        self.ents = lambda ps, d: KeySet(name + "_ents", list(ps) + [d], z3.IntSort())
        self.schema = Schema(name, {"get_topology": method(self.topology),
                                    "topology": lambda it, o: self.topology(it, o)}, cls=cls)
    def obj(self, *ps):
        return Obj(self.name, ps, self.schema)
    def topology(self, it, o, leaf=None):
        leaf = leaf or (lambda d, e: App("vertices", (SU(d), SInt(e))))
        d, e = fresh_u("dim"), fresh_int("ent")
        inner = PDict(it.eng, Seq([Flat(e, Dom(keys=self.ents(o.params, d)), Seq([Elem((SInt(e), leaf(d, e)))]))]))
        return PDict(it.eng, Seq([Flat(d, Dom(keys=self.dims(o.params)), Seq([Elem((SU(d), inner))]))]))


def int_list(it, name, ps, kind="list"):
    """abstract list of integers name(ps, 0..len-1)"""
    n = ufun(name + "_len", ps, z3.IntSort())(*ps)
    it.eng.fact(n >= 0) if not any(z3.is_var(p) for p in ps) else None
    k = fresh_int()
    f = z3.Function(name, *[p.sort() for p in ps], z3.IntSort(), z3.IntSort())
    return Seq([Flat(k, Dom(n=n), Seq([Elem(SInt(f(*ps, k)))]))], kind)


class ElementFam:
    """finite element family name(i): entity DoF dictionaries over the entities of a cell"""
    def __init__(self, name, cell, cellps=lambda ps: (), extra=None, cls=()):
        self.name, self.cell, self.cellps = name, cell, cellps
        attrs = {"space_dimension": method(self.dim),
                 "cell": lambda it, o: cell.obj(*cellps(o.params)),
                 "entity_dofs": method(lambda it, o: self.dofdict(it, o, name + "_dof")),
                 "entity_closure_dofs": method(lambda it, o: self.dofdict(it, o, name + "_cdof")),
                 "entity_support_dofs": method(lambda it, o: self.dofdict(it, o, name + "_sdof")),
                 "_entity_closure_dofs": lambda it, o: self.dofdict(it, o, name + "_cdof"),
                 "_entity_support_dofs": lambda it, o: self.dofdict(it, o, name + "_sdof"),
                 "entity_permutations": lambda it, o: self.perms(it, o)}
        attrs.update(extra or {})
        self.schema = Schema(name, attrs, cls=cls)
    def obj(self, *ps):
        return Obj(self.name, ps, self.schema)
    def dim(self, it, o):
        t = ufun(self.name + "_dim", o.params, z3.IntSort())(*o.params)
        it.eng.fact(t >= 0)
        return SInt(t)
    def dofdict(self, it, o, fname):
        def leaf(d, e):
            ps = list(o.params) + [d, e]
            vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(ps)]
            f = ufun(fname + "_len", ps, z3.IntSort())
            if vs:
                it.eng.fact(z3.ForAll(vs, f(*vs) >= 0, patterns=[f(*vs)]))
            k = fresh_int()
            g = z3.Function(fname, *[p.sort() for p in ps], z3.IntSort(), z3.IntSort())
            return PList(it.eng, Seq([Flat(k, Dom(n=f(*ps)), Seq([Elem(SInt(g(*ps, k)))]))], "list"))
        return self.cell.topology(it, self.cell.obj(*self.cellps(o.params)), leaf)
    def perms(self, it, o):
        def leaf(d, e):
            ps = list(o.params) + [d, e]
            w = fresh_u("o")
            f = ufun(self.name + "_perm_len", ps, z3.IntSort())
            g = z3.Function(self.name + "_perm", *[p.sort() for p in ps], U, z3.IntSort(), z3.IntSort())
            vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(ps)]
            it.eng.fact(z3.ForAll(vs, f(*vs) >= 0, patterns=[f(*vs)]))
            k = fresh_int()
            lst = PList(it.eng, Seq([Flat(k, Dom(n=f(*ps)), Seq([Elem(SInt(g(*ps, w, k)))]))], "list"))
            return PDict(it.eng, Seq([Flat(w, Dom(keys=KeySet(self.cell.name + "_orient", list(self.cellps(o.params)) + [d, e], U)),
                                           Seq([Elem((SU(w), lst))]))]))
        return self.cell.topology(it, self.cell.obj(*self.cellps(o.params)), leaf)


def family(obj_of, n, kind="tuple"):
    """the sequence obj_of(0), ..., obj_of(n-1) of symbolic length n"""
    i = fresh_int("i")
    return Seq([Flat(i, Dom(n=n), Seq([Elem(obj_of(i))]))], kind)


class RangeCellFam(CellFam):
    """Reference cell whose entities of every dimension are numbered 0, ..., n-1 (needed where the code sorts them)"""
    def nents(self, ps, d):
        return z3.Function(self.name + "_nent", *[p.sort() for p in ps], d.sort(), z3.IntSort())(*ps, d)
    def topology(self, it, o, leaf=None):
        leaf = leaf or (lambda d, e: App("vertices", (SU(d), SInt(e))))
        d, e = fresh_u("dim"), fresh_int("ent")
        n = self.nents(o.params, d)
        f = z3.Function(self.name + "_nent", *[p.sort() for p in o.params], U, z3.IntSort())
        vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(o.params)] + [z3.Const("xd", U)]
        it.eng.fact(z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]))
        inner = PDict(it.eng, Seq([Flat(e, Dom(n=n), Seq([Elem((SInt(e), leaf(d, e)))]))]))
        return PDict(it.eng, Seq([Flat(d, Dom(keys=self.dims(o.params)), Seq([Elem((SU(d), inner))]))]))


def sym_shape(it, name, rank=None):
    """a shape: tuple of positive ints, concrete rank or symbolic rank"""
    if rank is None:
        r = z3.Int(name + "_rank")
        it.eng.assume(r >= 1)
        k = fresh_int()
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        x = z3.Int("x")
        it.eng.fact(z3.ForAll([x], f(x) >= 1, patterns=[f(x)]))
        return Seq([Flat(k, Dom(n=r), Seq([Elem(SInt(f(k)))]))], "tuple")
    out = []
    for i in range(rank):
        e = z3.Int(f"{name}{i}")
        it.eng.assume(e >= 1)
        out.append(SInt(e))
    return tuple(out)
