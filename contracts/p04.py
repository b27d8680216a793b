"""P04: EnrichedElement and mixed elements: basis functions of the parts in consecutive blocks."""
from .evals import *
from finat import enriched, mixed
from finat.enriched import EnrichedElement
from finat.mixed import MixedSubElement, MixedElement

CONTRACTS = []


def C(name, setup, target, ensures, **kw):
    CONTRACTS.append(Contract(name, setup, target, ensures, **kw))


def fsize(it, shape):
    return prod_of(it, shape)


def parts(it, vshape=None, ishape=None, n=None):
    cell = CellFam()
    el = EvalFam("el", cell, vshape=vshape or (lambda it, ps: shape_fun("vsh", [], it)),
                 ishape=ishape, notcls=(EnrichedElement,), extra={"space_dimension": method(lambda it, o: SInt(prod_of(it, el.ishape_f(it, o.params))))})
    if n is None:
        n = z3.Int("n")
        it.eng.assume(n >= 2)
        els = family(el.obj, n)
    else:
        els = tuple(el.obj(z3.IntVal(i)) for i in range(n))
    return el, els, n


def ee_setup(dual=False, **k):
    def setup(it):
        el, els, n = parts(it, **k)
        o = it.construct(EnrichedElement, [els], {})
        return [o, *rargs(it)], {}, (el, n, rargs(it))
    return setup


def block_spec(it, el, n, mk):
    """entries at (position, value): block b at off(b) + flat position"""
    u = fresh_int("u")
    vsh = as_seq_(el.vshape_f(it, ()))
    def pos_value(b, flat, vs):
        ish = as_seq_(el.ishape_f(it, [b]))
        return gm.den(it, mk(b), gm.unravel_slots(it, ish, flat) + vs)
    return pos_value


def ee_ensures(what):
    """stated block by block: entry off(b) + p of the table is entry p (C order) of part b's table"""
    def ens(it, ctx, r):
        el, n, (order, ps, ent) = ctx
        e = it.eng
        cm = z3.Const("None", U) if what == "tab" else None
        al = fresh_u("alpha")
        ks = KeySet("derivatives", [order.e], U)
        # keys of the result
        e.equal(it.mk(e.norm(it.iter_seq(r)), "tuple"), it.mk(Seq([Flat(al, Dom(keys=ks), Seq([Elem(SU(al))]))]), "tuple"), "one entry per derivative")
        a = fresh_u("alpha")
        e.pc.append(ks.member(a))
        t = e.force(it.getitem(r, SU(a)))
        nz = z3.IntVal(n) if isinstance(n, int) else n
        u = fresh_int("u")
        size = lambda i: prod_of(it, as_seq_(el.ishape_f(it, [i])))
        off = lambda i: e.sum_over(u, Dom(n=i), size(u))
        vsh = as_seq_(el.vshape_f(it, ()))
        e.equal(it.mk(e.norm(t.shape), "tuple"), it.mk(Seq([Elem(SInt(off(nz)))] + list(vsh.pieces)), "tuple"), "index shape is the sum of the parts' dimensions, then the value shape")
        b, p = fresh_int("b"), fresh_int("p")
        e.pc.append(z3.And(b >= 0, b < nz, p >= 0, p < size(b)))
        # lemma: offsets are monotone and the block lies inside
        lem = z3.And(off(b) >= 0, off(b + 1) == off(b) + size(b), off(b + 1) <= off(nz))
        e.prove(lem, "lemma: block b lies inside the table")
        e.pc.append(lem)
        vs = gm.generic_slots(it, vsh)
        got = gm.den(it, t, [gm.Slot("i", z3.simplify(off(b) + p))] + vs)
        want = gm.den(it, el.table(it, [b], a, order.e, ps.e, ent.e, cm, what), gm.unravel_slots(it, as_seq_(el.ishape_f(it, [b])), p) + vs)
        e.prove(got == want, "entry off(b) + p is entry p of part b")
    return ens


vec = lambda it, ps: (SInt(ufun("el_dim1", ps, I)(*ps)),)


def pos_vec(it, ps):
    f = ufun("el_dim1", ps, I)
    vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(ps)]
    it.eng.fact(z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]))
    return (SInt(f(*ps)),)


def pos_mat(it, ps):
    out = []
    for j in range(2):
        f = ufun(f"el_dim2_{j}", ps, I)
        vs = [z3.Const(f"x{i}", p.sort()) for i, p in enumerate(ps)]
        it.eng.fact(z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]))
        out.append(SInt(f(*ps)))
    return tuple(out)


for nm, ish in (("abstract index shapes", None), ("rank-1 index shapes", pos_vec), ("rank-2 index shapes", pos_mat)):
    C(f"EnrichedElement.basis_evaluation[any number of parts, {nm}]", ee_setup(ishape=ish), meth("basis_evaluation"), ee_ensures("tab"))
    C(f"EnrichedElement.point_evaluation[any number of parts, {nm}]", ee_setup(ishape=ish), meth("point_evaluation"), ee_ensures("ptab"))


# ---- MixedSubElement: the part's value components go to consecutive positions offset, ..., zeros elsewhere
def sub_setup(vrank):
    def setup(it):
        e = it.eng
        vsh = (lambda i2, ps: sym_shape(i2, "vs", vrank) if vrank else ()) if vrank is not None else (lambda i2, ps: shape_fun("vs", [], i2))
        el = EvalFam("el", CellFam(), vshape=vsh)
        size, offset = z3.Int("size"), z3.Int("offset")
        nv = prod_of(it, as_seq_(vsh(it, ())))
        e.assume(z3.And(offset >= 0, size >= 0, offset + nv <= size))
        o = it.construct(MixedSubElement, [el.obj(), SInt(size), SInt(offset)], {})
        return [o, *rargs(it)], {}, (el, vsh, size, offset, nv, rargs(it))
    return setup


def sub_ensures(what):
    def ens(it, ctx, r):
        el, vsh, size, offset, nv, (order, ps, ent) = ctx
        e = it.eng
        cm = z3.Const("None", U) if what == "tab" else None
        ish = list(as_seq_(el.ishape_f(it, ())).pieces)
        vs = as_seq_(vsh(it, ()))
        def f(al, t):
            def fn(s):
                i, z = s[:len(ish)], s[len(ish)].term
                q = z3.simplify(z - offset)
                return z3.If(z3.And(q >= 0, q < nv), gm.den(it, t, i + gm.unravel_slots(it, vs, q)), z3.RealVal(0))
            return gm.Fun(Seq(ish + [Elem(SInt(size))], "tuple"), fn)
        e.equal(r, el.tables(it, (), order.e, ps.e, ent.e, cm, what, f=f), "value components at offset in row-major order, zero elsewhere")
    return ens


for nm, vr in (("scalar", 0), ("vector", 1), ("any rank", None)):
    C(f"MixedSubElement.basis_evaluation[{nm} part]", sub_setup(vr), meth("basis_evaluation"), sub_ensures("tab"))
    C(f"MixedSubElement.point_evaluation[{nm} part]", sub_setup(vr), meth("point_evaluation"), sub_ensures("ptab"))


from . import p01
for _n in ("EnrichedElement.entity_dofs", "concatenate_entity_dofs", "MixedElement", "EnrichedElement.__new__[>= 2 parts, not nested]",
           "EnrichedElement.__new__[nested]", "EnrichedElement.__new__[one part]"):
    CONTRACTS.extend(c for c in p01.CONTRACTS if c.name == _n)
