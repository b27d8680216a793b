"""Resolution of family names: every name, every cell, any degree.

The resolution is interpreted with a symbolic degree for each name and cell; the specification is the table of families (name, short name,
value rank, Sobolev space, mapping, range of degrees, cells) in oracles/uflspec.py."""
import warnings
import z3
import ufl
from pyvc.values import *
from .common import *
from .symgem import RunContract
from finat.ufl import elementlist
from oracles.uflspec import FAMILIES, SHORT, ALIASES, FEEC, TDIM, S, C as CUBES, canon

warnings.simplefilter("ignore")
CONTRACTS = []
CELLS = list(TDIM)
PRODUCTS = [("interval", "interval"), ("triangle", "interval"), ("quadrilateral", "interval"), ("interval", "interval", "interval")]
resolve = elementlist.canonical_element_description


def ucell(c):
    if c is None: return None
    return ufl.TensorProductCell(*[ufl.cell.as_cell(x) for x in c]) if isinstance(c, tuple) else ufl.cell.as_cell(c)


def tdim(c): return None if c is None else sum(TDIM[x] for x in c) if isinstance(c, tuple) else TDIM[c]


def on_cells(cells):
    @driver
    def run(it, args, kw):
        out = []
        for c in cells:
            try: out.append(("value", it.call(resolve, [args[0], ucell(c), *args[1:]], {})))
            except PyRaise as e: out.append(("raise", e))
        return out
    return run


def family_of(name): return SHORT.get(ALIASES.get(name, name), ALIASES.get(name, name))


CANON = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}


def spec(f, c, k):
    """(condition under which the family is defined there, description)"""
    short, rank, sob, mapping, (lo, hi), cells = FAMILIES[f]
    n = tdim(c)
    g = CANON.get(f, f) if c in CUBES[1:] or isinstance(c, tuple) else f
    ok = c is None or isinstance(c, tuple) or (c in cells and (g == f or c in FAMILIES[g][5]))
    if c is None and rank > 0: ok = False
    cond = z3.BoolVal(ok)
    if k is not None:
        cond = z3.And(cond, *([k >= lo] if lo is not None else []), *([k <= hi] if hi is not None else []))
    emb = n if any(b in f for b in ("Guzman-Neilan", "Bernardi-Raugel")) else (None if k is None else SInt(k))
    return cond, (g, short, None if k is None else SInt(k), (n,) * rank if n is not None else (), emb)


def check(it, name, c, k, res, f=None):
    f = f or family_of(name)
    cond, w = spec(f, c, k)
    where = f"{name!r} on {c}"
    kind, r = res
    if kind == "raise":
        it.eng.prove(z3.Not(cond), f"{where}: rejected only outside its range")
        return
    it.eng.prove(cond, f"{where}: accepted only inside its range")
    r = [it.eng.force(deref(x)) for x in it.iter_seq(r).items()]
    fam, short, deg, shape, sob, mapping, emb = r
    it.eng.equal((fam, short, deg, shape, emb), w, f"{where}: canonical family, short name, degree, value shape, embedded degree")
    it.eng.equal(mapping, FAMILIES[f][3], f"{where}: mapping")
    it.eng.equal(getattr(sob, "name", repr(sob)), FAMILIES[f][2], f"{where}: Sobolev space")


for name in list(FAMILIES) + list(SHORT) + list(ALIASES):
    for cells in [CELLS + PRODUCTS + ([None] if name not in ALIASES else [])]:
        def setup(it, name=name):
            k = z3.Int("degree")
            return [name, SInt(k), None], {}, k
        def ens(it, k, r, name=name, cells=cells):
            for c, x in zip(cells, r): check(it, name, c, k, x)
        CONTRACTS.append(Contract(f"{name}: every cell, any degree", setup, on_cells(cells), ens))
    legal_none = [c for c in CELLS + [None] * (name not in ALIASES) if not (c in CUBES[1:] and family_of(name) in ("Discontinuous Lagrange", "Discontinuous Lagrange L2"))]
    def setup0(it, name=name): return [name, None, None], {}, None
    def ens0(it, _, r, name=name, cells=legal_none):
        for c, x in zip(cells, r): check(it, name, c, None, x)
    CONTRACTS.append(Contract(f"{name}: every cell, no degree", setup0, on_cells(legal_none), ens0))


# ---------------------------------------------------------------- one degree per factor
for name in FAMILIES:
    if name in ("Discontinuous Lagrange", "Discontinuous Lagrange L2"): continue  # one degree only
    lo, hi = FAMILIES[name][4] or (None, None)
    for m in (2, 3):
        def setup_t(it, name=name, m=m):
            ks = [z3.Int(f"degree{i}") for i in range(m)]
            return [name, tuple(SInt(k) for k in ks), None], {}, ks
        def ens_t(it, ks, r, name=name, lo=lo, hi=hi, m=m):
            ok = z3.And([k >= lo for k in ks if lo is not None] + [k <= hi for k in ks if hi is not None] + [z3.BoolVal(FAMILIES[name][4] is not None)])
            for c, (kind, v) in zip(PRODUCTS, r):
                where = f"{name!r} on {c}"
                if kind == "raise":
                    it.eng.prove(z3.And(z3.Not(ok), z3.BoolVal(v.exc is ValueError)), f"{where}: rejected only where some degree is out of range")
                    continue
                it.eng.prove(ok, f"{where}: accepted only where every degree is in range")
                it.eng.equal(it.eng.force(deref(it.iter_seq(v).items()[2])), tuple(SInt(k) for k in ks), f"{where}: degrees")
        CONTRACTS.append(Contract(f"{name}: product cells, any {m} degrees", setup_t, on_cells(PRODUCTS), ens_t))


# ---------------------------------------------------------------- finite element exterior calculus
from oracles.uflspec import FEEC

FCELLS = ["vertex", *S[:3], *CUBES[1:3], "prism", "pyramid", "pentatope", "tesseract", None]


@driver
def feec_on_cells(it, args, kw):
    """every form degree that exists, and one that does not"""
    name, r, k = args
    out = []
    for c in FCELLS:
        n = tdim(c)
        for kk in [*range((n or 0) + 1), "outside"]:
            if kk == "outside":
                kk = SInt(k[c])
            try: out.append((c, kk, "value", it.call(resolve, [name, ucell(c), r, kk], {})))
            except PyRaise as e: out.append((c, kk, "raise", e))
    return out


for fam in FEEC:
    for lam in (" Lambda", ""):
        for l2 in ("", " L2"):
            name = fam + lam + l2
            def setupf(it, name=name):
                r, ks = z3.Int("order"), {}
                for c in FCELLS:
                    ks[c] = z3.Int(f"form_{c}")
                    n = tdim(c) or 0
                    it.eng.assume(z3.Or(ks[c] < 0, ks[c] > n))
                return [name, SInt(r), ks], {}, r
            def ensf(it, r, res, name=name, fam=fam, l2=l2):
                for c, kk, kind, x in res:
                    n = tdim(c)
                    where = f"{name!r} of form degree {kk if isinstance(kk, int) else 'outside 0..n'} on {c}"
                    if n is None or not 1 <= n <= 3 or not isinstance(kk, int):
                        it.eng.prove(z3.BoolVal(kind == "raise"), f"{where} is rejected")
                        continue
                    f, s = FEEC[fam][n - 1][kk]
                    check(it, name, c, r + s, (kind, x), family_of(f + (l2 if kk == n else "")))
            CONTRACTS.append(Contract(f"{name}: every form degree, every cell, any order", setupf, feec_on_cells, ensf))


# ---------------------------------------------------------------- the registry
import finat.ufl as fu
from .ufam import text, tuple_of


@driver
def register_twice(it, args, kw):
    fam, short = args
    it.call(elementlist.register_element, [fam, short, 0, None, "identity", (1, None), ()], {})


for f in list(FAMILIES) + list(SHORT):
    def setup(it, f=f): return [f, "short name of nobody"], {}, None
    CONTRACTS.append(Contract(f"{f}: registered already, registering it again is refused", setup, register_twice, must_raise, raises=raises(ValueError)))


# ---------------------------------------------------------------- elements carry the resolved data
def attributes(it, e):
    out = {k: it.call(it.getattr(e, k), [], {}) for k in ("family", "degree", "mapping", "variant", "quadrature_scheme")}
    return out | {k: it.getattr(e, k) for k in ("cell", "sobolev_space", "reference_value_shape", "embedded_subdegree", "embedded_superdegree")}


@driver
def carry(it, args, kw):
    name, cells, k = args
    out = []
    for c in cells:
        try: want = [it.eng.force(deref(x)) for x in it.iter_seq(it.call(resolve, [name, ucell(c), k, None], {})).items()]
        except PyRaise: want = None
        try: e = it.construct(fu.FiniteElement, [name, ucell(c), k], {"variant": text("variant"), "quad_scheme": text("scheme")})
        except PyRaise as x:
            out.append((c, want, x.exc, None))
            continue
        again = [it.eng.force(deref(x)) for x in it.iter_seq(it.call(resolve, [want[0], ucell(c), want[2], None], {})).items()] if want else None
        out.append((c, want, attributes(it, e), again))
    return out


for name in list(FAMILIES) + list(SHORT) + list(ALIASES):
    for deg in ("any", None):
        def setup(it, name=name, deg=deg):
            k = SInt(z3.Int("degree")) if deg else None
            cells = [c for c in CELLS if deg or not (c in CUBES[1:] and family_of(name) in ("Discontinuous Lagrange", "Discontinuous Lagrange L2"))]
            return [name, cells, k], {}, name
        def ens(it, name, r):
            for c, want, got, again in r:
                where = f"{name!r} on {c}"
                if want is None:
                    it.eng.prove(z3.BoolVal(got is ValueError), f"{where}: rejected like its description")
                    continue
                it.eng.prove(z3.BoolVal(isinstance(got, dict)), f"{where}: there is an element")
                fam, short, k, shape, sob, mapping, emb = want
                for key, w in (("family", fam), ("degree", k), ("reference_value_shape", shape), ("mapping", mapping), ("variant", text("variant")), ("quadrature_scheme", text("scheme")), ("cell", ucell(c))):
                    it.eng.equal(it.eng.force(deref(got[key])), w, f"{where}: {key}")
                it.eng.prove(z3.BoolVal(deref(got["sobolev_space"]) is sob or got["sobolev_space"] == sob), f"{where}: Sobolev space")
                if k is None or emb is None:
                    w = emb if k is None else k
                    for key in ("embedded_subdegree", "embedded_superdegree"): it.eng.equal(it.eng.force(deref(got[key])), w, f"{where}: {key}")
                else:
                    a, b = zi(k), zi(emb)
                    it.eng.equal(got["embedded_subdegree"], SInt(z3.If(a < b, a, b)), f"{where}: embedded sub-degree")
                    it.eng.equal(got["embedded_superdegree"], SInt(z3.If(a > b, a, b)), f"{where}: embedded super-degree")
                for x, y, what in zip(again, want, ("family", None, "degree", "shape", "Sobolev space", "mapping", "embedded degree")):
                    if what: it.eng.equal(x, y, f"{where}: the canonical name is a fixed point ({what})") if what != "Sobolev space" else it.eng.prove(z3.BoolVal(x == y), f"{where}: the canonical name is a fixed point ({what})")
        CONTRACTS.append(Contract(f"{name}: the element carries the resolved data, {'any degree' if deg else 'no degree'}", setup, carry, ens))


# ---------------------------------------------------------------- elements on product cells
def expansion(it, name, c, k, o):
    """the element that the name stands for on the product cell c"""
    T = ucell(c)
    E = lambda f, x, d: it.construct(fu.FiniteElement, [f, ucell(x), d], {"variant": o})
    TP = lambda *ps: it.construct(fu.TensorProductElement, list(ps), {"cell": T})
    less = SInt(zi(k) - 1)
    f = family_of(name)
    g = CANON.get(f, f)
    if g in ("Q", "DQ", "DQ L2"):
        simple = {"Q": ("CG", "CG"), "DQ": ("DG", "DQ"), "DQ L2": ("DG L2", "DQ L2")}[g]
        return TP(*[E(simple[x not in S], x, k) for x in c])
    H = lambda e: it.construct({"F": fu.HDivElement, "E": fu.HCurlElement}[g[-1]], [e], {})
    plus = lambda a, b: it.construct(fu.EnrichedElement, [a, b], {})
    if g in ("RTCF", "RTCE") and c == ("interval", "interval"):
        a, b = E("CG", "interval", k), E("DG", "interval", less)
        return plus(H(TP(a, b)), H(TP(b, a)))
    if g in ("NCF", "NCE") and c == ("quadrilateral", "interval"):
        q = "quadrilateral"
        x, y = (E("RTCF", q, k), E("DQ", q, less)) if g == "NCF" else (E("Q", q, k), E("RTCE", q, k))
        return plus(H(TP(x, E("DG", "interval", less))), H(TP(y, E("CG", "interval", k))))
    return None


@driver
def expand(it, args, kw):
    name, c, k, o = args
    try: got = it.construct(fu.FiniteElement, [name, ucell(c), k], {"variant": o})
    except PyRaise as e: got = e.exc
    try: want = expansion(it, name, c, k, o)
    except PyRaise as e: want = e.exc
    return got, want


def kind(it, e): return e if not isinstance(e, PObj) else e.cls
PNAMES = [n for n in list(FAMILIES) + list(SHORT) + list(ALIASES) if CANON.get(family_of(n), family_of(n)) in ("Q", "DQ", "DQ L2", "RTCF", "RTCE", "NCF", "NCE")]
for name in PNAMES:
    for c in PRODUCTS + [("interval", "quadrilateral"), ("interval", "triangle"), ("tetrahedron", "interval"), ("hexahedron", "interval")]:
        def setup(it, name=name, c=c): return [name, c, SInt(z3.Int("degree")), text("variant")], {}, (name, c)
        def ens(it, ctx, r):
            name, c = ctx
            got, want = r
            where = f"{name!r} on the product of {' and '.join(c)}"
            if want is None or isinstance(want, type):
                it.eng.prove(z3.BoolVal(got is ValueError), f"{where}: rejected where it is not defined")
                return
            it.eng.prove(z3.BoolVal(isinstance(got, PObj) and got.cls is want.cls), f"{where}: an element of the same kind as its expansion")
            it.eng.equal(it.tostr(got, "r"), it.tostr(want, "r"), f"{where}: its expansion")
        CONTRACTS.append(Contract(f"{name} on the product of {' and '.join(c)}: expansion, any degree and variant", setup, expand, ens))


# ---------------------------------------------------------------- elements named by form degree
@driver
def by_form(it, args, kw):
    name, r, fam, l2 = args
    out = []
    for c in FCELLS:
        n = tdim(c)
        if n is None or not 1 <= n <= 3: continue
        for k in range(n + 1):
            f, s = FEEC[fam][n - 1][k]
            pair = []
            for a, kw2 in (([name, ucell(c), r], {"form_degree": k, "variant": text("variant")}), ([f + (l2 if k == n else ""), ucell(c), SInt(zi(r) + s)], {"variant": text("variant")})):
                try: pair.append(it.construct(fu.FiniteElement, a, kw2))
                except PyRaise as e: pair.append(e.exc)
            out.append((f"{name!r} of form degree {k} on {c}", *pair))
    return out


for fam in FEEC:
    for lam in (" Lambda", ""):
        for l2 in ("", " L2"):
            name = fam + lam + l2
            if name in FAMILIES or name in SHORT: continue
            def setupg(it, name=name, fam=fam, l2=l2): return [name, SInt(z3.Int("order")), fam, l2], {}, None
            def ensg(it, _, r):
                for where, got, want in r:
                    if isinstance(want, type): it.eng.prove(z3.BoolVal(got is want), f"{where}: rejected like the family it stands for")
                    else:
                        it.eng.prove(z3.BoolVal(isinstance(got, PObj) and got.cls is want.cls), f"{where}: an element like the family it stands for")
                        it.eng.equal(it.tostr(got, "r"), it.tostr(want, "r"), f"{where}: the element of the family it stands for")
            CONTRACTS.append(Contract(f"{name}: the element of every form degree, any order", setupg, by_form, ensg))
