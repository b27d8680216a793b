"""P17: family names and aliases resolve to one well-defined element."""
import itertools
from finat.ufl import elementlist
from .uflspec import *

META = {"bounds": "all registered names, aliases and cells; degrees in -1..8 and None; one degree per factor on products of two and three intervals"}
CELLS = list(TDIM)


def cases(rng, tier):
    for f in FAMILIES:
        yield "family", {"family": f}
        if f not in ("Discontinuous Lagrange", "Discontinuous Lagrange L2"):
            yield "degrees", {"family": f}
    for f in list(FAMILIES) + list(SHORT) + list(ALIASES):
        yield "spelling", {"name": f}
    for f in FEEC:
        for c in S[:3] + C[1:3]:
            yield "feec", {"family": f, "cell": c}
    yield "registry", {}
    for c in (["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"], ["interval", "interval", "interval"]):
        yield "product", {"cell": c}
    for f in ("nonsense", "cg", "Lagrange ", "", "Q-", "P- Lambda"):
        yield "unknown", {"name": f}


def resolve(name, c, k, form=None):
    return elementlist.canonical_element_description(name, cell(c) if c else None, k, form)


def legal(f, c, k):
    short, rank, sob, mapping, (lo, hi), cs = FAMILIES[f]
    if c is not None and c not in cs:
        return False
    if c is not None and canon(f, c) != f and c not in FAMILIES[canon(f, c)][5]:
        return False
    return k is None or ((lo is None or k >= lo) and (hi is None or k <= hi))


def check_degrees(family):
    """one degree per factor of a product cell"""
    lo, hi = FAMILIES[family][4] or (None, None)
    for m in (2, 3):
        c = ufl.TensorProductCell(*[ufl.interval] * m)
        for ks in itertools.product(range(-1, 7 if m == 2 else 3), repeat=m):
            try:
                r = elementlist.canonical_element_description(family, c, ks, None)
            except ValueError:
                r = None
            ok = FAMILIES[family][4] is not None and all((lo is None or k >= lo) and (hi is None or k <= hi) for k in ks)
            require((r is not None) == ok, f"{family} of degrees {ks} is {'accepted' if r else 'rejected'}")
            require(r is None or tuple(r[2]) == ks, f"{family} of degrees {ks} has degrees {r and r[2]}")


def expected(f, c, k):
    short, rank, sob, mapping, krange, cs = FAMILIES[f]
    n = TDIM[c] if c else None
    g = canon(f, c)
    emb = n if any(b in f for b in ("Guzman-Neilan", "Bernardi-Raugel")) else k
    return g, short, k, (n,) * rank, sob, mapping, emb


def check_family(family):
    for c in CELLS + [None]:
        for k in [None] + list(range(-1, 9)):
            if c in C[1:] and family in ("Discontinuous Lagrange", "Discontinuous Lagrange L2") and k is None:
                continue
            try:
                r = resolve(family, c, k)
            except ValueError:
                require(not legal(family, c, k) or (c is None and FAMILIES[family][1] > 0), f"{family} of degree {k} on {c} is rejected")
                continue
            require(legal(family, c, k), f"{family} of degree {k} on {c} is accepted")
            w = expected(family, c, k)
            require(r[:4] + (r[4].name,) + r[5:] == w, f"{family} of degree {k} on {c} resolves to {r}, expected {w}")
            if c is not None and k is not None:
                # canonical names are fixed points
                require(resolve(r[0], c, k)[0] == r[0] and resolve(r[0], c, k)[2:] == r[2:], f"{r[0]} is not a fixed point of the resolution")
                e = fu.FiniteElement(family, cell(c), k)
                require((e.family(), e.degree(), e.mapping(), e.sobolev_space.name, e.reference_value_shape) == (w[0], k, w[5], w[4], w[3]), f"element {e!r} does not carry the resolved data")
                require(e.embedded_superdegree == max(k, w[6]) and e.embedded_subdegree == min(k, w[6]), "embedded degrees")
                require(e == fu.FiniteElement(e.family(), e.cell, e.degree()), "rebuilding from the canonical description")


def check_spelling(name):
    f = SHORT.get(ALIASES.get(name, name), ALIASES.get(name, name))
    for c in CELLS:
        for k in range(-1, 7):
            try:
                a = resolve(f, c, k)
            except ValueError:
                a = None
            try:
                b = resolve(name, c, k)
            except ValueError:
                b = None
            require(a == b, f"{name} of degree {k} on {c} resolves to {b}, {f} to {a}")
            if a:
                require(fu.FiniteElement(name, cell(c), k) == fu.FiniteElement(f, cell(c), k), "elements differ")


def check_feec(family, cell):
    c, n = cell, TDIM[cell]
    simplicial = c in S
    for l2 in ("", " L2"):
        for lam in (" Lambda", ""):
            for k in range(-1, n + 2):
                for r in range(0, 5):
                    name = family + lam + l2
                    if family == "P" and lam == "" and l2 == "":
                        pass
                    try:
                        got = resolve(name, c, r, k)
                    except (ValueError, IndexError):
                        got = None
                    if not 0 <= k <= n:
                        require(got is None, f"{name} with form degree {k} on {c} is accepted as {got}")
                        continue
                    f, s = FEEC[family][n - 1][k]
                    if l2 and k == n:
                        f += " L2"
                    try:
                        want = resolve(f, c, r + s)
                    except ValueError:
                        want = None
                    require(got == want, f"{name} of degree {r} and form degree {k} on {c} resolves to {got}, {f} of degree {r + s} to {want}")
                    if want:
                        require(fu.FiniteElement(name, globals()["cellof"](c), r, form_degree=k) == fu.FiniteElement(f, globals()["cellof"](c), r + s), "elements differ")
                        part = fu.FiniteElement(f, globals()["cellof"](c), r + s)
                        require(fu.VectorElement(name, globals()["cellof"](c), r, form_degree=k) == fu.VectorElement(part), f"vector element of {name} with form degree {k} on {c}")


cellof = lambda c: ufl.cell.as_cell(c)


def check_registry():
    """every name resolves, to the canonical family of its entry; nothing is registered twice"""
    names = set(elementlist.ufl_elements)
    require(names >= set(FAMILIES) | set(SHORT), f"documented names are not registered: {(set(FAMILIES) | set(SHORT)) - names}")
    for nme in set(FAMILIES) | set(SHORT):
        require(elementlist.ufl_elements[nme][0] == SHORT.get(nme, nme), f"{nme} names the family {elementlist.ufl_elements[nme][0]}")
    lam = {f + l + s for f in FEEC for l in (" Lambda", "") for s in ("", " L2")} - {"P", "S", "P L2", "S L2"}
    require(set(elementlist.aliases) >= set(ALIASES) | lam, f"documented aliases are missing: {(set(ALIASES) | lam) - set(elementlist.aliases)}")
    saved = dict(elementlist.ufl_elements)
    try:
        for nme in sorted(set(FAMILIES) | set(SHORT)):
            for short in (None, "CG", "a short name nobody uses"):
                try:
                    elementlist.register_element(nme, short, 0, None, "identity", (1, None), ())
                except ValueError:
                    require(elementlist.ufl_elements == saved, f"the refused registration of {nme} left its traces")
                    continue
                raise Broken(f"{nme} was registered twice")
        new, short = "a family nobody knows", "its short name"
        elementlist.register_element(new, short, 1, None, "identity", (2, 3), ("triangle",))
        for key in (new, short):
            require(elementlist.ufl_elements[key] == (new, short, 1, None, "identity", (2, 3), ("triangle",)), f"{key} is not registered as given")
        elementlist.register_element(new + " too", None, 1, None, "identity", (2, 3), ("triangle",))
        require(set(elementlist.ufl_elements) == set(saved) | {new, short, new + " too"}, "registration changed other entries")
    finally:
        elementlist.ufl_elements.clear()
        elementlist.ufl_elements.update(saved)


def check_product(cell):
    c = cellname = cell
    T = globals()["ufl"].TensorProductCell(*[cellof(x) for x in c])
    E = lambda f, x, k, **o: fu.FiniteElement(f, cellof(x), k, **o)
    for k in (1, 2, 3):
        for o in ({}, {"variant": "spectral"}):
            for spell in ("Q", "CG", "Lagrange", "P"):
                require(fu.FiniteElement(spell, T, k, **o) == fu.TensorProductElement(*[E("CG", x, k, **o) for x in c], cell=T), f"{spell} on {c}")
            for spell in ("DQ", "DG", "DP"):
                require(fu.FiniteElement(spell, T, k, **o) == fu.TensorProductElement(*[E("DG" if x in S else "DQ", x, k, **o) for x in c], cell=T), f"{spell} on {c}")
            for spell in ("DQ L2", "DG L2", "DP L2"):
                require(fu.FiniteElement(spell, T, k, **o) == fu.TensorProductElement(*[E("DG L2" if x in S else "DQ L2", x, k, **o) for x in c], cell=T), f"{spell} on {c}")
            TP = lambda a, b: fu.TensorProductElement(a, b, cell=T)
            H = {"RTCF": fu.HDivElement, "NCF": fu.HDivElement, "RTCE": fu.HCurlElement, "NCE": fu.HCurlElement}
            for f in H:
                want = None
                if c == ["interval", "interval"] and f[0] == "R":
                    a, b = E("CG", "interval", k, **o), E("DG", "interval", k - 1, **o)
                    want = fu.EnrichedElement(H[f](TP(a, b)), H[f](TP(b, a)))
                if c == ["quadrilateral", "interval"] and f[0] == "N":
                    q = "quadrilateral"
                    x, y = (E("RTCF", q, k, **o), E("DQ", q, k - 1, **o)) if f == "NCF" else (E("Q", q, k, **o), E("RTCE", q, k, **o))
                    want = fu.EnrichedElement(H[f](TP(x, E("DG", "interval", k - 1, **o))), H[f](TP(y, E("CG", "interval", k, **o))))
                try:
                    got = fu.FiniteElement(f, T, k, **o)
                except ValueError:
                    got = None
                require(got == want, f"{f} of degree {k} on {c} is {got}, expected {want}")


def check_unknown(name):
    if name in elementlist.aliases:
        try:
            fu.FiniteElement(name, cellof("triangle"), 1)
        except (ValueError, IndexError, TypeError):
            pass
        else:
            raise Broken(f"{name} without form degree accepted")
        return
    for c in CELLS:
        try:
            fu.FiniteElement(name, cellof(c), 1)
        except ValueError:
            continue
        raise Broken(f"{name!r} accepted on {c}")
