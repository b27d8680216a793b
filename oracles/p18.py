"""P18: composite form-language elements report consistent metadata."""
from ufl.sobolevspace import DirectionalSobolevSpace, L2, SobolevSpace
from .uflspec import *
from .p15 import leaves, at
from .p16 import refshape as rs16
from ufl.utils.sequences import product

META = {"bounds": "random element descriptions of nesting depth at most 3"}
A = ["TP", [["F", "CG", "interval", 1, {}], ["F", "DG", "interval", 0, {}]], None]
B = ["TP", [["F", "DG", "interval", 0, {}], ["F", "CG", "interval", 2, {}]], None]
D = ["TP", [["F", "CG", "interval", 2, {}], ["F", "CG", "interval", 1, {}]], None]
Tr = lambda f, k: ["F", f, "triangle", k, {}]
FIX = [["ENR", [A, B]], ["ENR", [A, D]], ["ENR", [D, B]], ["ENR", [A, A]], ["MIX", [A, B]], ["MIX", [D, B, A]], ["ENR", [["HDIV", A], ["HDIV", B]]], ["ENR", [["HCURL", A], ["HCURL", B]]],
       ["ENR", [Tr("RT", 1), Tr("N1curl", 1)]], ["MIX", [Tr("RT", 1), Tr("N1curl", 1)]], ["MIX", [Tr("CG", 2), Tr("ARG", 5), Tr("DG", 1)]], ["MIX", [Tr("RT", 2), Tr("CG", 1)]],
       ["ENR", [["V", Tr("CG", 1), 2], Tr("BRB", None)]], ["ENR", [Tr("BRB", None), ["V", Tr("CG", 1), 2]]], ["MIX", [Tr("GNB", None), Tr("CG", 3)]], ["RES", Tr("BR", 1), "facet"],
       ["RES", A, "facet"], ["RES", ["ENR", [A, B]], "interior"], ["TP", [A, ["F", "CG", "interval", 3, {}]], None], ["TP", [A, A], None], ["BRK", ["ENR", [A, B]]], ["WM", Tr("RT", 1), "identity"],
       ["WM", Tr("RT", 1), "contravariant Piola"], ["WM", ["HDIV", A], "identity"], ["WM", Tr("CG", 1), "covariant Piola"], ["WM", Tr("HHJ", 1), "double covariant Piola"],
       ["TP", [Tr("RT", 1), ["F", "DG", "interval", 0, {}]], None], ["HDIV", ["TP", [Tr("RT", 1), ["F", "DG", "interval", 0, {}]], None]], ["BRK", Tr("RT", 2)], ["NEN", [Tr("CG", 1), Tr("B", 3)]],
       ["ENR", [Tr("CG", 1), Tr("Real", 0)]], ["TP", [["F", "DG L2", "interval", 1, {}], ["F", "DG L2", "interval", 2, {}]], None], ["TP", [["F", "DG L2", "interval", 1, {}], ["F", "CG", "interval", 2, {}]], None],
       ["MIX", [Tr("Regge", 1), Tr("HHJ", 1)]], ["ENR", [Tr("Regge", 1), Tr("HHJ", 1)]], ["MIX", [Tr("GLS", 1), Tr("HHJ", 1), Tr("CG", 1)]]]


def cases(rng, tier):
    for t in FIX:
        yield "metadata", {"tree": t}
    for _ in range(1200 if tier == "quick" else 15000):
        yield "metadata", {"tree": rand_ok(rng, rng.choice([1, 2, 2, 3]))}


# ---------------------------------------------------------------- model
def degmax(ds):
    ds = [d for d in ds if d is not None]
    if all(isinstance(d, int) for d in ds):
        return max(ds) if ds else None
    n = max(len(d) for d in ds if isinstance(d, tuple))
    return tuple(degmax([d[i] if isinstance(d, tuple) else d for d in ds]) for i in range(n))


def subs(t):
    return t[1] if t[0] in ("MIX", "ENR", "NEN", "TP") else [t[1]]


def degree(t):
    if t[0] == "F":
        return t[3]
    if t[0] == "TP":
        return tuple(map(degree, t[1]))
    return degmax(map(degree, subs(t)))


def emb(t):
    """(embedded sub-degree, super-degree)"""
    if t[0] == "F":
        f = canon(t[1], t[2])
        x = TDIM[t[2]] if any(b in f for b in ("Guzman-Neilan", "Bernardi-Raugel")) else t[3]
        k = x if t[3] is None else t[3]
        return min(k, x), max(k, x)
    es = [emb(x) for x in subs(t)]
    return min(e[0] for e in es), (sum if t[0] == "TP" else max)(e[1] for e in es)


def variant(t):
    if t[0] == "F":
        return t[4].get("variant")
    if t[0] == "BRK":
        return None
    vs = {variant(x) for x in subs(t)}
    return vs.pop() if len(vs) == 1 else None


def qs(t):
    """quadrature scheme"""
    if t[0] == "F":
        return t[4].get("quad_scheme")
    if t[0] == "TP":
        return None
    return next((q for q in map(qs, subs(t)) if q is not None), None)


def mapping(t):
    if t[0] == "F":
        return FAMILIES[canon(t[1], t[2])][3]
    ms = {mapping(x) for x in subs(t)}
    if t[0] == "MIX":
        return "identity" if ms == {"identity"} else "undefined"
    if t[0] == "TP":
        return ms.pop() if ms in ({"identity"}, {"L2 Piola"}) else "undefined"
    if t[0] == "T" and t[3]:
        return "symmetries"
    if t[0] in ("HDIV", "HCURL"):
        return con if t[0] == "HDIV" else cov
    if t[0] == "WM":
        return t[2]
    return mapping(subs(t)[0])


def tdim(t):
    c = tcell(t)
    f = lambda c: sum(map(f, c)) if isinstance(c, list) else TDIM[c]
    return f(c)


def shape(t):
    if t[0] == "F":
        return (tdim(t),) * FAMILIES[canon(t[1], t[2])][1]
    if t[0] == "MIX":
        return (sum(product(shape(x)) for x in t[1]),)
    if t[0] == "V":
        return (t[2],) + shape(t[1])
    if t[0] == "T":
        return ((product(t[2]) - len(t[3]),) if t[3] else tuple(t[2])) + shape(t[1])
    if t[0] == "TP":
        return sum(map(shape, t[1]), ())
    if t[0] in ("HDIV", "HCURL"):
        return (tdim(t),)
    if t[0] == "WM" and t[2] in (con, cov):
        return (tdim(t),)
    if t[0] == "WM" and t[2] in (dcon, dcov):
        return (tdim(t),) * 2
    return shape(subs(t)[0])


UP = {"L2": set(), "HDiv": {"L2"}, "HCurl": {"L2"}, "H1": {"HDiv", "HCurl", "L2"}, "H2": {"H1", "HDiv", "HCurl", "L2"}, "HInf": {"H2", "H1", "HDiv", "HCurl", "L2"}, "HEin": {"L2"}, "HDivDiv": {"L2"}, "HCurlDiv": {"L2"}}
ORDER = {"H1": 1, "H2": 2, "HInf": float("inf")}


def norm(s):
    """tuples of equal orders are the isotropic space"""
    if isinstance(s, tuple):
        for n, o in (("L2", 0), ("H1", 1), ("H2", 2), ("HInf", float("inf"))):
            if set(s) == {o}:
                return n
    return s


def orders(s, n):
    return s if isinstance(s, tuple) else (ORDER.get(s, 0),) * n


def common(ss, n):
    if len(set(ss)) == 1:
        return ss[0]
    if any(isinstance(s, tuple) for s in ss):
        return norm(tuple(map(min, *[orders(s, n) for s in ss])))
    c = set.intersection(*[{s} | UP[s] for s in ss])
    best = [s for s in c if c <= {s} | UP[s]]
    return best[0]


def sobolev(t):
    if t[0] == "F":
        return FAMILIES[canon(t[1], t[2])][2]
    ss = [sobolev(x) for x in subs(t)]
    if t[0] == "TP":
        if len(set(ss)) == 1 and not isinstance(ss[0], tuple):
            return ss[0]
        return norm(sum((orders(s, tdim(x)) for s, x in zip(ss, t[1])), ()))
    if t[0] in ("MIX", "ENR", "NEN"):
        return common(ss, tdim(t))
    if t[0] in ("HDIV", "HCURL"):
        return {"HDIV": "HDiv", "HCURL": "HCurl"}[t[0]]
    if t[0] == "BRK" or (t[0] == "RES" and t[2] == "interior"):
        return "L2"
    if t[0] == "WM" and t[2] != mapping(t[1]):
        return "L2"
    return ss[0]


def readspace(s):
    return norm(tuple(s._orders)) if isinstance(s, DirectionalSobolevSpace) else s.name


PULL = {"identity": "IdentityPullback", "L2 Piola": "L2Piola", cov: "CovariantPiola", con: "ContravariantPiola", dcov: "DoubleCovariantPiola", dcon: "DoubleContravariantPiola",
        cc: "CovariantContravariantPiola", "custom": "CustomPullback", "physical": "PhysicalPullback"}


def pull(t):
    if t[0] == "MIX":
        return "MixedPullback"
    if t[0] == "V":
        return pull(t[1])
    if t[0] == "T":
        return "SymmetricPullback" if t[3] else pull(t[1])
    return PULL.get(mapping(t))


def constant(t):
    """is_cellwise_constant claims constancy only of constant elements"""
    if t[0] == "F":
        return t[1] in ("Real", "R") or t[3] == 0
    return all(map(constant, subs(t)))


def check_metadata(tree):
    for p in leaves(tree):
        one(at(tree, p), build(at(tree, p)))


def one(t, e):
    what = str(t)
    require(e.degree() == degree(t), f"degree {e.degree()}, expected {degree(t)}: {what}")
    lo, hi = emb(t)
    require((e.embedded_subdegree, e.embedded_superdegree) == (lo, hi), f"embedded degrees {e.embedded_subdegree}, {e.embedded_superdegree}, expected {lo}, {hi}: {what}")
    require(e.variant() == variant(t), f"variant {e.variant()}, expected {variant(t)}: {what}")
    require(e.quadrature_scheme() == qs(t), f"quadrature scheme {e.quadrature_scheme()}: {what}")
    require(e.mapping() == mapping(t), f"mapping {e.mapping()}, expected {mapping(t)}: {what}")
    require(tuple(e.reference_value_shape) == shape(t), f"reference value shape {e.reference_value_shape}, expected {shape(t)}: {what}")
    require(e.reference_value_size == product(shape(t)), f"reference value size: {what}")
    require(readspace(e.sobolev_space) == norm(sobolev(t)), f"Sobolev space {e.sobolev_space}, expected {sobolev(t)}: {what}")
    require(e.cell == cell(tcell(t)), f"cell {e.cell}: {what}")
    w = pull(t)
    try:
        got = type(e.pullback).__name__
    except ValueError:
        got = None
    require(got == w, f"pull-back {got}, expected {w}: {what}")
    if e.is_cellwise_constant():
        require(constant(t), f"reported constant: {what}")
    if t[0] == "TP":
        require([x for x in e.sub_elements] == [build(x) for x in t[1]] and e.num_sub_elements == len(t[1]), f"factors: {what}")
    if t[0] == "MIX":
        require(list(e.sub_elements) == [build(x) for x in t[1]], f"sub-elements: {what}")
    if t[0] == "RES":
        s = build(t[1])
        require(list(e.sub_elements) == list(s.sub_elements) and e.num_sub_elements == s.num_sub_elements and e.sub_element() == s and e.restriction_domain() == t[2] and e.restricted_sub_elements() == (s,), f"restriction: {what}")
    if t[0] in ("ENR", "NEN", "MIX"):
        r = type(e)(*reversed([build(x) for x in t[1]]))
        require((r.degree(), r.embedded_subdegree, r.embedded_superdegree, r.variant(), readspace(r.sobolev_space)) ==
                (e.degree(), e.embedded_subdegree, e.embedded_superdegree, e.variant(), readspace(e.sobolev_space)), f"depends on the order of the parts: {what}")
    str(e), e.shortstr()
