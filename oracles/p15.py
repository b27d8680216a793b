"""P15: form-language elements have sound identity, hashing and reconstruction."""
import copy
import json
import pickle
from .uflspec import *
from ufl.cell import *  # noqa: F401,F403

EVALNS = {**{k: getattr(fu, k) for k in dir(fu) if k[0].isupper()}, **{k: getattr(ufl, k) for k in ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron")},
          "TensorProductCell": ufl.TensorProductCell, "Cell": ufl.Cell}
META = {"bounds": "random element descriptions of nesting depth at most 3"}


def leaves(t, path=()):
    """paths of all nodes of a description"""
    yield path
    if t[0] in ("MIX", "ENR", "NEN", "TP"):
        for i, x in enumerate(t[1]):
            yield from leaves(x, path + (1, i))
    elif t[0] != "F":
        yield from leaves(t[1], path + (1,))


def at(t, path):
    for i in path:
        t = t[i]
    return t


def mutate(rng, t):
    """description with one attribute changed at one level"""
    t = json.loads(json.dumps(t))
    n = at(t, rng.choice(list(leaves(t))))
    k = n[0]
    if k == "F":
        w = rng.choice(["family", "degree", "variant", "quad"])
        if w == "family":
            n[1] = rng.choice(SCAL[n[2]] if n[2] in SCAL else [n[1]])
        elif w == "degree":
            n[3] += 1
        elif w == "variant":
            n[4]["variant"] = rng.choice([v for v in ("a", "spectral", None) if v != n[4].get("variant")])
        else:
            n[4]["quad_scheme"] = rng.choice(["x", "KMV", None])
    elif k in ("MIX", "ENR", "NEN", "TP"):
        w = rng.random()
        if w < .4 and len(n[1]) > 1:
            n[1].reverse()
        elif w < .8:
            n[1].append(n[1][-1])
        elif k in ("ENR", "NEN"):
            n[0] = "NEN" if k == "ENR" else "ENR"
        elif k == "TP" and len(n[1]) == 2:
            n[2] = None if n[2] else "quadrilateral"
    elif k == "V":
        n[2] += 1
    elif k == "T":
        if rng.random() < .5 or not n[3]:
            n[2][-1] += 1
        elif rng.random() < .5:
            n[3].pop()
        else:
            rng.shuffle(n[3])
    elif k == "RES":
        n[2] = rng.choice(["interior", "facet", "edge"])
    elif k == "WM":
        n[2] = rng.choice(["identity", "covariant Piola"])
    elif k in ("HDIV", "HCURL"):
        n[0] = "HDIV" if k == "HCURL" else "HCURL"
    return t


def cases(rng, tier):
    n = 1500 if tier == "quick" else 20000
    for t in (["F", "CG", "quadrilateral", 1, {}], ["F", "Real", "triangle", 0, {}], ["F", "Q", ["quadrilateral", "interval"], 2, {}], ["F", "NCF", ["quadrilateral", "interval"], 1, {}],
              ["F", "RTCE", ["interval", "interval"], 2, {"variant": "spectral"}], ["F", "BRB", "triangle", None, {}], ["F", "Quadrature", "triangle", 3, {"quad_scheme": "default"}],
              ["F", "DG", ["triangle", "interval"], 1, {}], ["V", ["F", "Real", "triangle", 0, {}], 3], ["F", "Real", ["triangle", "interval"], 0, {}]):
        yield "identity", {"tree": t}
        yield "reconstruct", {"tree": t}
    for _ in range(n):
        t = rand_ok(rng, rng.choice([1, 2, 2, 3]))
        yield "identity", {"tree": t}
        yield "reconstruct", {"tree": t}
        for _ in range(3):
            yield "pair", {"a": t, "b": mutate(rng, t)}
        yield "pair", {"a": t, "b": rand_ok(rng, 1)}
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        for f in ("CG", "DG", "Q" if c in ("quadrilateral", "hexahedron") else "P"):
            for kw in ({}, {"variant": "spectral"}, {"quad_scheme": "default"}, {"variant": "spectral", "quad_scheme": "default"}):
                yield "spelling", {"family": f, "cell": c, "degree": 2, "options": kw}
        for f, o in (("Q- Lambda", 1), ("S Lambda", 1)) if c in ("quadrilateral", "hexahedron") else (("P Lambda", 1), ("P- Lambda", 1), ("P", 1)):
            for k in range(ufl.cell.as_cell(c).topological_dimension() + 1):
                yield "spelling", {"family": f, "cell": c, "degree": o, "options": {"form_degree": k}}
    for e in (["F", "CG", "triangle", 2, {}], ["V", ["F", "CG", "triangle", 2, {}], 2], ["MIX", [["F", "CG", "triangle", 2, {}], ["F", "DG", "triangle", 1, {}]]]):
        yield "from_elements", {"tree": e}


def same(a, b, msg):
    require(a == b and not (a != b), f"{msg}: not equal: {a!r} {b!r}")
    require(hash(a) == hash(b), f"{msg}: equal elements hash differently")
    require(repr(a) == repr(b), f"{msg}: equal elements are represented differently")
    require(not (a < b) and not (b < a), f"{msg}: equal elements are ordered")


def check_identity(tree):
    e, f = build(tree), build(tree)
    same(e, f, "constructed twice")
    same(eval(repr(e), dict(EVALNS)), e, "evaluated representation")
    same(pickle.loads(pickle.dumps(e)), e, "pickled")
    same(copy.copy(e), e, "copied")
    same(copy.deepcopy(e), e, "deep-copied")
    p = pickle.loads(pickle.dumps(e))
    require(p.degree() == e.degree() and p.variant() == e.variant() and p.mapping() == e.mapping() and p.reference_value_shape == e.reference_value_shape
            and p.quadrature_scheme() == e.quadrature_scheme() and p.cell == e.cell, "pickling loses attributes")


def check_spelling(family, cell, degree, options):
    """vector and tensor elements of a family are those of the element of the family"""
    c = ufl.cell.as_cell(cell)
    part = fu.FiniteElement(family, c, degree, **options)
    same(fu.VectorElement(family, c, degree, **options), fu.VectorElement(part), "vector element of a family")
    same(fu.VectorElement(family, c, degree, dim=5, **options), fu.VectorElement(part, dim=5), "vector element of a family")
    if "form_degree" not in options and not part.reference_value_shape:
        for kw in ({}, {"shape": (2, 3)}, {"shape": (2, 2), "symmetry": True}, {"shape": (2, 2), "symmetry": {(0, 1): (1, 0)}}):
            same(fu.TensorElement(family, c, degree, **kw, **options), fu.TensorElement(part, **kw), "tensor element of a family")


def check_pair(a, b):
    try:
        eb = build(b)
    except ValueError:
        return
    ea = build(a)
    if desc(a) == desc(b):
        same(ea, eb, "same description")
    else:
        require(ea != eb and not (ea == eb), f"different elements compare equal: {a} {b}")
        require(repr(ea) != repr(eb), f"different elements have the same representation {ea!r}")
    require((ea < eb) == (repr(ea) < repr(eb)) and (eb < ea) == (repr(eb) < repr(ea)), "ordering is inconsistent with the representation")
    require(ea.family() is not None and ea != 3 and ea is not None and not (ea == None), "comparison with other objects")  # noqa: E711


def change(t, **kw):
    """description with the attribute of every simple element replaced"""
    t = json.loads(json.dumps(t))
    for p in leaves(t):
        n = at(t, p)
        if n[0] == "F":
            if "degree" in kw:
                n[3] = kw["degree"]
            for k in ("variant", "quad_scheme"):
                if k in kw:
                    n[4][k] = kw[k]
            if "cell" in kw:
                n[1], n[2] = canon(n[1], n[2]), kw["cell"]
    return t


def check_reconstruct(tree):
    e = build(tree)
    same(e.reconstruct(), e, "reconstructed")
    if tree[0] == "F" and isinstance(tree[2], list):
        return  # expands to a composite element
    for kw in ({"variant": "fdm"}, {"degree": 4}, {"degree": 0}, {"quad_scheme": "qs"}, {"variant": "fdm", "degree": 3}, {"variant": "fdm", "degree": 0}):
        try:
            want = build(change(tree, **kw))
        except ValueError:
            continue
        same(e.reconstruct(**kw), want, f"reconstructed with {kw}")
    c = tcell(tree)
    if '"TP"' in json.dumps(tree) or isinstance(c, list):
        return
    for new in ("triangle", "tetrahedron", "quadrilateral", "interval"):
        try:
            want = build(change(tree, cell=new))
        except ValueError:
            continue
        same(e.reconstruct(cell=cell(new)), want, f"reconstructed on {new}")
    if tree[0] == "WM":
        same(e.reconstruct(mapping="identity"), build(["WM", tree[1], "identity"]), "remapped")
    if tree[0] == "F":
        for fam in ("DG", "RT"):
            try:
                want = build(["F", fam] + tree[2:])
            except ValueError:
                continue
            same(e.reconstruct(family=fam), want, "family replaced")


def check_from_elements(tree):
    a = build(tree)
    b = build(["F", "DG", "triangle", 3, {}])
    m = fu.MixedElement(a, b)
    same(m.reconstruct_from_elements(a, b), m, "from the same elements")
    same(m.reconstruct_from_elements(b, a), fu.MixedElement(b, a), "reordered")
    same(m.reconstruct_from_elements(a), fu.MixedElement(a), "fewer")
    same(m.reconstruct_from_elements(a, b, b), fu.MixedElement(a, b, b), "more")
    same(m.reconstruct_from_elements(a, a), fu.MixedElement(a, a), "replaced")
