"""P16: mixed and tensor form-language elements resolve components correctly."""
import numpy as np
from ufl.utils.sequences import product
from ufl.classes import ReferenceValue
from .uflspec import *

META = {"bounds": "nesting depth at most 2, tensor shapes of rank at most 3 with extents at most 3, embedding dimension tdim or tdim + 1"}
FIX = [["MIX", [["F", "RT", "triangle", 1, {}], ["F", "DG", "triangle", 0, {}]]], ["MIX", [["V", ["F", "CG", "triangle", 2, {}], 2], ["F", "CG", "triangle", 1, {}]]],
       ["T", ["F", "CG", "triangle", 1, {}], [2, 2], [[[0, 1], [1, 0]]]], ["T", ["F", "CG", "triangle", 1, {}], [2, 2], [[[1, 0], [0, 1]]]],
       ["T", ["F", "RT", "triangle", 1, {}], [2, 2], [[[0, 1], [1, 0]]]], ["T", ["F", "CG", "triangle", 1, {}], [3, 3], [[[0, 1], [1, 0]], [[2, 0], [0, 2]], [[1, 2], [2, 1]]]],
       ["MIX", [["F", "Regge", "triangle", 0, {}], ["T", ["F", "CG", "triangle", 1, {}], [2, 2], [[[0, 1], [1, 0]]]], ["F", "N1curl", "triangle", 1, {}]]],
       ["MIX", [["T", ["F", "CG", "triangle", 1, {}], [2, 3], []], ["F", "CG", "triangle", 1, {}]]], ["V", ["F", "RT", "triangle", 1, {}], 3], ["V", ["V", ["F", "CG", "triangle", 1, {}], 2], 3],
       ["T", ["F", "Regge", "triangle", 0, {}], [2], []], ["T", ["F", "CG", "triangle", 1, {}], [2, 2, 2], [[[0, 0, 1], [1, 0, 0]], [[1, 1, 0], [0, 1, 1]]]],
       ["MIX", [["MIX", [["F", "CG", "triangle", 1, {}], ["F", "RT", "triangle", 1, {}]]], ["V", ["F", "DG", "triangle", 1, {}], 3]]],
       ["T", ["F", "CG", "triangle", 1, {}], [3], [[[2], [0]]]], ["MIX", [["T", ["F", "DG", "tetrahedron", 1, {}], [3, 3], [[[0, 1], [1, 0]], [[0, 2], [2, 0]], [[1, 2], [2, 1]]]]]]]


def rand_sub(rng, c, d):
    r = rng.random()
    if d == 0 or r < .4:
        kind = rng.choice(["s", "v", "m"])
        return rand_simple(rng, c, kind if c in {"s": SCAL, "v": VEC, "m": MAT}[kind] else "s")
    if r < .6:
        return ["V", rand_sub(rng, c, 0), rng.randint(1, 3)]
    if r < .85:
        s = rand_shape(rng)
        return ["T", rand_sub(rng, c, 0), s, rand_symmetry(rng, s) if rng.random() < .7 else []]
    return ["MIX", [rand_sub(rng, c, d - 1) for _ in range(rng.randint(1, 3))]]


def cases(rng, tier):
    ts = FIX + [rand_sub(rng, rng.choice(["triangle", "tetrahedron", "quadrilateral"]), 2) for _ in range(300 if tier == "quick" else 6000)]
    for t in ts:
        if t[0] in ("MIX", "V", "T"):
            yield "components", {"tree": t}
            yield "shapes", {"tree": t}
            yield "pullback", {"tree": t, "extra": rng.randint(0, 1)}
    for t in FIX:
        if t[0] == "T":
            yield "bad", {"tree": t}


# model: list of (sub-element, flat offset of its reference value) and of physical positions -----------------
def refshape(t):
    k = t[0]
    if k == "F":
        n = TDIM[t[2]]
        return [(), (n,), (n, n)][FAMILIES[canon(t[1], t[2])][1]]
    if k == "MIX":
        return (sum(product(refshape(x)) for x in t[1]),)
    if k == "V":
        return (t[2],) + refshape(t[1])
    s = refshape(t[1])
    return ((product(t[2]) - len(t[3]),) if t[3] else tuple(t[2])) + s


def valshape(t, g):
    k = t[0]
    if k == "F":
        f = FAMILIES[canon(t[1], t[2])]
        n = TDIM[t[2]]
        return [(), (g if "Piola" in f[3] else n,), (g, g)][f[1]]
    if k == "MIX":
        return (sum(product(valshape(x, g)) for x in t[1]),)
    return ((t[2],) if k == "V" else tuple(t[2])) + valshape(t[1], g)


def blocks(t):
    """independent components of a vector or tensor element, in reference order: list of multi-indices"""
    keys = {tuple(a): tuple(b) for a, b in t[3]}
    return [i for i in np.ndindex(*t[2]) if i not in keys], keys


def resolve(t, i, shape):
    """(direct sub-element number, component of the sub-element) of component i; shape: shape function of sub-elements"""
    if t[0] == "MIX":
        j, = i
        for n, x in enumerate(t[1]):
            s = shape(x)
            if j < product(s):
                return n, tuple(map(int, np.unravel_index(j, s))) if s else ()
            j -= product(s)
    if t[0] == "V":
        return i[0], i[1:]
    b, keys = blocks(t)
    if shape is refshape:
        if t[3]:
            return i[0], i[1:]
    n = len(t[2])
    return b.index(keys.get(i[:n], i[:n])), i[n:]


def sub(t, n):
    return t[1][n] if t[0] == "MIX" else t[1]


def final(t, i, shape):
    while t[0] != "F":
        n, i = resolve(t, i, shape)
        t = sub(t, n)
    return i, t


def mesh(t, extra):
    c = tcell(t)
    return ufl.Mesh(fu.VectorElement("CG", cell(c), 1, dim=TDIM[c] + extra))


def check_shapes(tree):
    e = build(tree)
    require(tuple(e.reference_value_shape) == refshape(tree), f"reference value shape {e.reference_value_shape}, expected {refshape(tree)}")
    require(e.reference_value_size == product(refshape(tree)), "reference value size")
    n = len(tree[1]) if tree[0] == "MIX" else tree[2] if tree[0] == "V" else len(blocks(tree)[0])
    require(e.num_sub_elements == n == len(e.sub_elements), f"{e.num_sub_elements} sub-elements, expected {n}")
    require(sum(x.reference_value_size for x in e.sub_elements) == e.reference_value_size, "reference value sizes of the sub-elements do not add up")
    for k in range(n):
        require(e.sub_elements[k] == build(sub(tree, k)), f"sub-element {k}")
    if tree[0] == "T":
        b, keys = blocks(tree)
        m = e.flattened_sub_element_mapping()
        require(list(m) == [b.index(keys.get(i, i)) for i in np.ndindex(*tree[2])], f"sub-element numbers of the components: {m}")
        require(dict(e.symmetry()) == keys, "symmetry")
    if tree[0] == "MIX" and all(pullable(t) and (t[0] != "T" or not refshape(t[1])) for t in tree[1]):
        dom = mesh(tree, 0)
        g = dom.geometric_dimension()
        want, at = {}, 0
        for t in tree[1]:
            sh = valshape(t, g)
            flat = lambda c: (at + (int(np.ravel_multi_index(c, sh)) if sh else 0),)
            want.update({flat(a): flat(b) for a, b in build(t).symmetry(dom).items()})
            at += product(sh)
        got = dict(e.symmetry(dom))
        require(got == want, f"symmetry of the parts at their positions: {got}, expected {want}")


def check_components(tree):
    e = build(tree)
    for i in np.ndindex(*refshape(tree)):
        n, c = e.extract_subelement_reference_component(i)
        require((n, tuple(c)) == resolve(tree, i, refshape), f"reference component {i} resolves to {(n, c)}, expected {resolve(tree, i, refshape)}")
        c, s = e.extract_reference_component(i)
        wc, wt = final(tree, i, refshape)
        require(tuple(c) == wc and s == build(wt), f"reference component {i} resolves to {c} of {s}, expected {wc} of {wt}")
        require(e.degree(i) == s.degree(), f"degree of component {i}")
        require(e.is_cellwise_constant(i) == s.is_cellwise_constant(), f"constancy of component {i}")
        if len(i) == 1:
            require(e.extract_subelement_reference_component(i[0]) == e.extract_subelement_reference_component(i), "integer component")
    for extra in (0, 1):
        if not pullable(tree):
            continue
        dom = mesh(tree, extra)
        g = dom.geometric_dimension()
        shape = lambda x: valshape(x, g)
        for i in np.ndindex(*shape(tree)):
            n, c = e.extract_subelement_component(dom, i)
            require((n, tuple(c)) == resolve(tree, i, shape), f"component {i} resolves to {(n, c)}, expected {resolve(tree, i, shape)}")
            c, s = e.extract_component(dom, i)
            wc, wt = final(tree, i, shape)
            require(tuple(c) == wc and s == build(wt), f"component {i} resolves to {c} of {s}, expected {wc} of {wt}")
    for bad in ([d for d in refshape(tree)], [0] * (len(refshape(tree)) + 1)):
        try:
            e.extract_subelement_reference_component(tuple(bad))
        except ValueError:
            continue
        raise Broken(f"component {bad} outside {refshape(tree)} was accepted")


def pullable(t):
    """the form language pulls the element back (a mixed or symmetric element inside a vector or tensor element is not supported by UFL)"""
    if t[0] in ("V", "T"):
        return t[1][0] != "MIX" and not (t[1][0] == "T" and t[1][3]) and pullable(t[1])
    return t[0] == "F" or all(map(pullable, t[1]))


def simple_identity(t):
    return "Piola" not in FAMILIES[canon(t[1], t[2])][3] if t[0] == "F" else all(map(simple_identity, t[1])) if t[0] == "MIX" else simple_identity(t[1])


def check_pullback(tree, extra):
    """every component of the physical value is recovered from the reference value of the component that represents it"""
    if not pullable(tree):
        return
    e = build(tree)
    dom = mesh(tree, extra)
    g = dom.geometric_dimension()
    shape = lambda x: valshape(x, g)
    V = ufl.FunctionSpace(dom, e)
    require(tuple(V.value_shape) == shape(tree), f"value shape {V.value_shape}, expected {shape(tree)}")
    f = ufl.Coefficient(V)
    r = ReferenceValue(f)
    p = e.pullback.apply(r)
    require(tuple(p.ufl_shape) == shape(tree), f"pulled back shape {p.ufl_shape}")
    if simple_identity(tree):
        for i in np.ndindex(*shape(tree)):
            want = flatref(tree, i, g)
            got = p[i] if i else p
            j, = [k for k, idx in enumerate(np.ndindex(*refshape(tree))) if simplify(got) == simplify(r[idx] if idx else r)] or [None]
            require(j == want, f"component {i} of the physical value is reference component {j}, expected {want}")
    else:
        # components represented by the same degrees of freedom have the same value, different ones do not
        same = {}
        for i in np.ndindex(*shape(tree)):
            same.setdefault(simplify(p[i] if i else p), set()).add(rep(tree, i, g))
        for k, v in same.items():
            require(len(v) == 1, f"distinct components {v} have the same value")
        require(len(same) == len({rep(tree, i, g) for i in np.ndindex(*shape(tree))}), "symmetric components have different values")


def rep(t, i, g):
    if t[0] == "F":
        return i
    n, c = resolve(t, i, lambda x: valshape(x, g))
    return (n,) + rep(sub(t, n), c, g)


def flatref(t, i, g):
    """flat reference position of the value component i of an element with identity pull-back"""
    if t[0] == "F":
        s = refshape(t)
        return int(np.ravel_multi_index(i, s)) if s else 0
    n, c = resolve(t, i, lambda x: valshape(x, g))
    return sum(product(refshape(sub(t, k))) for k in range(n)) + flatref(sub(t, n), c, g)


def simplify(x):
    """index-renumbered scalar expression with component tensors and list tensors resolved"""
    from ufl.algorithms.renumbering import renumber_indices
    from ufl.algorithms.remove_component_tensors import remove_component_tensors
    x = remove_component_tensors(x)
    return repr(renumber_indices(x)) if not x.ufl_shape else repr(x)


def check_bad(tree):
    """invalid symmetries are rejected"""
    s = tree[2]
    sube = build(tree[1])
    for sym in ({tuple(s): tuple([0] * len(s))}, {tuple([0] * len(s)): tuple([0] * (len(s) + 1))}, {tuple([-1] + [0] * (len(s) - 1)): tuple([0] * len(s))}):
        try:
            fu.TensorElement(sube, shape=tuple(s), symmetry=sym)
        except ValueError:
            continue
        raise Broken(f"symmetry {sym} accepted for shape {s}")
    try:
        fu.TensorElement(sube, shape=(2, 3), symmetry=True)
    except ValueError:
        pass
    else:
        raise Broken("automatic symmetry of a non-square tensor accepted")
    e = fu.TensorElement(sube, shape=(3, 3), symmetry=True)
    require(e.num_sub_elements == 6 and set(map(frozenset, e.symmetry().items())) == {frozenset([(i, j), (j, i)]) for i in range(3) for j in range(i)}, "automatic symmetry")
