"""Physical degrees of freedom of the physically mapped elements as functions of the cell: FIAT's degree of freedom i of the element
built on the physical cell, as  sum over points, derivatives, components of  c * direction(J) * scale(J).  The coefficients c are
fitted to FIAT's functionals on random cells and validated on further cells (only FIAT is consulted, never finat)."""
import functools
import itertools
import json
import random
import numpy as np

EDGES = [(1, 2), (0, 2), (0, 1)]
FACES = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]


def ref_vertices(d):
    return [np.zeros(d)] + [np.eye(d)[i] for i in range(d)]


def functionals(el, A, b):
    """per node {(reference point, derivative, component): weight}"""
    Ai = np.linalg.inv(A)
    out = []
    for nd in el.dual_basis():
        f = {}
        for pt, ws in nd.pt_dict.items():
            x = tuple(np.round(Ai @ (np.asarray(pt, float) - b), 7) + 0.0)
            for w, comp in ws:
                k = (x, (0,) * len(pt), tuple(comp))
                f[k] = f.get(k, 0.0) + float(w)
        for pt, ws in nd.deriv_dict.items():
            x = tuple(np.round(Ai @ (np.asarray(pt, float) - b), 7) + 0.0)
            for w, al, comp in ws:
                k = (x, tuple(int(a) for a in al), tuple(comp))
                f[k] = f.get(k, 0.0) + float(w)
        out.append(f)
    return out


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vectors(d, J):
    """named direction vectors, polynomial in J (entries of any ring)"""
    v = ref_vertices(d)
    mul = lambda x: [sum((J[i][j] * float(x[j]) for j in range(d) if x[j]), 0 * J[0][0]) for i in range(d)]
    out = {}
    one = 0 * J[0][0] + 1
    for m in range(d):
        out[f"e{m}"] = [one if i == m else 0 * one for i in range(d)]
    if d == 2:
        for e, (a, b) in enumerate(EDGES):
            t = mul(v[b] - v[a])
            out[f"t{e}"] = t
            out[f"n{e}"] = [t[1], -t[0]] if True else None
    if d == 3:
        for f, (a, b, c) in enumerate(FACES):
            t1, t2 = mul(v[b] - v[a]), mul(v[c] - v[a])
            out[f"t{f}a"], out[f"t{f}b"] = t1, t2
            n = cross(t1, t2)
            out[f"n{f}"] = n
            out[f"m{f}a"], out[f"m{f}b"] = cross(n, t1), cross(n, t2)
        for k, (a, b) in enumerate(itertools.combinations(range(4), 2)):
            out[f"s{k}"] = mul(v[b] - v[a])
    return out


def length2(d, vecs, name):
    """square of the length of a named edge (2D) or of twice the area of a face (3D)"""
    x = vecs[("t" if d == 2 else "n") + name]
    return sum((c * c for c in x[1:]), x[0] * x[0])


def tensor(d, vecs, dirs):
    """components of the tensor product of named vectors; 'div': identity"""
    if dirs == ("div",):
        return {(i, i): vecs["e0"][0] for i in range(d)}
    out = {(): None}
    for nm in dirs:
        sym = None
        out = {k + (i,): (x if c is None else c * x) for k, c in out.items() for i, x in enumerate(vecs[nm])}
    return out


def slots(alpha, comp):
    """derivative directions then component"""
    return tuple(i for i, a in enumerate(alpha) for _ in range(a)) + tuple(comp)


def fit(e, d, i, samples):
    """rule of node i: list of terms {dir, scale, coefficients}"""
    fs = [f[i] for _, f in samples]
    scale0 = max(max(map(abs, f.values()), default=0.0) for f in fs)
    tol = 1e-9 * max(scale0, 1e-3)
    rank = {len(slots(k[1], k[2])) for f in fs for k in f}
    keys = sorted({k for f in fs for k in f if any(abs(g.get(k, 0.0)) > tol for g in fs)})
    if not keys:
        return []
    ent = entity(e, i)
    terms = []
    groups = {}
    for k in keys:
        groups.setdefault((sum(k[1]), len(k[2])), []).append(k)
    vs = [vectors(d, A) for A, _ in samples]
    for (order, vr), ks in groups.items():
        pts = sorted({k[0] for k in ks})
        n = order + vr
        r = fit_group(d, ent, order, vr, pts, [{k: f.get(k, 0.0) for k in ks} for f in fs], vs, [np.linalg.det(A) for A, _ in samples], tol)
        if r is None:
            return None
        terms += r
    return terms


def entity(e, i):
    for dim, es in e._element.entity_dofs().items():
        for k, v in es.items():
            if i in v:
                return dim, k


def scales(d, ent):
    """candidate scalings: exponents (length or area of the own entity or of entity k, |det|)"""
    own = [ent[1]] if ent[0] == d - 1 and d > 1 else []
    out = [((), 0)]
    for k in own:
        out += [(((k, p),), 0) for p in (-1, 1, -2, 2, -3, -4)]
    out += [((), 1), ((), -1)]
    for k in own:
        out += [(((k, p),), q) for p in (-1, 1, -2) for q in (1, -1)]
    return out


def scale_value(d, vecs, det, sc):
    r = abs(det) ** sc[1]
    for k, p in sc[0]:
        r = r * length2(d, vecs, str(k)) ** (p / 2)
    return r


def directions(d, ent, order, vr):
    n = order + vr
    if n == 0:
        return [()]
    own = ent[1]
    if d == 1:
        loc = []
    elif ent[0] == d - 1:
        loc = [f"n{own}", f"t{own}"] if d == 2 else [f"n{own}", f"t{own}a", f"t{own}b", f"m{own}a", f"m{own}b"]
    else:
        loc = [f"n{k}" for k in range(d + 1)] if n == 2 else []
    out = []
    const = list(itertools.product([f"e{i}" for i in range(d)], repeat=n))
    if order == 0 or vr == 0:
        out += [(c,) for c in const]
        out += [(x,) for x in itertools.product(loc, repeat=n)]
    return out


def sym_dirs(d, alpha_order, vr, vecs, dirs):
    """tensor components keyed by (alpha, comp)"""
    if dirs == ("div",):
        out = {}
        if vr == 1:
            for i in range(d):
                al = tuple(int(j == i) for j in range(d))
                out[al, (i,)] = vecs["e0"][0]
        return out
    out = {}
    for idx, x in tensor(d, vecs, dirs).items():
        al = [0] * d
        for j in idx[:alpha_order]:
            al[j] += 1
        k = (tuple(al), idx[alpha_order:])
        out[k] = out[k] + x if k in out else x
    return out


def fit_group(d, ent, order, vr, pts, ws, vs, dets, tol):
    allk = sorted({(k[1], k[2]) for w in ws for k in w})
    cands = directions(d, ent, order, vr)
    single = [c if c == () else c[0] for c in cands]
    if order == 1 and vr == 1:
        single = [("div",)]
    if order == 1 and vr == 2:
        single = [("divrow", m) for m in range(d)]
    def field(c, sc):
        out = []
        for v, det in zip(vs, dets):
            s = scale_value(d, v, det, sc)
            t = comps(d, order, vr, v, c)
            out.append({k: x * s for k, x in t.items()})
        return out
    Y = np.array([[[w.get((p,) + k, 0.0) for k in allk] for w in ws] for p in pts])     # pts, samples, comps
    for size in (1, 2, 3, 4):
        for sc in scales(d, ent):
            pool = single
            fl = {}
            for c in pool:
                f = field(c, sc)
                if all(set(k for k, x in g.items() if x) <= set(allk) for g in f) or size > 1:
                    fl[c] = np.array([[g.get(k, 0.0) for k in allk] for g in f])
            if len(fl) > 12 and size > 2:
                continue
            for cs in itertools.combinations(fl, size):
                F = np.array([fl[c].ravel() for c in cs]).T
                sol, *_ = np.linalg.lstsq(F, Y.reshape(len(pts), -1).T, rcond=None)
                if np.abs(F @ sol - Y.reshape(len(pts), -1).T).max() < tol * 100:
                    return [{"order": order, "dir": list(c), "scale": sc, "c": {json.dumps(list(p)): float(sol[a, b]) for b, p in enumerate(pts) if abs(sol[a, b]) > tol}} for a, c in enumerate(cs)]
    return None


def comps(d, order, vr, vecs, c):
    c = tuple(c)
    if c and c[0] == "divrow":
        out = {}
        m = int(c[1])
        for i in range(d):
            al = tuple(int(j == i) for j in range(d))
            k = (al, (m, i))
            out[k] = vecs["e0"][0]
        return out
    if c == ():
        return {((0,) * d, ()): vecs["e0"][0]}
    return sym_dirs(d, order, vr, vecs, c)


@functools.lru_cache(None)
def rules(expr, d):
    """per node of the reference element: its rule; None if no rule was found"""
    from oracles.p07 import build, rand_cell
    from FIAT.reference_element import ufc_simplex, make_affine_mapping
    rng = random.Random(3)
    ref = ufc_simplex(d)
    e = build(expr, ref)
    n = 8 if d == 2 else 4
    samples = []
    for k in range(n + 3):
        c = rand_cell(d, rng, k % 2 == 1)
        A, b = make_affine_mapping(ref.vertices, c.vertices)
        samples.append((np.asarray(A), functionals(build(expr, c)._element, A, b)))
    hold = samples[n:]
    samples = samples[:n] + [(np.eye(d), functionals(e._element, np.eye(d), np.zeros(d)))]
    exact = {}
    for nd in e._element.dual_basis():
        for pt in list(nd.pt_dict) + list(nd.deriv_dict):
            exact.setdefault(tuple(np.round(np.asarray(pt, float), 7) + 0.0), tuple(float(x) for x in pt))
    out = []
    for i in range(len(samples[0][1])):
        r = fit(e, d, i, samples)
        if r is None or not all(agrees(d, r, A, f[i], e) for A, f in hold):
            out.append(None)
            continue
        for t in r:
            t["c"] = {exact[tuple(json.loads(p))]: c for p, c in t["c"].items()}
        out.append(r)
    return out


def agrees(d, rule, A, f, e):
    """the rule reproduces a functional on a cell it was not fitted to"""
    vecs, det, got = vectors(d, A), np.linalg.det(A), {}
    vr = len(e._element.value_shape())
    for t in rule:
        s = scale_value(d, vecs, det, t["scale"])
        for (al, comp), w in comps(d, t["order"], vr, vecs, t["dir"]).items():
            for p, c in t["c"].items():
                k = (tuple(json.loads(p)), al, comp)
                got[k] = got.get(k, 0.0) + c * w * s
    size = max(map(abs, f.values()), default=0.0)
    return all(abs(got.get(k, 0.0) - f.get(k, 0.0)) <= 1e-7 * max(size, 1e-3) for k in set(got) | set(f))
