"""Form-language element descriptions: random trees, construction from a tree, canonical form of a tree."""
import warnings
import ufl
import finat.ufl as fu
from .common import Broken, require
warnings.simplefilter("ignore")

# family -> (short name, value rank, Sobolev space, mapping, (kmin, kmax), cells)
S = ("interval", "triangle", "tetrahedron", "pentatope")
C = ("interval", "quadrilateral", "hexahedron", "tesseract")
ANY = ("vertex",) + S + C[1:] + ("prism", "pyramid")
con, cov = "contravariant Piola", "covariant Piola"
dcon, dcov, cc = "double contravariant Piola", "double covariant Piola", "covariant contravariant Piola"
N = None
FAMILIES = {
    "Lagrange": ("CG", 0, "H1", "identity", (1, N), ANY), "Brezzi-Douglas-Marini": ("BDM", 1, "HDiv", con, (1, N), S[1:]),
    "Discontinuous Lagrange": ("DG", 0, "L2", "identity", (0, N), ANY), "Discontinuous Taylor": ("TDG", 0, "L2", "identity", (0, N), S),
    "Nedelec 1st kind H(curl)": ("N1curl", 1, "HCurl", cov, (1, N), S[1:]), "Nedelec 2nd kind H(curl)": ("N2curl", 1, "HCurl", cov, (1, N), S[1:]),
    "Raviart-Thomas": ("RT", 1, "HDiv", con, (1, N), S[1:]), "Brezzi-Douglas-Fortin-Marini": ("BDFM", 1, "HDiv", con, (1, N), S[1:]),
    "Crouzeix-Raviart": ("CR", 0, "L2", "identity", (1, 1), S[1:]), "Discontinuous Raviart-Thomas": ("DRT", 1, "L2", con, (1, N), S[1:]),
    "Kong-Mulder-Veldhuizen": ("KMV", 0, "H1", "identity", (1, N), S[1:]), "Regge": ("Regge", 2, "HEin", dcov, (0, N), S),
    "Hellan-Herrmann-Johnson": ("HHJ", 2, "HDivDiv", dcon, (0, N), S[1:3]),
    "Gopalakrishnan-Lederer-Schoberl 1st kind": ("GLS", 2, "HCurlDiv", cc, (1, N), S[1:]),
    "Gopalakrishnan-Lederer-Schoberl 2nd kind": ("GLS2", 2, "HCurlDiv", cc, (0, N), S[1:]),
    "Nonconforming Arnold-Winther": ("AWnc", 2, "HDiv", dcon, (2, 2), S[1:2]), "Conforming Arnold-Winther": ("AWc", 2, "HDiv", dcon, (3, N), S[1:2]),
    "Hu-Zhang": ("HZ", 2, "HDiv", dcon, (3, N), S[1:2]), "Bernardi-Raugel": ("BR", 1, "H1", con, (1, N), S[1:]),
    "Bernardi-Raugel Bubble": ("BRB", 1, "H1", con, (N, N), S[1:]), "Mardal-Tai-Winther": ("MTW", 1, "H1", con, (3, 3), S[1:2]),
    "Hermite": ("HER", 0, "H1", "custom", (3, 3), S), "Argyris": ("ARG", 0, "H2", "custom", (5, N), S[1:2]), "Bell": ("BELL", 0, "H2", "custom", (5, 5), S[1:2]),
    "Morley": ("MOR", 0, "H2", "custom", (2, 2), S[1:2]), "QuadraticPowellSabin6": ("PS6", 0, "H2", "custom", (2, 2), S[1:2]),
    "QuadraticPowellSabin12": ("PS12", 0, "H2", "custom", (2, 2), S[1:2]), "Hsieh-Clough-Tocher": ("HCT", 0, "H2", "custom", (3, N), S[1:2]),
    "Reduced-Hsieh-Clough-Tocher": ("HCT-red", 0, "H2", "custom", (3, 3), S[1:2]), "Johnson-Mercier": ("JM", 2, "HDiv", dcon, (1, 1), S[1:]),
    "Arnold-Qin": ("AQ", 1, "H1", "identity", (2, 2), S[1:2]), "Reduced-Arnold-Qin": ("AQ-red", 1, "H1", con, (2, 2), S[1:2]),
    "Christiansen-Hu": ("CH", 1, "H1", con, (1, 1), S[1:]), "Alfeld-Sorokina": ("AS", 1, "H1", con, (2, 2), S[1:]),
    "Guzman-Neilan 1st kind H1": ("GN", 1, "H1", con, (1, N), S[1:]), "Guzman-Neilan 2nd kind H1": ("GN2", 1, "H1", con, (1, N), S[1:]),
    "Guzman-Neilan H1(div)": ("GNH1div", 1, "H1", con, (2, N), S[1:]), "Guzman-Neilan Bubble": ("GNB", 1, "H1", con, (N, N), S[1:]),
    "Boundary Quadrature": ("BQ", 0, "L2", "identity", (0, N), ANY), "Bubble": ("B", 0, "H1", "identity", (2, N), S), "FacetBubble": ("FB", 0, "H1", "identity", (2, N), S),
    "Quadrature": ("Quadrature", 0, "L2", "identity", (0, N), ANY), "Real": ("R", 0, "HInf", "identity", (0, 0), ANY), "Undefined": ("U", 0, "L2", "identity", (0, N), ANY),
    "Radau": ("Rad", 0, "L2", "identity", (0, N), S[:1]), "HDiv Trace": ("HDivT", 0, "L2", "identity", (0, N), ANY), "Gauss-Legendre": ("GL", 0, "L2", "identity", (0, N), S[:1]),
    "Gauss-Lobatto-Legendre": ("GLL", 0, "H1", "identity", (1, N), S[:1]), "Bernstein": (N, 0, "H1", "identity", (1, N), S),
    "Q": (N, 0, "H1", "identity", (1, N), C), "DQ": (N, 0, "L2", "identity", (0, N), C), "RTCE": (N, 1, "HCurl", cov, (1, N), C[1:2]), "RTCF": (N, 1, "HDiv", con, (1, N), C[1:2]),
    "NCE": (N, 1, "HCurl", cov, (1, N), C[2:3]), "NCF": (N, 1, "HDiv", con, (1, N), C[2:3]), "S": (N, 0, "H1", "identity", (1, N), C), "DPC": (N, 0, "L2", "identity", (0, N), C),
    "BDMCE": (N, 1, "HCurl", cov, (1, N), C[1:2]), "BDMCF": (N, 1, "HDiv", con, (1, N), C[1:2]), "SminusE": ("SminusE", 1, "HCurl", cov, (1, N), C[1:3]),
    "SminusF": ("SminusF", 1, "HDiv", con, (1, N), C[1:2]), "SminusDiv": ("SminusDiv", 1, "HDiv", con, (1, N), C[1:3]), "SminusCurl": ("SminusCurl", 1, "HCurl", cov, (1, N), C[1:3]),
    "AAE": (N, 1, "HCurl", cov, (1, N), C[2:3]), "AAF": (N, 1, "HDiv", con, (1, N), C[2:3]), "DPC L2": (N, 0, "L2", "L2 Piola", (1, N), C), "DQ L2": (N, 0, "L2", "L2 Piola", (0, N), C),
    "Gauss-Legendre L2": ("GL L2", 0, "L2", "L2 Piola", (0, N), S[:1]), "Discontinuous Lagrange L2": ("DG L2", 0, "L2", "L2 Piola", (0, N), ANY),
    "Extended-Gauss-Legendre": ("EGL", 0, "H1", "identity", (2, N), S[:1]), "Extended-Gauss-Legendre Edge": ("EGL-Edge", 0, "L2", "identity", (1, N), S[:1]),
    "Extended-Gauss-Legendre Edge L2": ("EGL-Edge L2", 0, "L2", "L2 Piola", (1, N), S[:1]), "Gauss-Lobatto-Legendre Edge": ("GLL-Edge", 0, "L2", "identity", (0, N), S[:1]),
    "Gauss-Lobatto-Legendre Edge L2": ("GLL-Edge L2", 0, "L2", "L2 Piola", (0, N), S[:1]), "Direct Serendipity": ("Sdirect", 0, "H1", "physical", (1, N), C[1:2]),
    "Direct Serendipity Full H(div)": ("Sdirect H(div)", 1, "HDiv", "physical", (1, N), C[1:2]), "Direct Serendipity Reduced H(div)": ("Sdirect H(div) red", 1, "HDiv", "physical", (1, N), C[1:2]),
}
ALIASES = {"P": "Lagrange", "DP": "Discontinuous Lagrange", "RTE": "Nedelec 1st kind H(curl)", "RTF": "Raviart-Thomas", "N1E": "Nedelec 1st kind H(curl)", "N1F": "Raviart-Thomas",
           "BDME": "Nedelec 2nd kind H(curl)", "BDMF": "Brezzi-Douglas-Marini", "N2E": "Nedelec 2nd kind H(curl)", "N2F": "Brezzi-Douglas-Marini", "DP L2": "Discontinuous Lagrange L2",
           "Lobatto": "Gauss-Lobatto-Legendre", "Lob": "Gauss-Lobatto-Legendre", "Nedelec 1st kind H(div)": "Raviart-Thomas", "N1div": "Raviart-Thomas",
           "Nedelec 2nd kind H(div)": "Brezzi-Douglas-Marini", "N2div": "Brezzi-Douglas-Marini", "Discontinuous Lagrange Trace": "HDiv Trace", "DGT": "HDiv Trace"}
SHORT = {v[0]: k for k, v in FAMILIES.items() if v[0]}
TDIM = {"vertex": 0, "interval": 1, "triangle": 2, "tetrahedron": 3, "pentatope": 4, "quadrilateral": 2, "hexahedron": 3, "tesseract": 4, "prism": 3, "pyramid": 3}
FEEC = {"P-": ((("P", 0), ("DP", -1)), (("P", 0), ("RTE", 0), ("DP", -1)), (("P", 0), ("N1E", 0), ("N1F", 0), ("DP", -1))),
        "P": ((("P", 0), ("DP", 0)), (("P", 0), ("BDME", 0), ("DP", 0)), (("P", 0), ("N2E", 0), ("N2F", 0), ("DP", 0))),
        "Q-": ((("Q", 0), ("DQ", -1)), (("Q", 0), ("RTCE", 0), ("DQ", -1)), (("Q", 0), ("NCE", 0), ("NCF", 0), ("DQ", -1))),
        "S": ((("S", 0), ("DPC", 0)), (("S", 0), ("BDMCE", 0), ("DPC", 0)), (("S", 0), ("AAE", 0), ("AAF", 0), ("DPC", 0)))}


def canon(family, cell):
    f = SHORT.get(ALIASES.get(family, family), ALIASES.get(family, family))
    if cell in C[1:]:
        f = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}.get(f, f)
    return f


def cell(c):
    """cell of a description: a name, or a list of names (tensor product cell)"""
    return ufl.TensorProductCell(*[cell(x) for x in c]) if isinstance(c, list) else ufl.cell.as_cell(c)


def build(t):
    k = t[0]
    if k == "F":
        return fu.FiniteElement(t[1], cell(t[2]), t[3], **t[4])
    if k == "MIX":
        return fu.MixedElement(*[build(x) for x in t[1]])
    if k == "V":
        return fu.VectorElement(build(t[1]), dim=t[2])
    if k == "T":
        return fu.TensorElement(build(t[1]), shape=tuple(t[2]), symmetry={tuple(a): tuple(b) for a, b in t[3]} if t[3] else None)
    if k == "TP":
        kw = {"cell": cell(t[2])} if t[2] else {}
        return fu.TensorProductElement(*[build(x) for x in t[1]], **kw)
    if k == "ENR":
        return fu.EnrichedElement(*[build(x) for x in t[1]])
    if k == "NEN":
        return fu.NodalEnrichedElement(*[build(x) for x in t[1]])
    if k == "RES":
        return fu.RestrictedElement(build(t[1]), t[2])
    return {"BRK": fu.BrokenElement, "HDIV": fu.HDivElement, "HCURL": fu.HCurlElement}[k](build(t[1])) if k != "WM" else fu.WithMapping(build(t[1]), t[2])


def tcell(t):
    if t[0] == "F":
        return t[2]
    if t[0] == "TP":
        return t[2] or [tcell(x) for x in t[1]]
    return tcell(t[1][0] if t[0] in ("MIX", "ENR", "NEN") else t[1])


def desc(t):
    """canonical description: equal exactly for equal elements"""
    k = t[0]
    if k == "F":
        return ("F", canon(t[1], t[2]), str(t[2]), t[3], tuple(sorted((a, b) for a, b in t[4].items() if b is not None)))
    if k in ("MIX", "ENR", "NEN"):
        return (k,) + tuple(desc(x) for x in t[1])
    if k == "T":
        return ("T", desc(t[1]), tuple(t[2]), tuple(sorted((tuple(a), tuple(b)) for a, b in t[3] or [])))
    if k == "TP":
        return ("TP", tuple(desc(x) for x in t[1]), str(tcell(t)))
    return (k, desc(t[1])) + tuple(t[2:])


SCAL = {"interval": ["CG", "DG", "GLL", "GL", "Bernstein", "B"], "triangle": ["CG", "DG", "CR", "B", "Bernstein", "FB"], "tetrahedron": ["CG", "DG", "B"],
        "quadrilateral": ["Q", "DQ", "S", "DPC", "CG"], "hexahedron": ["Q", "DQ", "S"]}
VEC = {"triangle": ["RT", "N1curl", "BDM", "N2curl", "BR", "BDFM"], "tetrahedron": ["RT", "N1curl", "BDM"], "quadrilateral": ["RTCE", "RTCF", "SminusE"], "hexahedron": ["NCE", "NCF"]}
MAT = {"triangle": ["Regge", "HHJ", "GLS"], "tetrahedron": ["Regge", "HHJ"]}
VARIANTS = [None, None, None, "spectral", "point", "integral", "equispaced"]


def rand_deg(rng, fam, c):
    lo, hi = FAMILIES[canon(fam, c)][4]
    lo = 0 if lo is None else lo
    return rng.randint(lo, min(hi, lo + 3) if hi is not None else lo + 3)


def rand_simple(rng, c, kind="s", qs=None):
    fam = rng.choice({"s": SCAL, "v": VEC, "m": MAT}[kind][c])
    o = {}
    v = rng.choice(VARIANTS)
    if v:
        o["variant"] = v
    if qs:
        o["quad_scheme"] = qs
    return ["F", fam, c, rand_deg(rng, fam, c), o]


def rand_shape(rng):
    return [rng.randint(1, 3) for _ in range(rng.choice([1, 2, 2, 3]))]


def rand_symmetry(rng, shape):
    """acyclic, chain-free symmetry in either direction"""
    import itertools
    idx = list(itertools.product(*map(range, shape)))
    rng.shuffle(idx)
    n = rng.randint(0, len(idx) // 2)
    keys, roots = idx[:n], idx[n:]
    return [[list(k), list(rng.choice(roots))] for k in keys]


def rand_tree(rng, depth=2, c=None, shape=None):
    """random description of an element; shape 's' asks for a scalar simple-like element"""
    c = c or rng.choice(["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"])
    qs = rng.choice([None] * 6 + ["KMV"]) if shape is None else None
    if depth == 0:
        kind = rng.choice(["s", "s", "v", "m"]) if shape is None else "s"
        if c not in {"s": SCAL, "v": VEC, "m": MAT}[kind]:
            kind = "s"
        return rand_simple(rng, c, kind, qs)
    k = rng.choice(["MIX", "V", "T", "TP", "ENR", "NEN", "RES", "BRK", "HDIV", "HCURL", "WM", "F"])
    if k == "F":
        return rand_tree(rng, 0, c)
    if k == "MIX":
        return ["MIX", [rand_tree(rng, depth - 1, c, "s") if rng.random() < .3 else rand_tree(rng, 0, c, "s") for _ in range(rng.randint(1, 3))]]
    if k == "V":
        return ["V", rand_tree(rng, depth - 1, c, shape), rng.randint(1, 3)]
    if k == "T":
        s = rand_shape(rng)
        return ["T", rand_tree(rng, depth - 1, c, shape), s, rand_symmetry(rng, s) if rng.random() < .6 else []]
    if k == "TP":
        cs = [rng.choice(["interval", "triangle", "quadrilateral"]), "interval"] if rng.random() < .7 else ["interval"] * 3
        return ["TP", [rand_tree(rng, 0, x, "s") for x in cs], "quadrilateral" if cs == ["interval"] * 2 and rng.random() < .5 else None]
    if k in ("ENR", "NEN"):
        if rng.random() < .5:
            return [k, [rand_tree(rng, 0, c, "s") for _ in range(rng.randint(1, 3))]]
        return [k, [["TP", [rand_tree(rng, 0, x, "s") for x in ("interval", "interval")], None] for _ in range(2)]]
    if k in ("HDIV", "HCURL"):
        return [k, ["TP", [rand_tree(rng, 0, "interval", "s"), rand_tree(rng, 0, "interval", "s")], rng.choice([None, "quadrilateral"])]]
    sub = rand_tree(rng, depth - 1, c, shape)
    if k == "RES":
        return ["RES", sub, rng.choice(["interior", "facet", "face", "edge", "vertex", "reduced"])]
    if k == "BRK":
        return ["BRK", sub]
    return ["WM", sub, rng.choice(["identity", "covariant Piola", "contravariant Piola", "L2 Piola"])]


def rand_ok(rng, depth=2):
    """random description that constructs"""
    for _ in range(50):
        t = rand_tree(rng, depth)
        try:
            build(t)
            return t
        except ValueError:
            continue
    return ["F", "CG", "triangle", 1, {}]
