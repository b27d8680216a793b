"""Conditioning by the vertex mesh sizes: row i of the transformation is row i at unit sizes times a factor that depends only on the
kind of degree of freedom i and the sizes at the vertices of its own entity - so neighbouring cells agree on shared degrees of
freedom.  Decided for all affine cells and all sizes by running the real basis_transformation on symbolic geometry (see p07)."""
from .p07 import *
from oracles.p08 import exponents

CONTRACTS = []


def scaling(expr, d):
    def run(c):
        S = Setting(d)
        fe = element(expr, d)
        c.cover(True)
        M = fe.basis_transformation(Geo(d))
        c.cover(False)
        n, m = fe.space_dimension(), fe._element.space_dimension()
        if not c.prove(tuple(M.shape) == (n, m), "shape (space dimension, dimension of the reference space)", M.shape): return
        one = [Poly.of(1.0)] * (d + 1)
        Mh, M1 = S.matrix(M, S.h), S.matrix(M, one)
        ex = exponents(expr, fe)
        if not c.prove(sorted(ex) == list(range(n)), "every degree of freedom belongs to an entity", sorted(ex)): return
        for i in range(n):
            verts, p = ex[i]
            mean = sum((S.h[v] for v in verts[1:]), S.h[verts[0]]) / float(len(verts))
            f = S.F.inverse(mean) ** p if p else Poly.of(1.0)
            bad = None
            for j in range(m):
                want = f * M1[i, j]
                ok, num = S.F.is_zero(Mh[i, j] - want, max(Mh[i, j].size(), want.size()))
                if not ok:
                    bad = f"column {j}: {num.clean(TOL)} (variables {dict(enumerate(S.F.names))})"
                    break
            c.prove(bad is None, f"row {i} scales by the sizes at vertices {tuple(verts)} to the power -{p}", bad)
    return run


CONTRACTS += [RunContract(f"{s} on every affine {'interval triangle tetrahedron'.split()[d - 1]}: scaling by the vertex sizes", scaling(s, d), bounded=bound(s))
              for s, d in MAPPED + [(u, 2) for u in UNAVERAGED]]
