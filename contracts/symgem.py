"""Contracts decided by running the real function on symbolic geometry.

The functions that build basis transformations are ordinary Python over fixed integers (cell, degree) and produce a gem expression
in the geometric quantities of the physical cell, which are symbols here.  gem offers no way to branch on their values (a
Conditional node is rejected below), so one run of the real code under CPython yields the value for every cell at once.  The
postcondition is then an identity between rational functions of the Jacobian's entries, discharged by the normal form of this
module: Laurent polynomials over the reals, denominators that are not monomials as atoms cleared by multiplication, edge lengths
modulo L_e^2 = |J t_e|^2 and the determinant modulo its expansion."""
import os
import sys
import time
import gem
import numpy as np
from pyvc.values import Unsupported
from pyvc.engine import Obligation

BITS, HALF = 12, 2048
TOL = 1e-9


class Poly:
    """Laurent polynomial with float coefficients; monomials are integers sum e_v 2^(12 v)"""
    __slots__ = ("t",)
    __array_ufunc__ = None
    def __init__(self, t=None): self.t = t if t is not None else {}
    @staticmethod
    def of(x):
        if isinstance(x, Poly): return x
        if isinstance(x, (int, float, np.number)): return Poly({0: float(x)} if x else {})
        return None
    @staticmethod
    def var(i, e=1): return Poly({e << (BITS * i) if e > 0 else -((-e) << (BITS * i)): 1.0})
    def __add__(s, o):
        o = Poly.of(o)
        if o is None: return NotImplemented
        r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, 0.0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.t.items()})
    def __sub__(s, o):
        o = Poly.of(o)
        return NotImplemented if o is None else s + (-o)
    def __rsub__(s, o): return Poly.of(o) + (-s)
    def __mul__(s, o):
        o = Poly.of(o)
        if o is None: return NotImplemented
        r = {}
        for m, c in s.t.items():
            for n, k in o.t.items():
                q = m + n
                v = r.get(q, 0.0) + c * k
                r[q] = v
        return Poly({m: c for m, c in r.items() if c})
    __rmul__ = __mul__
    def __pow__(s, n):
        r = Poly({0: 1.0})
        for _ in range(n): r = r * s
        return r
    def __truediv__(s, o):
        if isinstance(o, Poly):
            if len(o.t) == 1:
                (m, c), = o.t.items()
                return Poly({k - m: v / c for k, v in s.t.items()})
            return NotImplemented
        return Poly({m: c / float(o) for m, c in s.t.items()})
    def __bool__(s): return bool(s.t)
    def size(s): return max(map(abs, s.t.values()), default=0.0)
    def clean(s, tol): return Poly({m: c for m, c in s.t.items() if abs(c) > tol})
    def const(s):
        return s.t.get(0, 0.0) if set(s.t) <= {0} else None
    def __repr__(s): return " + ".join(f"{c:.6g}*{unpack(m)}" for m, c in list(s.t.items())[:6]) + (" + ..." if len(s.t) > 6 else "") or "0"


def unpack(m):
    out, v = {}, 0
    while m:
        e = ((m + HALF) & (2 * HALF - 1)) - HALF
        if e: out[v] = e
        m = (m - e) >> BITS
        v += 1
    return out


class Field:
    """rational functions of the geometry: Laurent polynomials over a list of variables and inverse atoms"""
    def __init__(self):
        self.names = []
        self.square = {}         # variable -> polynomial its square equals
        self.value = {}          # variable -> polynomial it equals
        self.inv = []            # (variable, polynomial of which it is the inverse)
    def new(self, name):
        self.names.append(name)
        return len(self.names) - 1
    def var(self, name): return Poly.var(self.names.index(name)) if name in self.names else Poly.var(self.new(name))
    def inverse(self, p):
        p = Poly.of(p)
        p = p.clean(1e-13 * p.size())
        if not p.t:
            raise ZeroDivisionError
        if len(p.t) == 1:
            return Poly.of(1) / p
        for v, q in self.square.items():
            c = ratio(p, q)
            if c is not None: return Poly.var(v, -2) * (1 / c)
        for v, q in self.value.items():
            c = ratio(p, q)
            if c is not None: return Poly.var(v, -1) * (1 / c)
        for v, q in self.inv:
            c = ratio(p, q)
            if c is not None: return Poly.var(v) * (1 / c)
        v = self.new(f"1/({len(self.inv)})")
        self.inv.append((v, p))
        return Poly.var(v)
    def numerator(self, p):
        """polynomial that vanishes iff p does (the denominators are non-zero)"""
        for v, q in reversed(self.inv):
            p = self.clear(p, v, q, +1)
        for v, q in self.square.items():
            lo = min((unpack(m).get(v, 0) for m in p.t), default=0)
            if lo < 0:
                p = p * Poly.var(v, 2 * ((1 - lo) // 2))
            p = self.substitute(p, v, lambda e: (q ** (e // 2)) * (Poly.var(v) if e % 2 else 1))
        for v, q in self.value.items():
            lo = min((unpack(m).get(v, 0) for m in p.t), default=0)
            if lo < 0:
                p = p * Poly.var(v, -lo)
            p = self.substitute(p, v, lambda e: q ** e)
        return p
    def clear(self, p, v, q, sign):
        hi = max((unpack(m).get(v, 0) for m in p.t), default=0)
        return self.substitute(p, v, lambda e: q ** (hi - e)) if hi else p
    def substitute(self, p, v, f):
        parts = {}
        for m, c in p.t.items():
            e = unpack(m).get(v, 0)
            parts.setdefault(e, {})[m - (e << (BITS * v)) if e >= 0 else m + ((-e) << (BITS * v))] = c
        if set(parts) <= {0} and f(0) == 1:
            return p
        out = Poly()
        for e, t in parts.items():
            out = out + Poly(t) * f(e)
        return out
    def is_zero(self, p, size):
        n = self.numerator(p)
        return n.size() <= TOL * max(1.0, size), n


def ratio(p, q):
    """c with p = c q, or None"""
    if set(p.t) != set(q.t):
        pp, qq = p.clean(1e-12 * p.size()), q.clean(1e-12 * q.size())
        if set(pp.t) != set(qq.t): return None
        p, q = pp, qq
    cs = [p.t[m] / q.t[m] for m in p.t]
    return cs[0] if all(abs(c - cs[0]) <= 1e-11 * abs(cs[0]) for c in cs) else None


def polys(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape): out[i] = a[i] if isinstance(a[i], Poly) else Poly.of(float(a[i]))
    return out


def evaluate(F, e, env):
    """array of polynomials: the value of a gem expression, its variables given by env (name -> array)"""
    memo = {}
    def ev(n, ix):
        key = (n, tuple((i, ix[i]) for i in n.free_indices))
        r = memo.get(key)
        if r is None:
            r = memo[key] = ev_(n, ix)
        return r
    def scalar(n, ix): return ev(n, ix)[()]
    def arr(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    def ev_(n, ix):
        if isinstance(n, gem.gem.Zero): return polys(np.zeros(n.shape))
        if isinstance(n, gem.gem.Literal): return polys(np.asarray(n.array, float))
        if isinstance(n, gem.gem.Identity): return polys(np.eye(*n.shape))
        if isinstance(n, gem.gem.Variable):
            if n.name not in env: raise Unsupported(f"variable {n.name}")
            return env[n.name]
        if isinstance(n, gem.gem.Sum): return arr(scalar(n.children[0], ix) + scalar(n.children[1], ix))
        if isinstance(n, gem.gem.Product): return arr(scalar(n.children[0], ix) * scalar(n.children[1], ix))
        if isinstance(n, gem.gem.Division): return arr(scalar(n.children[0], ix) * F.inverse(scalar(n.children[1], ix)))
        if isinstance(n, gem.gem.Power):
            x = scalar(n.children[1], ix).const()
            if x is None or x != int(x): raise Unsupported("power")
            return arr(scalar(n.children[0], ix) ** int(x) if x >= 0 else F.inverse(scalar(n.children[0], ix)) ** int(-x))
        if isinstance(n, gem.gem.Indexed):
            idx = []
            for i in n.multiindex:
                if isinstance(i, gem.gem.Index): idx.append(ix[i])
                elif isinstance(i, (int, np.integer)): idx.append(int(i))
                else: raise Unsupported("variable index")
            return arr(ev(n.children[0], ix)[tuple(idx)])
        if isinstance(n, gem.gem.ListTensor):
            out = np.empty(n.shape, dtype=object)
            for i, c in np.ndenumerate(n.array): out[i] = scalar(c, ix)
            return out
        if isinstance(n, gem.gem.ComponentTensor):
            out = np.empty(n.shape, dtype=object)
            for i in np.ndindex(n.shape): out[i] = scalar(n.children[0], {**ix, **dict(zip(n.multiindex, i))})
            return out
        if isinstance(n, gem.gem.IndexSum):
            s = Poly()
            for i in np.ndindex(tuple(j.extent for j in n.multiindex)): s = s + scalar(n.children[0], {**ix, **dict(zip(n.multiindex, i))})
            return arr(s)
        if isinstance(n, gem.gem.Delta):
            v = [ix[i] if isinstance(i, gem.gem.Index) else i for i in (n.i, n.j)]
            return arr(Poly.of(1.0 if v[0] == v[1] else 0.0))
        raise Unsupported(f"gem node {type(n).__name__} of a geometric quantity")
    return ev(e, {})


class RunContract:
    """contract of a function executed on symbolic geometry: run(c) emits obligations through c.prove"""
    bounded = None
    def __init__(self, name, run, note="", bounded=None, thorough_only=False, backend="rational normal form"):
        self.backend = backend
        self.name, self._run, self.note, self.bounded, self.thorough_only = name, run, note, bounded, thorough_only
    def prove(self, ok, name, detail=""):
        self.obligations.append(Obligation(f"{self.name}: {name}", "discharged" if ok else "failed", self.backend, 0.0, "" if ok else str(detail)[:1500]))
        return ok
    def verify(self, both=False):
        from pyvc.verify import Report
        rep = Report(self.name)
        rep.bounded = self.bounded
        t0 = time.time()
        self.obligations = []
        seen = set()
        import finat
        root = os.path.dirname(finat.__file__) + os.sep
        def prof(frame, ev, arg):
            if ev == "call":
                f = frame.f_code
                if f.co_filename.startswith(root):
                    seen.add(f"{f.co_filename[len(root):]}:{f.co_qualname}")
        self.cover = lambda on: sys.setprofile(prof if on else None)
        try:
            self._run(self)
        except (Unsupported, MemoryError) as e:
            rep.error = f"unsupported: {e}"
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            inside = [t for t in tb if t.filename.startswith(root)]
            if inside:      # the real code raised on inputs of its precondition
                self.prove(False, f"no exception {type(e).__name__}", f"{e} @ {inside[-1].filename}:{inside[-1].lineno}")
            else:
                rep.error = f"verifier error: {type(e).__name__}: {e} @ {tb[-1].filename}:{tb[-1].lineno}"
        finally:
            sys.setprofile(None)
        rep.obligations, rep.covered, rep.paths, rep.time = self.obligations, seen, 1, time.time() - t0
        rep.assumptions = {"gem constructors and FIAT tabulation are value-preserving; floating-point coefficients compared up to 1e-9"}
        return rep
