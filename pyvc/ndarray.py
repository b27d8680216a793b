"""numpy arrays of symbolic shape: a shape (list of ints / integer terms) and an element function of integer terms."""
import numpy
import z3
from .values import *
from .engine import deref, wrapz, num_kind, zi, zr, as_seq


class NArr(Substitutable):
    def __init__(self, shape, fn):
        self.shape = [x if isinstance(x, int) else (z3.simplify(x) if isinstance(x, z3.ExprRef) else zi(x)) for x in shape]
        self.shape = [x.as_long() if z3.is_expr(x) and z3.is_int_value(x) else x for x in self.shape]
        self.fn = fn

    @staticmethod
    def concrete(a):
        return NArr(a.shape, lambda it, ix, a=a: pick(it, a, ix))

    @staticmethod
    def opaque(name, params, shape):
        """array of unknown real entries name(params, i, j, ...)"""
        ps = [p.e if isinstance(p, SCALARS) else p for p in params]
        f = z3.Function(name, *[p.sort() for p in ps], *[z3.IntSort()] * len(shape), z3.RealSort())
        return NArr(shape, lambda it, ix: SReal(f(*ps, *ix)))

    @staticmethod
    def from_seq(it, s):
        s = it.eng.norm(s)
        first = None
        for p in s.pieces:
            q = first_elem(p)
            if q is not None:
                first = it.eng.force(deref(q.v))
                break
        if first is None:
            return NArr([0], lambda it, ix: SReal(0))
        sub = as_seq(first) if not isinstance(first, NArr) else None
        n = z3.simplify(it.eng.seq_len(s))
        conv = lambda x: x if isinstance(x, NArr) else NArr.from_seq(it, as_seq(x))
        if isinstance(first, NArr) or sub is not None:
            f0 = conv(first)
            def fn(it, ix):
                from .models import zi as _zi
                v = it.eng.force(entry_of(it, s, ix[0]))
                return conv(deref(v)).at(it, ix[1:])
            return NArr([n] + f0.shape, fn)
        return NArr([n], lambda it, ix: entry_of(it, s, ix[0]))

    def subst(self, f):
        def fn(it, ix, old=self.fn):
            fr = [fresh_int() for _ in ix]
            v = f(old(it, fr))
            return subst(v, list(zip(fr, [x if z3.is_expr(x) else z3.IntVal(x) for x in ix])))
        return NArr([x if isinstance(x, int) else f(x) for x in self.shape], fn)

    def parts(self):
        from . import interp
        it = CURRENT[0]
        fr = [fresh_int() for _ in self.shape]
        return [wrapz(x) for x in self.shape if z3.is_expr(x)] + [self.fn(it, fr)]

    def at(self, it, ix):
        return self.fn(it, [x if z3.is_expr(x) else z3.IntVal(int(x)) for x in ix])

    def shape_seq(self, it):
        return Seq([Elem(x if isinstance(x, int) else SInt(x)) for x in self.shape], "tuple")

    def pytype(self): return numpy.ndarray

    def to_seq(self, it):
        n = self.shape[0]
        if isinstance(n, int):
            return Seq([Elem(self.row(it, z3.IntVal(i))) for i in range(n)])
        k = fresh_int()
        return Seq([Flat(k, Dom(n=n), Seq([Elem(self.row(it, k))]))])

    def row(self, it, k):
        if len(self.shape) == 1:
            return self.at(it, [k])
        return NArr(self.shape[1:], lambda it, ix, k=k: self.at(it, [k] + list(ix)))

    def sym_iter(self, it):
        return self.to_seq(it)

    def sym_len(self, it):
        n = self.shape[0]
        return n if isinstance(n, int) else SInt(n)

    def sym_getattr(self, it, name):
        if name == "shape":
            return it.mk(self.shape_seq(it), "tuple")
        if name == "ndim":
            return len(self.shape)
        if name == "size":
            t = z3.IntVal(1)
            for x in self.shape:
                t = t * x
            return SInt(z3.simplify(t))
        if name == "T":
            return self.transpose(list(reversed(range(len(self.shape)))))
        if name == "transpose":
            def tr(it2, a, kw):
                if len(a) == 1 and as_seq(deref(a[0])) is not None:
                    a = as_seq(deref(a[0])).items()
                return self.transpose([int(x) for x in a] if a else list(reversed(range(len(self.shape)))))
            return Model(tr, "ndarray.transpose")
        if name == "reshape":
            def rs(it2, a, kw):
                if kw:
                    raise Unsupported("ndarray.reshape with keywords")
                if len(a) == 1 and as_seq(it2.eng.force(deref(a[0]))) is not None:
                    s = it2.eng.norm(as_seq(it2.eng.force(deref(a[0]))))
                    if not s.concrete:
                        raise Unsupported("reshape to abstract rank")
                    a = s.items()
                return self.reshape(it2, a)
            return Model(rs, "ndarray.reshape")
        if name in ("flatten", "ravel"):
            def fl(it2, a, kw):
                order = it2.eng.force(deref((list(a) + list(kw.values()) + ["C"])[0]))
                if order not in ("C", "F") or set(kw) - {"order"}:
                    raise Unsupported(f"ndarray.{name} in order {order}")
                return (self if order == "C" else self.transpose(list(reversed(range(len(self.shape)))))).reshape(it2, [-1])
            return Model(fl, "ndarray.flatten")
        if name == "copy":
            return Model(lambda it2, a, kw: self, "ndarray.copy")
        if name == "astype":
            return Model(lambda it2, a, kw: self, "ndarray.astype")
        if name == "dtype":
            return App("ndarray.dtype", ())
        if name == "tolist":
            return Model(lambda it2, a, kw: it2.eng.new_list(self.to_seq(it2).as_kind("list")), "ndarray.tolist")
        raise Unsupported(f"ndarray.{name}")

    def transpose(self, perm):
        if sorted(perm) != list(range(len(self.shape))):
            raise PyRaise(ValueError, ("axes don't match array",))
        def fn(it, ix):
            old = [None] * len(perm)
            for newpos, p in enumerate(perm):
                old[p] = ix[newpos]
            return self.at(it, old)
        return NArr([self.shape[p] for p in perm], fn)

    def reshape(self, it, dims):
        from .gemmodel import ravel, unravel
        e = it.eng
        old = [zi(x) if not z3.is_expr(x) else x for x in self.shape]
        new = [it.eng.force(deref(x)) for x in dims]
        new = [x if z3.is_expr(x) else (int(x) if isinstance(x, (int, numpy.integer)) else z3.simplify(zi(x))) for x in new]
        if -1 in [x for x in new if isinstance(x, int)]:
            j = [i for i, x in enumerate(new) if isinstance(x, int) and x == -1][0]
            if len(new) == 1:
                t = z3.IntVal(1)
                for d in old:
                    t = t * d
                new = [z3.simplify(t)]
            else:
                # remaining dims must match a suffix/prefix of the old ones
                rest = new[:j] + new[j + 1:]
                t = z3.IntVal(1)
                for d in old:
                    t = t * d
                u = z3.IntVal(1)
                for d in rest:
                    u = u * d
                q = None
                for lo in range(len(old) + 1):
                    for hi in range(lo, len(old) + 1):
                        m = z3.IntVal(1)
                        for d in old[lo:hi]:
                            m = m * d
                        if e.entails(m * u == t):
                            q = z3.simplify(m)
                            break
                    if q is not None:
                        break
                if q is None:
                    raise Unsupported("reshape with -1")
                new[j] = q
        new = [z3.IntVal(x) if isinstance(x, int) else x for x in new]
        # pair off groups of equal product
        groups = []
        i = j = 0
        while i < len(old) or j < len(new):
            found = None
            for tot in range(1, len(old) - i + len(new) - j + 1):
                for a in range(0, min(tot, len(old) - i) + 1):
                    b = tot - a
                    if b > len(new) - j:
                        continue
                    p, q = z3.IntVal(1), z3.IntVal(1)
                    for d in old[i:i + a]:
                        p = p * d
                    for d in new[j:j + b]:
                        q = q * d
                    last = i + a == len(old) and j + b == len(new)
                    if (a and b or not (a and b) and not last or last) and e.entails(p == q) and (a and b or last or unit(e, old[i:i + a] + new[j:j + b])):
                        found = (a, b)
                        break
                if found:
                    break
            if found is None:
                p, q = z3.IntVal(1), z3.IntVal(1)
                for d in old:
                    p = p * d
                for d in new:
                    q = q * d
                if e.entails(p != q):
                    raise PyRaise(ValueError, (f"cannot reshape array of shape {self.shape} into {new}",))
                e.prove(p == q, "reshape keeps the number of entries")
                found = (len(old) - i, len(new) - j)
            a, b = found
            groups.append((i, i + a, j, j + b))
            i, j = i + a, j + b
        def fn(it, ix):
            out = []
            for o0, o1, n0, n1 in groups:
                if o1 - o0 == 1 and n1 - n0 == 1:
                    out.append(ix[n0])
                    continue
                flat = ravel(it, [SInt(x) for x in ix[n0:n1]], [SInt(x) for x in new[n0:n1]]) if n1 > n0 else z3.IntVal(0)
                if o1 - o0 == 1:
                    out.append(flat)
                elif o1 > o0:
                    out.extend(zi(x) for x in unravel(it, flat, [SInt(x) for x in old[o0:o1]]))
            return self.at(it, out)
        return NArr(new, fn)

    def sym_getitem(self, it, k):
        from .interp import SliceVal
        k = it.eng.force(deref(k))
        s = as_seq(k)
        keys = s.items() if s is not None and not isinstance(k, PList) else [k]
        keys = [it.eng.force(deref(x)) for x in keys]
        if any(x is Ellipsis for x in keys):
            i = keys.index(Ellipsis)
            keys = keys[:i] + [slice(None)] * (len(self.shape) - len(keys) + 1) + keys[i + 1:]
        if len(keys) > len(self.shape):
            raise PyRaise(IndexError, ("too many indices",))
        keys += [slice(None)] * (len(self.shape) - len(keys))
        shape, maps = [], []
        for x, n in zip(keys, self.shape):
            if isinstance(x, (slice, SliceVal)):
                lo, hi, st = (x.start, x.stop, x.step) if isinstance(x, slice) else (x.lo, x.hi, x.step)
                if st == -1 and lo is None and hi is None:
                    maps.append(("r", (n if z3.is_expr(n) else z3.IntVal(n)) - 1))
                    shape.append(n)
                    continue
                if st not in (None, 1):
                    raise Unsupported("array slice with step")
                N = n if z3.is_expr(n) else z3.IntVal(n)
                a = z3.IntVal(0) if lo is None else clip(it, zi(it.eng.force(lo)), N)
                b = N if hi is None else clip(it, zi(it.eng.force(hi)), N)
                ln = z3.simplify(b - a)
                if not it.eng.entails(ln >= 0):
                    ln = z3.simplify(z3.If(ln > 0, ln, 0))
                maps.append(("s", a))
                shape.append(ln)
            elif num_kind(x) == "int":
                N = n if z3.is_expr(n) else z3.IntVal(n)
                t = zi(x)
                if not it.eng.entails(z3.And(t >= 0, t < N)):
                    if it.eng.entails(z3.And(t < 0, t >= -N)):
                        t = N + t
                    elif it.eng.entails(z3.Or(t >= N, t < -N)):
                        raise PyRaise(IndexError, ("index out of bounds",))
                    else:
                        raise Unsupported("array index of unknown sign or range")
                maps.append(("i", t))
            elif x is None:
                raise Unsupported("newaxis")
            else:
                raise Unsupported(f"array index {x!r}")
        def fn(it, ix):
            ix = list(ix)
            out = []
            for kind, t in maps:
                out.append(t if kind == "i" else z3.simplify(t + ix.pop(0) if kind == "s" else t - ix.pop(0)))
            return self.at(it, out)
        if not shape:
            return fn(it, [])
        return NArr(shape, fn)

    def sym_binop(self, it, op, o): return ew(it, op, self, o)
    def sym_rbinop(self, it, op, o): return ew(it, op, o, self)
    def sym_neg(self, it): return NArr(self.shape, lambda it, ix: it.unop(__import__("ast").USub(), self.at(it, ix)))

    def equal_to(self, eng, o, name):
        it = eng.interp
        if isinstance(o, numpy.ndarray):
            o = NArr.concrete(o)
        if not isinstance(o, NArr):
            s = as_seq(o)
            if s is None:
                return eng.fail(name, f"array vs {o!r}")
            o = NArr.from_seq(it, s)
        r = eng.equal(it.mk(self.shape_seq(it), "tuple"), it.mk(o.shape_seq(it), "tuple"), name + ": shape")
        if len(self.shape) != len(o.shape):
            return False
        fr = [fresh_int("x") for _ in self.shape]
        return eng.with_pc([z3.And(x >= 0, x < n) for x, n in zip(fr, self.shape)],
                           lambda: eng.equal(self.at(it, fr), o.at(it, fr), name + ": entries")) and r

    def __repr__(self): return f"NArr{tuple(self.shape)}"


class MArr(NArr):
    """mutable numpy array of known shape whose entries may be symbolic: a native object array (so views alias exactly
    like numpy's), writes undone with the path that made them"""
    def __init__(self, a):
        self.a = a
        self.shape = list(a.shape)

    @property
    def fn(self):
        return lambda it, ix, a=self.a.copy(): pick(it, a, ix)

    def subst(self, f):
        out = numpy.empty(self.a.shape, dtype=object)
        for k in numpy.ndindex(*self.a.shape):
            out[k] = f(self.a[k])
        return MArr(out)

    def parts(self): return [x for x in self.a.flat]
    def at(self, it, ix): return pick(it, self.a, [x if z3.is_expr(x) else z3.IntVal(int(x)) for x in ix])
    def row(self, it, k):
        k = z3.simplify(k) if z3.is_expr(k) else k
        if not z3.is_expr(k) or z3.is_int_value(k):
            v = self.a[k.as_long() if z3.is_expr(k) else k]
            return MArr(v) if isinstance(v, numpy.ndarray) else v
        return NArr(self.shape, self.fn).row(it, k)

    def native_key(self, it, k):
        k = it.eng.force(deref(k))
        s = as_seq(k)
        keys = list(s.items()) if s is not None and not isinstance(k, PList) else [k]
        out = []
        for x in keys:
            x = it.eng.force(deref(x))
            if num_kind(x) == "int" or isinstance(x, (PList, list, tuple, Seq)):
                x = it.concretize(x)
            from .interp import SliceVal
            if isinstance(x, SliceVal):
                x = slice(*[None if y is None else it.concretize(it.eng.force(deref(y))) for y in (x.lo, x.hi, x.step)])
            if not (x is None or x is Ellipsis or isinstance(x, (int, numpy.integer, slice, list, tuple, numpy.ndarray))):
                return None
            out.append(x)
        return tuple(out)

    def sym_getitem(self, it, k):
        try:
            nk = self.native_key(it, k)
        except Unsupported:
            nk = None
        if nk is None:
            return NArr(self.shape, self.fn).sym_getitem(it, k)
        try:
            v = self.a[nk]
        except IndexError as e:
            raise PyRaise(IndexError, e.args)
        return MArr(v) if isinstance(v, numpy.ndarray) else v

    def sym_setitem(self, it, k, v):
        nk = self.native_key(it, k)
        if nk is None:
            raise Unsupported("array store at a symbolic position")
        v = it.eng.force(deref(v))
        if isinstance(v, MArr):
            v = v.a
        elif isinstance(v, NArr):
            v = solid(it, v)
        elif as_seq(v) is not None and not isinstance(v, str):
            v = solid(it, NArr.from_seq(it, as_seq(v)))
        target = self.a
        base = target
        while base.base is not None and isinstance(base.base, numpy.ndarray):
            base = base.base
        old = base.copy()
        def undo():
            base[...] = old
        it.eng.record(("array", base), undo)
        if isinstance(v, numpy.ndarray):
            try:
                target[nk] = v
            except ValueError as e:
                raise PyRaise(ValueError, e.args)
            except IndexError as e:
                raise PyRaise(IndexError, e.args)
        else:
            box = numpy.empty((), dtype=object)
            box[()] = v
            try:
                target[nk] = box
            except IndexError as e:
                raise PyRaise(IndexError, e.args)

    def sym_getattr(self, it, name):
        if name in ("T",):
            return MArr(self.a.T)
        if name in ("flatten", "copy", "ravel", "transpose", "reshape", "tolist"):
            def call(it2, a, kw):
                args = [it2.concretize(it2.eng.force(deref(x))) for x in a]
                kws = {n: it2.concretize(it2.eng.force(deref(x))) for n, x in kw.items()}
                try:
                    r = getattr(self.a, name)(*args, **kws)
                except ValueError as e:
                    raise PyRaise(ValueError, e.args)
                return MArr(r) if isinstance(r, numpy.ndarray) else it2.lift(r)
            return Model(call, "ndarray." + name)
        return NArr(self.shape, self.fn).sym_getattr(it, name)

    def sym_binop(self, it, op, o): return eager(it, op, self, o)
    def sym_rbinop(self, it, op, o): return eager(it, op, o, self)
    def __repr__(self): return f"MArr{tuple(self.shape)}"


def solid(it, n):
    """an array of known shape as a native object array"""
    if isinstance(n, numpy.ndarray):
        return n
    if isinstance(n, MArr):
        return n.a
    if not all(isinstance(d, int) for d in n.shape):
        raise Unsupported("array of symbolic shape stored into an array")
    out = numpy.empty(tuple(n.shape), dtype=object)
    for k in numpy.ndindex(*n.shape):
        out[k] = n.at(it, list(k))
    return out


def eager(it, op, a, b):
    vals = []
    for x in (a, b):
        if isinstance(x, NArr):
            if not isinstance(x, MArr) and not all(isinstance(d, int) for d in x.shape):
                return ew(it, op, *[NArr(y.shape, y.fn) if isinstance(y, MArr) else y for y in (a, b)])
            x = solid(it, x)
        elif isinstance(x, (list, tuple, PList, Seq)):
            x = solid(it, NArr.from_seq(it, as_seq(x)))
        elif not isinstance(x, numpy.ndarray):
            box = numpy.empty((), dtype=object)
            box[()] = x
            x = box
        vals.append(x)
    try:
        x, y = numpy.broadcast_arrays(*vals)
    except ValueError as e:
        raise PyRaise(ValueError, e.args)
    out = numpy.empty(x.shape, dtype=object)
    for k in numpy.ndindex(*x.shape):
        out[k] = it.binop(op, it.lift(x[k]) if isinstance(x[k], numpy.generic) else x[k], y[k].item() if isinstance(y[k], numpy.generic) else y[k])
    return MArr(out)


CURRENT = [None]


def entry_of(it, s, i):
    """entry i (within bounds) of a sequence, without case splits where the sequence is one block"""
    def one(ps):
        # the single entry of a block of pieces
        if len(ps) == 1 and isinstance(ps[0], Elem):
            return ps[0].v
        if len(ps) == 1 and isinstance(ps[0], Alt):
            vs = [(g, one(list(x.pieces))) for g, x in ps[0].cases]
            if all(v is not None for _, v in vs):
                return it.eng.merge(vs)
        return None
    ps = list(s.pieces)
    if len(ps) == 1 and isinstance(ps[0], Alt):
        vs = [(g, entry_of(it, it.eng.norm(x), i)) for g, x in ps[0].cases]
        return it.eng.merge(vs)
    if len(ps) == 1 and isinstance(ps[0], Flat) and ps[0].dom.keys is None:
        v = one(list(ps[0].body.pieces))
        if v is not None:
            return subst(v, [(ps[0].var, i)])
    return it.seq_get(s, SInt(i))


def first_elem(p):
    if isinstance(p, Elem):
        return p
    for x in (p.body.pieces if isinstance(p, Flat) else [y for _, c in p.cases for y in c.pieces] if isinstance(p, Alt) else []):
        q = first_elem(x)
        if q is not None:
            return q
    return None


def unit(e, ds):
    return all(e.entails(d == 1) for d in ds)


def clip(it, t, n):
    if it.eng.entails(z3.And(t >= 0, t <= n)):
        return t
    if it.eng.entails(z3.And(t < 0, t >= -n)):
        return n + t
    if it.eng.entails(t > n):
        return n
    raise Unsupported("slice bound of unknown range")


def pick(it, a, ix):
    """entry of a concrete array at symbolic indices"""
    if not ix:
        v = a if not isinstance(a, numpy.ndarray) else a[()]
        if isinstance(v, (float, numpy.floating)):
            return SReal(exact(float(v)))
        if isinstance(v, (int, numpy.integer)) and not isinstance(v, (bool, numpy.bool_)):
            return SReal(z3.RealVal(int(v)))
        return v
    t = z3.simplify(ix[0])
    if z3.is_int_value(t):
        return pick(it, a[t.as_long()], ix[1:])
    out = None
    for i in reversed(range(a.shape[0])):
        x = pick(it, a[i], ix[1:])
        if out is None:
            out = x
        elif isinstance(x, SReal) and isinstance(out, SReal):
            out = SReal(z3.If(t == i, x.e, out.e))
        else:
            from .engine import Choice
            out = it.eng.merge([(t == i, x), (t != i, out)])
    return out


def exact(x):
    from fractions import Fraction
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def bshape(it, a, b):
    """broadcast shape of two arrays"""
    n = max(len(a), len(b))
    a, b = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            X, Y = (v if z3.is_expr(v) else z3.IntVal(v) for v in (x, y))
            if not it.eng.entails(X == Y):
                if it.eng.entails(X != Y):
                    raise PyRaise(ValueError, ("operands could not be broadcast",))
                raise Unsupported("broadcast of unknown extents")
            out.append(x)
    return out


def ew(it, op, a, b):
    if isinstance(a, numpy.ndarray):
        a = NArr.concrete(a)
    if isinstance(b, numpy.ndarray):
        b = NArr.concrete(b)
    for x in (a, b):
        if not isinstance(x, NArr) and num_kind(x) is None:
            return NotImplemented
    sa = a.shape if isinstance(a, NArr) else []
    sb = b.shape if isinstance(b, NArr) else []
    sh = bshape(it, sa, sb)
    def get(x, s, it, ix):
        if not isinstance(x, NArr):
            return x
        ix = list(ix)[len(sh) - len(s):]
        return x.at(it, [z3.IntVal(0) if isinstance(d, int) and d == 1 else i for i, d in zip(ix, s)])
    return NArr(sh, lambda it, ix: it.binop(op, get(a, sa, it, ix), get(b, sb, it, ix)))
