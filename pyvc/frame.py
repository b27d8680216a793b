"""Statement and expression evaluation, and summarisation of loops over symbolic sequences."""
import ast
import itertools
import builtins
import types
import z3
import numpy
from .values import *
from .values import zconsts, zsub
from .engine import Choice, Infeasible, deref, wrapz, num_kind, zi, zb, as_seq, solve_for, linear_coeff, conjuncts


class Frame:
    def __init__(self, it, func, env):
        self.it, self.eng, self.func, self.env = it, it.eng, func, env
        self.yields = None
        self.globs = func.globs

    # ------------------------------------------------------------------ names
    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if name in self.globs:
            return self.it.lift(self.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def store(self, name, v, env):
        from .interp import MISSING
        e = env
        # nonlocal declarations
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in e.vars:
                e = e.parent
        old = e.vars.get(name, MISSING)
        def undo():
            if old is MISSING:
                e.vars.pop(name, None)
            else:
                e.vars[name] = old
        self.eng.record(("var", e, name), undo)
        e.vars[name] = v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        from .interp import Env, ReturnSig, BreakSig, ContinueSig, ExcVal, GenericRaise
        it, eng = self.it, self.eng
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for tgt in s.targets:
                self.assign(tgt, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            op = it_op(s.op)
            if isinstance(s.target, ast.Name):
                cur = self.load(s.target.id, env)
                self.store(s.target.id, it.binop(op, cur, self.ev(s.value, env), True), env)
            elif isinstance(s.target, ast.Subscript):
                o = self.ev(s.target.value, env)
                k = self.ev_index(s.target.slice, env)
                cur = it.getitem(o, k)
                r = it.binop(op, cur, self.ev(s.value, env), True)
                if not (r is cur and isinstance(deref(r), PList)):
                    it.setitem(o, k, r)
            elif isinstance(s.target, ast.Attribute):
                o = self.ev(s.target.value, env)
                cur = it.getattr(o, s.target.attr)
                it.setattr(o, s.target.attr, it.binop(op, cur, self.ev(s.value, env), True))
            else:
                raise Unsupported("augmented assignment")
        elif t is ast.Return:
            raise ReturnSig(self.ev(s.value, env) if s.value is not None else None)
        elif t is ast.If:
            if it.truth(self.ev(s.test, env)):
                self.block(s.body, env)
            else:
                self.block(s.orelse, env)
        elif t is ast.For:
            self.for_loop(s, env)
        elif t is ast.While:
            n = 0
            while it.truth(self.ev(s.test, env)):
                n += 1
                if n > 400:
                    raise Unsupported("while loop does not terminate within the unrolling limit")
                try:
                    self.block(s.body, env)
                except BreakSig:
                    break
                except ContinueSig:
                    continue
            else:
                self.block(s.orelse, env)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise BreakSig()
        elif t is ast.Continue:
            raise ContinueSig()
        elif t is ast.FunctionDef:
            f = Func(s, env, self.globs, s.name, [self.ev(d, env) for d in s.args.defaults],
                     {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                     self.func.defcls)
            for d in reversed(s.decorator_list):
                f = it.call(self.ev(d, env), [f])
            self.store(s.name, f, env)
        elif t is ast.Assert:
            c = self.ev(s.test, env)
            if isinstance(c, SBool) and not it.assert_raises:
                eng.prove(c.e, f"assert {ast.unparse(s.test)[:80]}")
                eng.pc.append(c.e)
            elif not it.truth(c):
                raise PyRaise(AssertionError, (ast.unparse(s.test),))
        elif t is ast.Raise:
            if s.exc is None:
                raise PyRaise(RuntimeError, ("re-raise",))
            x = self.ev(s.exc, env)
            if isinstance(x, ExcVal):
                raise PyRaise(x.cls, x.args)
            if isinstance(x, type) and issubclass(x, BaseException):
                raise PyRaise(x)
            if isinstance(x, BaseException):
                raise PyRaise(type(x), x.args)
            raise PyRaise(TypeError, ("exceptions must derive from BaseException",))
        elif t is ast.Try:
            self.try_stmt(s, env)
        elif t is ast.Delete:
            for tgt in s.targets:
                if isinstance(tgt, ast.Name):
                    env.vars.pop(tgt.id, None)
                else:
                    raise Unsupported("del")
        elif t in (ast.Import, ast.ImportFrom):
            self.imports(s, env)
        elif t is ast.Nonlocal:
            env.nonlocals = tuple(env.nonlocals) + tuple(s.names)
        elif t is ast.Global:
            raise Unsupported("global")
        elif t is ast.With:
            raise Unsupported("with")
        else:
            raise Unsupported(f"statement {t.__name__}")

    def imports(self, s, env):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                if a.asname:
                    self.store(a.asname, m, env)
                else:
                    self.store(a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]), env)
        else:
            if s.level:
                raise Unsupported("relative import")
            m = importlib.import_module(s.module)
            for a in s.names:
                self.store(a.asname or a.name, getattr(m, a.name), env)

    def try_stmt(self, s, env):
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                cls = (Exception,) if h.type is None else self.ev(h.type, env)
                cls = cls if isinstance(cls, tuple) else (cls,)
                if any(issubclass(e.exc, c) for c in cls):
                    if h.name:
                        from .interp import ExcVal
                        self.store(h.name, ExcVal(e.exc, e.eargs), env)
                    self.block(h.body, env)
                    break
            else:
                self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def assign(self, tgt, v, env):
        it = self.it
        if isinstance(tgt, ast.Name):
            self.store(tgt.id, v, env)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            s = self.eng.norm(it.iter_seq(v))
            n = len(tgt.elts)
            if s.kind == "symset":
                from .models import set_single
                if n != 1 or isinstance(tgt.elts[0], ast.Starred):
                    raise Unsupported("unpacking a symbolic set")
                g, first = set_single(it, s)
                if first is None or not self.eng.branch(g):
                    raise PyRaise(ValueError, ("unpack",))
                self.assign(tgt.elts[0], first, env)
                return
            stars = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            if not s.concrete and not stars:
                l = self.eng.seq_len(s)
                if not self.eng.branch(l == n):
                    raise PyRaise(ValueError, ("unpack",))
                vals = [it.seq_get(s, i) for i in range(n)]
            elif not s.concrete:
                i = stars[0]
                after = n - i - 1
                l = self.eng.seq_len(s)
                if not self.eng.branch(l >= n - 1):
                    raise PyRaise(ValueError, ("unpack",))
                from .interp import SliceVal
                vals = [it.seq_get(s, j) for j in range(i)]
                mid = it.seq_slice(s, SliceVal(i, SInt(z3.simplify(l - after)), None), None)
                vals.append(self.eng.new_list(as_seq(mid)))
                vals += [it.seq_get(s, SInt(z3.simplify(l - after + j))) for j in range(after)]
                for e, x in zip(tgt.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            else:
                vals = s.items()
            if stars:
                i = stars[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise PyRaise(ValueError, ("unpack",))
                vals = vals[:i] + [self.eng.new_list(seq_of(vals[i:len(vals) - after], "list"))] + vals[len(vals) - after:]
            if len(vals) != n:
                raise PyRaise(ValueError, ("unpack",))
            for e, x in zip(tgt.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(tgt, ast.Subscript):
            it.setitem(self.ev(tgt.value, env), self.ev_index(tgt.slice, env), v)
        elif isinstance(tgt, ast.Attribute):
            it.setattr(self.ev(tgt.value, env), tgt.attr, v)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------ loops
    def for_loop(self, s, env):
        from .interp import BreakSig, ContinueSig
        it = self.it
        seq = self.eng.norm(it.iter_seq(self.ev(s.iter, env)))
        if seq.kind == "symset":
            raise Unsupported("loop over a symbolic set")
        def body(v):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except ContinueSig:
                pass
        try:
            self.run_pieces(seq, body)
        except BreakSig:
            return
        self.block(s.orelse, env)

    def run_pieces(self, seq, body):
        eng = self.eng
        pieces = list(eng.norm(seq).pieces)
        i = 0
        while i < len(pieces):
            p = pieces[i]
            i += 1
            if isinstance(p, Elem):
                body(p.v)
            elif isinstance(p, Flat):
                self.run_flat(p, body)
            elif isinstance(p, Alt):
                for j, (g, s) in enumerate(p.cases):
                    if j == len(p.cases) - 1 or eng.branch(g):
                        self.run_pieces(s, body)
                        break
            elif isinstance(p, Rho):
                k = fresh_int()
                self.run_flat(Flat(k, Dom(n=p.len), Seq([Elem(self.it.piece_get(p, k))])), body)
            else:
                raise Unsupported(f"iteration over {p}")

    def run_flat(self, p, body):
        eng = self.eng
        def gen(v):
            self.run_pieces(subst(p.body, [(p.var, v)]), body)
        mark = len(eng.obligations)
        jm = len(eng.journal) if eng.journal is not None else 0
        try:
            Summariser(self, p.dom, gen).run()
            return
        except Unsupported as ex:
            if eng.journal is not None:
                eng.undo_to(jm)
            if p.dom.keys is not None or getattr(ex, "nopeel", False) or getattr(self, "peeling", False):
                raise
            first_error = ex
        # peel the first iteration and summarise the rest
        del eng.obligations[mark:]
        if not eng.branch(p.dom.n >= 1):
            return
        gen(z3.IntVal(0))
        self.peeling = True
        try:
            Summariser(self, Dom(n=z3.simplify(p.dom.n - 1)), lambda v: gen(v + 1)).run()
        except Unsupported as ex:
            raise Unsupported(f"{first_error} / after peeling: {ex}")
        finally:
            self.peeling = False

    # ------------------------------------------------------------------ expressions
    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            from .interp import SliceVal
            f = lambda x: None if x is None else self.eng.force(deref(self.ev(x, env)))
            lo, hi, st = f(n.lower), f(n.upper), f(n.step)
            if all(x is None or isinstance(x, (int, numpy.integer)) for x in (lo, hi, st)):
                pass
            return SliceVal(lo, hi, st)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(e, env) for e in n.elts) if not any(isinstance(e, ast.Starred) for e in n.elts) else self.ev(n, env)
        return self.ev(n, env)

    def ev_list(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.it.iter_seq(self.ev(e.value, env)).pieces)
            else:
                out.append(Elem(self.ev(e, env)))
        return Seq(out)

    def ev(self, n, env):
        it, eng = self.it, self.eng
        t = type(n)
        if t is ast.Constant:
            return n.value
        if t is ast.Name:
            from .interp import Poison
            v = self.load(n.id, env)
            if isinstance(v, Choice):
                return self.eng.force(v)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if t is ast.Attribute:
            return it.getattr(self.ev(n.value, env), n.attr)
        if t is ast.Call:
            return self.ev_call(n, env)
        if t is ast.BinOp:
            return it.binop(it_op(n.op), self.ev(n.left, env), self.ev(n.right, env))
        if t is ast.UnaryOp:
            return it.unop(n.op, self.ev(n.operand, env))
        if t is ast.BoolOp:
            v = None
            for i, e in enumerate(n.values):
                v = self.ev(e, env)
                if i == len(n.values) - 1:
                    return v
                tr = it.truth(v)
                if isinstance(n.op, ast.And) and not tr:
                    return v if not isinstance(v, SBool) else False
                if isinstance(n.op, ast.Or) and tr:
                    return v if not isinstance(v, SBool) else True
            return v
        if t is ast.Compare:
            left = self.ev(n.left, env)
            res = True
            for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
                right = self.ev(r, env)
                c = it.compare(op, left, right)
                if len(n.ops) == 1:
                    return c
                if isinstance(c, SBool):
                    res = SBool(z3.And(zb(res), c.e))
                elif not it.truth(c):
                    return False
                left = right
            return res
        if t is ast.IfExp:
            return self.ev(n.body, env) if it.truth(self.ev(n.test, env)) else self.ev(n.orelse, env)
        if t is ast.Tuple:
            s = self.ev_list(n.elts, env)
            return tuple(s.items()) if s.concrete else s.as_kind("tuple")
        if t is ast.List:
            return eng.new_list(self.ev_list(n.elts, env).as_kind("list"))
        if t is ast.Set:
            return it.models[set](it, [self.ev_list(n.elts, env)], {})
        if t is ast.Dict:
            d = eng.new_dict()
            for k, v in zip(n.keys, n.values):
                if k is None:
                    it.methods[("dict", "update")](it, [d, self.ev(v, env)], {})
                else:
                    kk = self.ev(k, env)
                    it.dict_set(d, kk, self.ev(v, env))
            return d
        if t is ast.Subscript:
            return it.getitem(self.ev(n.value, env), self.ev_index(n.slice, env))
        if t is ast.Slice:
            return self.ev_index(n, env)
        if t is ast.Starred:
            raise Unsupported("starred")
        if t is ast.Lambda:
            return Func(n, env, self.globs, "<lambda>", [self.ev(d, env) for d in n.args.defaults],
                        {a.arg: self.ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, self.func.defcls)
        if t is ast.JoinedStr:
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    x = self.ev(v.value, env)
                    if v.format_spec is not None:
                        try:
                            spec = self.ev(v.format_spec, env)
                            parts.append(format(it.concretize(x), spec))
                            continue
                        except NotConcrete:
                            raise Unsupported("format spec")
                    parts.append(it.tostr(x, "r" if v.conversion == 114 else "s"))
            return it.mkstr(parts)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            s = self.comp(n.generators, lambda e: Seq([Elem(self.ev(n.elt, e))]), env)
            if t is ast.ListComp:
                return eng.new_list(s.as_kind("list"))
            if t is ast.SetComp:
                return it.models[set](it, [s], {})
            return s.as_kind("iter")
        if t is ast.DictComp:
            s = self.comp(n.generators, lambda e: Seq([Elem((self.ev(n.key, e), self.ev(n.value, e)))]), env)
            return it.dict_from_pairs(s)
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.store(n.target.id, v, env)
            return v
        if t is ast.Yield:
            self.yields.set(self.yields.seq + Seq([Elem(self.ev(n.value, env) if n.value else None)]))
            return None
        if t is ast.YieldFrom:
            self.yields.set(self.yields.seq + it.iter_seq(self.ev(n.value, env)))
            return None
        raise Unsupported(f"expression {t.__name__}")

    def comp(self, gens, leaf, env):
        from .interp import Env
        it = self.it
        if not gens:
            return leaf(env)
        g = gens[0]
        src = it.iter_seq(self.ev(g.iter, env))
        def one(v):
            e = Env(env, {}, self.eng)
            self.assign(g.target, v, e)
            for c in g.ifs:
                if not it.truth(self.ev(c, e)):
                    return Seq()
            return self.comp(gens[1:], leaf, e)
        return it.flat_map(one, src)

    def ev_call(self, n, env):
        from .interp import Super
        it = self.it
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            try:
                self.load("super", env) is super
            except PyRaise:
                pass
            if n.args:
                cls = self.ev(n.args[0], env)
                obj = self.ev(n.args[1], env)
            else:
                cls = self.func.defcls or self.load("__class__", env)
                first = self.first_param()
                obj = self.load(first, env)
            if isinstance(obj, type):
                return Super(cls, obj, obj)
            return Super(cls, obj, it.type_of(obj))
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.eng.norm(it.iter_seq(self.ev(a.value, env)))
                if s.concrete:
                    args.extend(s.items())
                else:
                    args.append(Star(s))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = deref(self.ev(k.value, env))
                s = self.eng.norm(self.eng.dict_items(d))
                if not s.concrete:
                    raise Unsupported("** of symbolic dict")
                for kk, vv in s.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        return it.call(f, args, kw)

    def first_param(self):
        f = self.func.node
        a = f.args.posonlyargs + f.args.args
        if a:
            return a[0].arg
        raise Unsupported("super() without self")


def it_op(op):
    from .interp import BINOPS
    return BINOPS[type(op)]


# ---------------------------------------------------------------------------------------------- summarisation

def has_wild(k):
    return isinstance(k, App) and str(k.fn).startswith("wild!") or isinstance(k, tuple) and any(has_wild(x) for x in k)


class Summariser:
    def __init__(self, frame, dom, gen):
        self.fr, self.it, self.eng, self.dom, self.gen = frame, frame.it, frame.eng, dom, gen

    def run(self):
        from .interp import MISSING, Poison, BreakSig, ReturnSig
        eng, it = self.eng, self.it
        before = eng.serial
        if eng.journal is None:
            raise Unsupported("loop outside exploration")
        ph = {}          # key id -> placeholder record
        omark = len(eng.obligations)
        saved_acc = eng.accesses
        def one_pass(known=None):
            v = self.dom.fresh()
            del eng.obligations[omark:]
            base = len(eng.pc)
            eng.pc.append(self.dom.constraint(v))
            if known is not None:
                eng.pc.extend(known(v))
            def thunk():
                for rec in ph.values():
                    rec.install(self, v)
                eng.accesses = []
                try:
                    self.gen(v)
                except BreakSig:
                    return ("break", None)
                except ReturnSig as r:
                    return ("return", r.v)
                return ("next", None)
            def collect(journal):
                w = {}
                for key, _ in journal:
                    if it.preexisting(key, before):
                        w[self.kid(key)] = key
                return ({k: (key, eng.freeze(self.current(key))) for k, key in w.items()}, list(eng.accesses or []))
            binders, eng.binders = eng.binders, eng.binders + [v]
            try:
                return v, eng.explore(thunk, collect)
            finally:
                del eng.pc[base:]
                eng.accesses = saved_acc
                eng.binders = binders
        for attempt in range(8):
            v, res = one_pass()
            written = {}
            for g, kind, val, (w, acc) in res:
                written.update({k: key for k, (key, _) in w.items()})
            new = {k: key for k, key in written.items() if k not in ph}
            if not new:
                break
            for k, key in new.items():
                ph[k] = self.classify(key, res, v)
        else:
            raise Unsupported("loop effects do not stabilise")
        if self.dom.keys is None and any(o.status != "discharged" for o in eng.obligations[omark:]) and any(isinstance(r, AccInt) for r in ph.values()):
            # obligations of the body may need the running values: they are sums over the earlier iterations (established by the pass above)
            pend = self.running(ph, self.split_next(res, ph)[1], v)[0]
            if pend:
                v, res = one_pass(lambda u: [c == z3.substitute(at, (v, u)) for c, at in pend])
                if any(k not in ph for _, _, _, (w, _) in res for k in w):
                    raise Unsupported("loop effects do not stabilise")
        self.apply(ph, res, v, saved_acc)

    @staticmethod
    def kid(key):
        return (key[0], id(key[1])) + tuple(key[2:])

    def current(self, key):
        from .interp import MISSING
        if key[0] == "var":
            return key[1].vars.get(key[2], MISSING)
        if key[0] == "list":
            return key[1].seq
        if key[0] == "dict":
            return key[1].items
        if key[0] == "obj":
            return key[1].fields.get(key[2], MISSING)
        raise Unsupported(str(key))

    def setcur(self, key, val):
        if key[0] == "var":
            e, name = key[1], key[2]
            from .interp import MISSING
            old = e.vars.get(name, MISSING)
            def undo():
                if old is MISSING: e.vars.pop(name, None)
                else: e.vars[name] = old
            self.eng.record(key, undo)
            e.vars[name] = val
        elif key[0] in ("list", "dict"):
            key[1].set(val)
        elif key[0] == "obj":
            key[1].set(key[2], val)

    def component(self, acc_list, obj, v):
        """depth at which every non-navigational access to obj has the loop variable as key; None otherwise"""
        paths = [(m, p) for d, m, p in acc_list if d is obj]
        depth = None
        real = [p for m, p in paths if m != "nav"]
        if not real:
            return None
        for d in range(max(len(p) for p in real)):
            if all(len(p) > d and self.pins(p[d], v) for p in real):
                pre = real[0][:d]
                if all(all(self.same_key(x, y) for x, y in zip(pre, p[:d])) for p in real) and \
                        all(not (free_consts(x) & {v.get_id()}) for x in pre):
                    key = real[0][d]
                    if not has_wild(key) and all(self.same_key(key, p[d]) for p in real):
                        return d, pre, key
        return None

    def pins(self, k, v):
        k = deref(k)
        if isinstance(k, (SInt, SU)):
            if k.e.eq(v):
                return True
            if isinstance(k, SInt) and v.sort() == z3.IntSort():
                lc = linear_coeff(k.e, v)
                return lc is not None and lc[0] in (1, -1)
            return False
        if isinstance(k, tuple):
            return any(self.pins(x, v) for x in k)
        return False

    def wild(self, k, v):
        """tuple key with the components that mention v forgotten"""
        k = deref(k)
        if isinstance(k, tuple):
            r = tuple(App(fresh_name("wild")) if free_consts(x) & {v.get_id()} else x for x in k)
            return r if any(not has_wild(x) for x in r) else None
        return None

    def pin_pos(self, k, v):
        """position path of the component of key k that determines v"""
        k = deref(k)
        if isinstance(k, tuple):
            for i, x in enumerate(k):
                r = self.pin_pos(x, v)
                if r is not None:
                    return ((i, len(k)),) + r[0], r[1]
            return None
        return ((), k) if self.pins(k, v) else None

    def addfoot(self, acc, obj, v):
        """every access to dict obj has a first key whose component at one fixed position determines the loop variable"""
        ps = [p for d, m, p in acc if d is obj]
        if not ps or any(not p for p in ps):
            return False
        pos = [self.pin_pos(p[0], v) for p in ps]
        return all(x is not None and x[0] == pos[0][0] and self.same_key(x[1], pos[0][1]) for x in pos)

    def same_key(self, a, b):
        try:
            e = self.eng.key_eq(a, b)
        except Unsupported:
            return False
        return e is True or (e is not False and self.eng.entails(e))

    def classify(self, key, res, v):
        from .interp import MISSING, Poison
        old = self.current(key)
        it = self.it
        if key[0] == "dict":
            acc = [a for _, _, _, (w, al) in res for a in al]
            c = self.component(acc, key[1], v)
            if c is not None:
                return Footprint(key, c, v)
            real = [p for d, m, p in acc if d is key[1] and m != "nav"]
            if real and real[0] and all(len(p) == len(real[0]) and all(self.same_key(x, y) for x, y in zip(p, real[0])) for p in real) \
                    and not any(free_consts(x) & {v.get_id()} for x in real[0]):
                cur = LRef(it, key[1], real[0]).value_or_none()
                if isinstance(cur, PList):
                    return AccPath(key, real[0])
            if self.addfoot(acc, key[1], v):
                return FootAdd(key)
            return AccDict(key)
        if key[0] == "list":
            acc = [a for _, _, _, (w, al) in res for a in al if a[0] is key[1]]
            if acc and all(len(p) == 1 and self.pins(p[0], v) for _, m, p in acc) and \
                    all(self.same_key(acc[0][2][0], p[0]) for _, m, p in acc):
                return ArrayFoot(key, acc[0][2][0], v)
            return AccList(key)
        if isinstance(old, (int, SInt)) and not isinstance(old, bool):
            return AccInt(key)
        if isinstance(old, Seq) or isinstance(old, tuple):
            return AccSeq(key)
        return Overwrite(key)

    def apply(self, ph, res, v, outer_acc):
        from .interp import Poison
        eng, it = self.eng, self.it
        self.final_acc = [a for _, _, _, (w, al) in res for a in al]
        # early exits
        exits = [(g, kind, val) for g, kind, val, _ in res if kind == "raise" or val[0] in ("break", "return")]
        nexts, allvals = self.split_next(res, ph)
        carried = [r for r in ph.values() if r.const() is not None]
        if exits and not (nexts and carried and self.exits_carry(exits, carried)):
            self.early_exit(exits, nexts, v, ph)
            exits = []
            if not nexts:
                return
        pend, names = self.running(ph, allvals, v)
        if exits:
            loose = {r.const().get_id() for r in carried} - {c.get_id() for c, _ in pend}
            if loose and any(loose & zconsts(c) for g, _, _ in exits for c in g):
                raise Unsupported("early exit depending on a running value that was not determined")
            ex = [(tuple(z3.substitute(c, *pend) for c in g if not rec_trivial(c, ph)), kind, val) for g, kind, val in exits]
            if any(kind == "raise" and free_consts(val) & names for _, kind, val in ex if isinstance(val, (Seq, tuple, App))):
                raise Unsupported("exception value depends on a running value")
            at = {id(r): a for r in carried for c, a in pend if c.eq(r.const())}
            self.early_exit([(g, kind, subst(val, pend) if kind != "raise" else val) for g, kind, val in ex], nexts, v, ph, at)
        for k, rec in ph.items():
            allvals[k] = [(zsub(g, pend), subst(x, pend) if x is not None else None) for g, x in allvals[k]]
        self.final_acc = [(d, m, tuple(subst(x, pend) for x in p)) for d, m, p in self.final_acc] if pend else self.final_acc
        for k, rec in ph.items():
            rec.finish(self, v, allvals[k], ph)
        # all new values computed from the old state first, then stored
        for k, rec in ph.items():
            rec.commit(self)
        bad = names | {r.name for r in ph.values() if getattr(r, "name", None)}
        for k, rec in ph.items():
            cur = self.current(rec.key)
            if isinstance(cur, Poison):
                continue
            if free_consts(cur) & names:
                raise Unsupported("loop effect depends on a running value that was not determined")
            nm = getattr(rec, "name", None)
        rp = {id(rec): repr(self.current(rec.key)) for rec in ph.values()}
        for rec in ph.values():
            nm = getattr(rec, "name", None)
            if nm and any(nm in r for r in rp.values()):
                raise Unsupported("loop effect depends on the content of a list extended in the loop")
        if outer_acc is not None:
            for g, (w, acc) in nexts:
                for d, m, p in acc:
                    q = []
                    for x in p:
                        if free_consts(x) & {v.get_id()}:
                            w = self.wild(x, v)
                            if w is not None:
                                q.append(w)
                            break
                        q.append(x)
                    outer_acc.append((d, m if len(q) == len(p) else "w", tuple(q)))

    def split_next(self, res, ph):
        """the cases in which the body runs to its end, and per location its new value in each of them"""
        nexts = [(g, c) for g, kind, val, c in res if not (kind == "raise" or val[0] in ("break", "return"))]
        allvals = {}
        for k, rec in ph.items():
            vals = []
            for g, (w, acc) in nexts:
                gz = z3.And(*[c for c in g if not rec_trivial(c, ph)]) if g else z3.BoolVal(True)
                vals.append((gz, w[k][1] if k in w else None))
            allvals[k] = vals
        return nexts, allvals

    def running(self, ph, allvals, v):
        """running values of counters and list lengths, as functions of the loop variable"""
        eng = self.eng
        pend, todo = [], {k: r for k, r in ph.items() if r.const() is not None}
        names = {r.const().get_id() for r in todo.values()}
        progress = True
        while todo and progress:
            progress = False
            for k, rec in list(todo.items()):
                vals = [(zsub(g, pend), subst(x, pend) if x is not None else None) for g, x in allvals[k]]
                try:
                    inc = rec.increment(self, v, vals)
                except Unsupported:
                    inc = None
                if inc is None or (zconsts(inc) & names) - {c.get_id() for c, _ in pend}:
                    continue
                del todo[k]
                progress = True
                rec.inc = inc
                if self.dom.keys is None:
                    u = fresh_int()
                    at = z3.simplify(rec.start(self) + eng.sum_over(u, Dom(n=v), z3.substitute(inc, (v, u))))
                    pend.append((rec.const(), at))
        return pend, names

    def exits_carry(self, exits, carried):
        return all(isinstance(r, AccInt) for r in carried)

    def early_exit(self, exits, nexts, v, ph, at=None):
        from .interp import BreakSig, ReturnSig
        eng = self.eng
        if self.dom.keys is not None and any(k != "raise" for _, k, _ in exits):
            raise Unsupported("early exit from a loop over a key set")
        for g, kind, val in exits:
            gz = z3.And(*g) if g else z3.BoolVal(True)
            u = self.dom.fresh()
            ex = z3.Exists([u], z3.And(self.dom.constraint(u), z3.substitute(gz, (v, u))))
            w = self.dom.fresh()
            inst = z3.And(self.dom.constraint(w), z3.substitute(gz, (v, w)))
            flag = z3.Bool(fresh_name("exit"))
            eng.fact(flag == ex)
            if not z3.is_true(gz) and self.only_if_never(gz, v):
                eng.pc.append(z3.Not(flag))
                continue
            if eng.branch(flag):
                eng.pc.append(inst)
                if kind == "raise":
                    raise val
                # first such index
                u2 = self.dom.fresh()
                for g2, _, _ in exits:
                    gz2 = z3.And(*g2) if g2 else z3.BoolVal(True)
                    eng.pc.append(z3.ForAll([u2], z3.Implies(z3.And(u2 >= 0, u2 < w), z3.Not(z3.substitute(gz2, (v, u2))))))
                if any(not isinstance(r, Overwrite) and id(r) not in (at or {}) for r in ph.values()):
                    raise Unsupported("early exit from a loop with accumulated effects")
                # counters hold the sum over the earlier iterations
                for r in ph.values():
                    if id(r) in (at or {}):
                        a = at[id(r)]
                        # restate as a sum up to w, so that the unfolding of the sum is known there
                        self.setcur(r.key, SInt(z3.simplify(r.start(self) + eng.sum_over(u4 := fresh_int(), Dom(n=w), z3.substitute(r.inc, (v, u4))))))
                if val[0] == "return":
                    raise ReturnSig(subst(val[1], [(v, w)]))
                # re-run the iteration at w to obtain its effects
                try:
                    self.gen(w)
                except BreakSig:
                    raise
                raise Unsupported("break did not reoccur")
            u3 = self.dom.fresh()
            eng.pc.append(z3.ForAll([u3], z3.Implies(self.dom.constraint(u3), z3.Not(z3.substitute(gz, (v, u3))))))

    def only_if_never(self, gz, v):
        return not self.eng.feasible(z3.And(self.dom.constraint(v), gz))


class Rec:
    def __init__(self, key):
        self.key = key
        self.new = None
    def install(self, S, v): pass
    def const(self): return None
    def commit(self, S):
        if self.new is not None:
            S.setcur(self.key, self.new)


class Overwrite(Rec):
    """written before read in every iteration; undetermined afterwards"""
    def install(self, S, v):
        from .interp import Poison
        S.setcur(self.key, Poison(f"loop-carried value of {self.key[-1]!r}"))
    def finish(self, S, v, vals, ph):
        from .interp import Poison, MISSING
        old = S.current(self.key)
        self.new = Poison(f"value of {self.key[-1]!r} after a symbolic loop")
        if S.dom.keys is None and len(vals) == 1 and vals[0][1] is not None:
            # value of the last iteration when the loop provably runs
            if S.eng.entails(S.dom.n >= 1):
                last = vals[0][1]
                self.new = subst(last, [(v, z3.simplify(S.dom.n - 1))])
        elif S.dom.keys is None and len(vals) > 1 and all(x is not None and not isinstance(x, Poison) for _, x in vals) and v.sort() == z3.IntSort():
            if S.eng.entails(S.dom.n >= 1):
                last = [(v, z3.simplify(S.dom.n - 1))]
                self.new = Choice([(zsub(g, last), subst(x, last)) for g, x in vals])


class AccInt(Rec):
    def install(self, S, v):
        if not hasattr(self, "c"):
            self.c = fresh_int("acc")
        S.setcur(self.key, SInt(self.c))
    def const(self):
        return self.c
    def start(self, S):
        return zi(S.current(self.key))
    def increment(self, S, v, vals):
        incs = []
        for g, val in vals:
            if val is None:
                incs.append((g, z3.IntVal(0)))
                continue
            if not isinstance(deref(val), (int, SInt)):
                raise Unsupported("loop-carried variable changes type")
            d = z3.simplify(zi(val) - self.c)
            if self.c.get_id() in zconsts(d):
                raise Unsupported(f"loop-carried integer {self.key[-1]}")
            incs.append((g, d))
        if all(d.eq(incs[0][1]) for _, d in incs):
            return incs[0][1]
        if any(self.c.get_id() in zconsts(g) for g, _ in incs):
            # the remaining conditions must tell the cases apart by themselves
            incs = [(z3.And(*[x for x in conjuncts(g) if self.c.get_id() not in zconsts(x)]), d) for g, d in incs]
            for (g, _), (h, _) in itertools.combinations(incs, 2):
                if S.eng.feasible(z3.And(g, h)):
                    raise Unsupported(f"loop-carried integer {self.key[-1]}")
        e = incs[-1][1]
        for g, d in reversed(incs[:-1]):
            e = z3.If(g, d, e)
        return z3.simplify(e)
    def finish(self, S, v, vals, ph):
        from .interp import Poison
        eng = S.eng
        inc = getattr(self, "inc", None)
        if inc is None:
            # value not carried: it is overwritten in every iteration
            if any(x is None or self.c.get_id() in free_consts(x) for _, x in vals):
                raise Unsupported(f"loop-carried integer {self.key[-1]}")
            ow = Overwrite(self.key)
            ow.finish(S, v, vals, ph)
            self.new = ow.new
            return
        u = S.dom.fresh()
        self.new = SInt(z3.simplify(self.start(S) + eng.sum_over(u, S.dom, z3.substitute(inc, (v, u)))))


def rec_trivial(c, ph):
    """harmless conjunct len >= 0 of a placeholder"""
    c = z3.simplify(c)
    for r in ph.values():
        lam = getattr(r, "lam", None)
        if lam is not None and c.eq(z3.simplify(lam >= 0)):
            return True
    return False


def split_rho(eng, s, name):
    """s == [Rho name] ++ S: return S, else None"""
    s = eng.norm(s)
    if s.pieces and isinstance(s.pieces[0], Rho) and s.pieces[0].name == name:
        return Seq(s.pieces[1:])
    if len(s.pieces) >= 1 and isinstance(s.pieces[0], Alt):
        cs = []
        for g, x in s.pieces[0].cases:
            r = split_rho(eng, x, name)
            if r is None:
                return None
            cs.append((g, r))
        return Seq([Alt(cs)] + list(s.pieces[1:]))
    return None


def mentions(v, name):
    return ("rho:" + name) in repr(v)


class AccList(Rec):
    """list extended by an amount that does not depend on its previous content"""
    def install(self, S, v):
        if not hasattr(self, "lam"):
            self.name = fresh_name("rho")
            self.lam = fresh_int("len")
        S.eng.pc.append(self.lam >= 0)
        kind = self.key[1].seq.kind
        S.setcur(self.key, Seq([Rho(self.name, (), self.lam)], kind))
    def const(self):
        return self.lam
    def oldseq(self, S):
        return S.current(self.key)
    def start(self, S):
        return S.eng.seq_len(self.oldseq(S))
    def increment(self, S, v, vals):
        T = self.parts_of(S, vals)
        base = len(S.eng.pc)
        S.eng.pc.append(S.dom.constraint(v))
        try:
            l = z3.simplify(S.eng.seq_len(T))
        finally:
            del S.eng.pc[base:]
        if self.lam.get_id() in zconsts(l):
            raise Unsupported("amount of extension depends on the length")
        return l
    def parts_of(self, S, vals):
        cs = []
        for g, val in vals:
            if val is None:
                cs.append((g, Seq()))
                continue
            t = split_rho(S.eng, val, self.name)
            if t is None or mentions(t, self.name):
                raise Unsupported(f"list is not only extended in the loop: {val}"[:700])
            cs.append((g, t))
        return cs[0][1] if len(cs) == 1 else Seq([Alt(cs)])
    def close(self, S, v, T, oldseq, lam):
        eng = S.eng
        l = None
        if lam.get_id() in free_consts(T) or any(self.lam_in(T, lam) for _ in (0,)):
            base = len(eng.pc)
            eng.pc.append(S.dom.constraint(v))
            l = eng.seq_len(T)
            del eng.pc[base:]
            if term_in(lam, l):
                raise Unsupported("amount of extension depends on the length")
            if S.dom.keys is not None:
                raise Unsupported("running length over a key set")
            u = fresh_int()
            at_v = z3.simplify(eng.seq_len(oldseq) + eng.sum_over(u, Dom(n=v), z3.substitute(l, (v, u))))
            T = subst(T, [(lam, at_v)])
        u = S.dom.fresh()
        return Seq(list(oldseq.pieces) + list(eng.norm(Seq([Flat(u, S.dom, subst(T, [(v, u)]))])).pieces), oldseq.kind)
    def lam_in(self, T, lam):
        return term_in_value(lam, T)
    def finish(self, S, v, vals, ph):
        T = self.parts_of(S, vals)
        self.new = self.close(S, v, T, self.oldseq(S), self.lam)


def term_in(t, e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(t):
            return True
        st.extend(x.children())
    return False


def term_in_value(t, v):
    """does the z3 term t occur in value v"""
    marker = fresh_int("mark") if t.sort() == z3.IntSort() else z3.Const(fresh_name("mark"), t.sort())
    w = subst(v, [(t, marker)])
    return marker.get_id() in free_consts(w)


class AccSeq(AccList):
    """variable holding an immutable sequence, rebound to an extension of itself"""
    def install(self, S, v):
        if not hasattr(self, "lam"):
            self.name = fresh_name("rho")
            self.lam = fresh_int("len")
        S.eng.pc.append(self.lam >= 0)
        S.setcur(self.key, Seq([Rho(self.name, (), self.lam)], "tuple"))
    def oldseq(self, S):
        return as_seq(S.current(self.key))
    def parts_of(self, S, vals):
        return AccList.parts_of(self, S, [(g, as_seq(x) if x is not None else None) for g, x in vals])
    def finish(self, S, v, vals, ph):
        try:
            T = self.parts_of(S, vals)
            self.new = self.close(S, v, T, self.oldseq(S), self.lam)
        except Unsupported:
            if any(x is None or mentions(x, self.name) for _, x in vals):
                raise
            ow = Overwrite(self.key)
            ow.finish(S, v, vals, ph)
            self.new = ow.new


class AccPath(AccList):
    """list at a fixed path inside a dict, extended in the loop"""
    def __init__(self, key, path):
        self.key, self.path = key, path
        self.new = None
    def ref(self, S):
        return LRef(S.it, self.key[1], self.path)
    def install(self, S, v):
        if not hasattr(self, "lam"):
            self.name = fresh_name("rho")
            self.lam = fresh_int("len")
        S.eng.pc.append(self.lam >= 0)
        S.setcur(self.key, S.it.path_put(self.key[1].items, self.path, PList(S.eng, Seq([Rho(self.name, (), self.lam)], "list"))))
    def oldseq(self, S):
        return self.ref(S).value().seq
    def parts_of(self, S, vals):
        out = []
        for g, items in vals:
            if items is None:
                out.append((g, None))
                continue
            x = LRef(S.it, PDict(S.eng, items), self.path).value()
            if not isinstance(x, PList):
                raise Unsupported("value at a fixed path changes kind")
            out.append((g, x.seq))
        return AccList.parts_of(self, S, out)
    def finish(self, S, v, vals, ph):
        T = self.parts_of(S, vals)
        new = self.close(S, v, T, self.oldseq(S), self.lam)
        self.new = S.it.path_put(self.key[1].items, self.path, PList(S.eng, new))


class AccDict(AccList):
    """dict of lists, each extended by an amount that does not depend on its previous content"""
    def install(self, S, v):
        if not hasattr(self, "lf"):
            self.name = fresh_name("rho")
            self.lf = {}
        self.old = S.current(self.key)
        self.ph = self.holder(S, self.old, ())
        S.setcur(self.key, self.ph)
    def const(self):
        return None
    def holder(self, S, items, path):
        out = []
        for p in S.eng.norm(items).pieces:
            if isinstance(p, Elem):
                out.append(Elem((p.v[0], self.hold_val(S, p.v[1], path + (p.v[0],)))))
            elif isinstance(p, Flat):
                q = self.holder_body(S, p.body, path)
                out.append(Flat(p.var, p.dom, q))
            else:
                raise Unsupported("loop-carried dict")
        return Seq(out)
    def holder_body(self, S, body, path):
        return self.holder(S, body, path)
    def hold_val(self, S, v, path):
        if isinstance(v, PDict) and S.eng.serial_of(v) == 0:
            return PDict(S.eng, self.holder(S, v.items, path), v.default)
        if isinstance(v, PList) and S.eng.serial_of(v) == 0:
            us = [S.eng.to_u(k) if not isinstance(deref(k), SInt) else deref(k).e for k in path]
            f = z3.Function(self.name + "_len%d" % len(us), *[u.sort() for u in us], z3.IntSort())
            lam = f(*us)
            S.eng.pc.append(z3.BoolVal(True))
            S.eng.fact(lam >= 0)
            return PList(S.eng, Seq([Rho(self.name, us, lam)]))
        return v
    def finish(self, S, v, vals, ph):
        if len(vals) != 1:
            # distinct paths: combine
            g0, f0 = vals[0]
        self.vals = vals
        self.v = v
        cases = [(g, x if x is not None else self.ph) for g, x in vals]
        self.new = self.comb(S, v, self.old, self.ph, cases)
    def comb(self, S, v, old, ph, cases):
        eng = S.eng
        old, ph = eng.norm(old), eng.norm(ph)
        cs = [(g, eng.norm(x)) for g, x in cases]
        if any(len(x.pieces) != len(ph.pieces) for _, x in cs):
            raise Unsupported("set of keys changes in the loop")
        out = []
        for i, (po, pp) in enumerate(zip(old.pieces, ph.pieces)):
            pf = [(g, x.pieces[i]) for g, x in cs]
            if isinstance(pp, Elem):
                if not all(isinstance(f, Elem) for _, f in pf):
                    raise Unsupported("dict structure changes")
                out.append(Elem((po.v[0], self.comb_val(S, v, po.v[1], pp.v[1], [(g, f.v[1]) for g, f in pf]))))
            elif isinstance(pp, Flat):
                fs = []
                for g, f in pf:
                    if not isinstance(f, Flat) or not eng.dom_eq(f.dom, pp.dom):
                        raise Unsupported("dict structure changes")
                    fs.append((g, subst(f.body, [(f.var, pp.var)])))
                base = len(eng.pc)
                eng.pc.append(pp.dom.constraint(pp.var))
                ob = subst(po.body, [(po.var, pp.var)])
                b = self.comb(S, v, ob, pp.body, fs)
                del eng.pc[base:]
                out.append(Flat(pp.var, pp.dom, b))
            else:
                raise Unsupported("dict structure")
        return Seq(out)
    def comb_val(self, S, v, old, ph, cases):
        eng = S.eng
        ex = []
        for g, x in cases:
            st = [(g, x)]
            while st:
                h, y = st.pop(0)
                if isinstance(y, Choice):
                    st = [(z3.And(h, hh), yy) for hh, yy in y.cases] + st
                else:
                    ex.append((h, y))
        cases = ex
        if isinstance(ph, PDict):
            if not all(isinstance(x, PDict) for _, x in cases):
                raise Unsupported("dict value changes kind")
            return PDict(eng, self.comb(S, v, old.items, ph.items, [(g, x.items) for g, x in cases]), ph.default)
        if isinstance(ph, PList) and ph.seq.pieces and isinstance(ph.seq.pieces[0], Rho) and ph.seq.pieces[0].name == self.name:
            rho = ph.seq.pieces[0]
            T = self.parts_of(S, [(g, x.seq if isinstance(x, PList) else _u()) for g, x in cases])
            return PList(eng, self.close(S, v, T, old.seq, rho.len))
        for g, x in cases:
            if x is not ph and repr(x) != repr(ph):
                raise Unsupported("dict value rewritten in the loop")
        return old


def _u():
    raise Unsupported("list replaced in the loop")


class Footprint(Rec):
    """dict touched only at the key determined by the loop variable"""
    def __init__(self, key, comp, v):
        self.key = key
        self.v0 = v
        self.depth, self.prefix, self.k = comp
    def finish(self, S, v, vals, ph):
        eng, it = S.eng, S.it
        D = self.key[1]
        c = S.component(S.final_acc, D, v)
        if c is None:
            raise Unsupported("loop footprint is not confined to the loop key")
        self.depth, self.prefix, self.k = c
        self.v0 = v
        cont = PDict(eng, D.items, D.default)
        for x in self.prefix:
            cont = eng.lookup(eng.norm(cont.items), x)
            if not isinstance(cont, PDict):
                raise Unsupported("container of loop footprint")
        kk = None
        newvals = []
        for g, items in vals:
            base = len(eng.pc)
            eng.pc.append(S.dom.constraint(v))
            eng.pc.append(g)
            try:
                if items is None:
                    items = D.items
                c = PDict(eng, items)
                for x in self.prefix:
                    c = eng.lookup(eng.norm(c.items), x)
                key = subst(self.k, [(self.kvar(), v)]) if self.kvar() is not None else self.k
                val = eng.lookup(eng.norm(c.items), key)
                if val is None:
                    ct = it.dict_contains(c, key)
                    if ct is False or (isinstance(ct, SBool) and eng.entails(z3.Not(ct.e))):
                        val = None
                    else:
                        raise Unsupported("value at loop key undetermined")
            finally:
                del eng.pc[base:]
            newvals.append((g, val))
            kk = key
        eng.pc.append(S.dom.constraint(v))
        try:
            present = it.dict_contains(cont, kk)
            pres = present is True or (isinstance(present, SBool) and eng.entails(present.e))
            absent = present is False or (isinstance(present, SBool) and eng.entails(z3.Not(present.e)))
        finally:
            eng.pc.pop()
        ins = [(g, x) for g, x in newvals]
        if absent:
            body = Seq([Alt([(g, Seq([Elem((kk, x))]) if x is not None else Seq()) for g, x in ins])]) if len(ins) > 1 else \
                (Seq([Elem((kk, ins[0][1]))]) if ins[0][1] is not None else Seq())
            u = S.dom.fresh()
            new = Seq(list(eng.norm(cont.items).pieces) + list(eng.norm(Seq([Flat(u, S.dom, subst(body, [(v, u)]))])).pieces))
        elif pres:
            if any(x is None for _, x in ins):
                raise Unsupported("loop deletes keys")
            merged = eng.merge([(g, x) for g, x in ins])
            new = self.update(S, cont, kk, v, merged)
        else:
            raise Unsupported("presence of loop key undetermined")
        if self.prefix:
            self.new = it.path_put(D.items, self.prefix, PDict(eng, new, cont.default))
        else:
            self.new = new
    def kvar(self):
        return getattr(self, "v0", None)
    def install(self, S, v):
        # key expression follows the fresh loop variable of this attempt
        pass
    def update(self, S, cont, kk, v, merged):
        eng = S.eng
        out = []
        hit = False
        for p in eng.norm(cont.items).pieces:
            if isinstance(p, Flat) and len(p.body.pieces) == 1 and isinstance(p.body.pieces[0], Elem):
                k0, ov = p.body.pieces[0].v
                # solve kk(v) == k0(p.var) for v
                m = eng.match_key(v, kk, k0)
                if m is not None and m is not False and m[1] is not None:
                    t = m[1]
                    nv = subst(merged, [(v, t)])
                    eng.pc.append(p.dom.constraint(p.var))
                    cond = z3.And(S.dom.constraint(t), *[z3.substitute(q, (v, t)) for q in m[0]])
                    full = eng.entails(cond)
                    eng.pc.pop()
                    val = nv if full else eng.merge([(cond, nv), (z3.Not(cond), ov)])
                    out.append(Flat(p.var, p.dom, Seq([Elem((k0, val))])))
                    hit = True
                    continue
                if m is False:
                    out.append(p)
                    continue
            elif isinstance(p, Elem):
                m = eng.match_key(v, kk, p.v[0])
                if m is False:
                    out.append(p)
                    continue
                if m is not None and m[1] is not None:
                    cond = S.dom.constraint(m[1])
                    cond = z3.And(cond, *[z3.substitute(q, (v, m[1])) for q in m[0]])
                    nv = subst(merged, [(v, m[1])])
                    out.append(Elem((p.v[0], eng.merge([(cond, nv), (z3.Not(cond), p.v[1])]))))
                    hit = True
                    continue
            raise Unsupported("footprint update")
        if not hit:
            raise Unsupported("footprint update: no family")
        return Seq(out)


class FootAdd(Rec):
    """keys added to a dict; keys of different iterations differ in a component that determines the loop variable"""
    def __init__(self, key):
        self.key = key
        self.new = None
    def finish(self, S, v, vals, ph):
        eng = S.eng
        D = self.key[1]
        if not S.addfoot(S.final_acc, D, v):
            raise Unsupported("keys added in the loop are not determined by the loop variable")
        old = list(eng.norm(D.items).pieces)
        n = len(old)
        cs = []
        for g, items in vals:
            new = list(eng.norm(items if items is not None else D.items).pieces)
            if [repr(x) for x in new[:n]] != [repr(x) for x in old]:
                raise Unsupported("existing keys of a dict change in the loop")
            cs.append((g, Seq(new[n:])))
        body = cs[0][1] if len(cs) == 1 else Seq([Alt(cs)])
        u = S.dom.fresh()
        self.new = Seq(old + list(eng.norm(Seq([Flat(u, S.dom, subst(body, [(v, u)]))])).pieces))


class ArrayFoot(Rec):
    """list cells assigned at an injective linear index"""
    def __init__(self, key, idx, v):
        self.key, self.idx, self.v0 = key, idx, v
    def finish(self, S, v, vals, ph):
        eng, it = S.eng, S.it
        acc = [p for d, m, p in S.final_acc if d is self.key[1]]
        if not (acc and all(len(p) == 1 and S.pins(p[0], v) for p in acc) and all(S.same_key(acc[0][0], p[0]) for p in acc)):
            raise Unsupported("array footprint is not confined to the loop index")
        self.idx = acc[0][0]
        old = eng.norm(self.key[1].seq)
        if len(old.pieces) != 1 or not isinstance(old.pieces[0], Flat) or old.pieces[0].dom.keys is not None \
                or len(old.pieces[0].body.pieces) != 1 or not isinstance(old.pieces[0].body.pieces[0], Elem):
            raise Unsupported("array update of a non-uniform list")
        p = old.pieces[0]
        q = fresh_int()
        idx = zi(self.idx)
        ins = []
        for g, s in vals:
            base = len(eng.pc)
            eng.pc.append(S.dom.constraint(v))
            eng.pc.append(g)
            try:
                cell = it.seq_get(eng.norm(s if s is not None else self.key[1].seq), SInt(idx))
            finally:
                del eng.pc[base:]
            ins.append((g, cell))
        cell = eng.merge(ins)
        t = solve_for(v, idx == q)
        if t is None:
            raise Unsupported("array index")
        cond = z3.simplify(z3.And(S.dom.constraint(t), z3.substitute(idx, (v, t)) == q))
        nv = eng.merge([(cond, subst(cell, [(v, t)])), (z3.Not(cond), subst(p.body.pieces[0].v, [(p.var, q)]))])
        self.new = Seq([Flat(q, p.dom, Seq([Elem(nv)]))], "list")
