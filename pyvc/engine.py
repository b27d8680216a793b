"""Path exploration, solver interface, heap journal, normal forms and equality of symbolic values."""
import os
import subprocess
import time
import tempfile
import z3
from .values import *
from .values import zconsts, zconst_terms, subst_dom, zsub

z3.set_param("smt.random_seed", 1)


class Infeasible(Exception):
    pass


class Choice(Substitutable):
    """value depending on mutually exclusive guards; resolved by case split when inspected"""
    def __init__(self, cases):
        self.cases = tuple(cases)
    def subst(self, f):
        return Choice([(f(g), f(v)) for g, v in self.cases])
    def parts(self):
        return [x for c in self.cases for x in c]
    __hash__ = object.__hash__
    def __eq__(self, o):
        if self is o:
            return True
        raise NotConcrete("native comparison of a case split")
    def __repr__(self):
        return "Choice" + repr(self.cases)


class Obligation:
    def __init__(self, name, status, backend, t, detail=""):
        self.name, self.status, self.backend, self.t, self.detail = name, status, backend, t, detail


def horner_digits(t, ds):
    """candidate digits c with t = (..(c0*d1 + c1)*d2 + ..) + c_last (checked by the caller)"""
    def monos(t):
        t = z3.simplify(t, som=True)
        return list(t.children()) if z3.is_add(t) else [t]
    def factors(m):
        return [f for c in m.children() for f in factors(c)] if z3.is_mul(m) else [m]
    out = []
    for d in reversed(ds[1:]):
        d = z3.simplify(d)
        rest, quo = [], []
        for m in monos(t):
            fs = factors(m)
            hit = next((i for i, f in enumerate(fs) if f.eq(d)), None)
            if hit is None and z3.is_int_value(d) and z3.is_int_value(fs[0]) and d.as_long() > 1 and fs[0].as_long() % d.as_long() == 0:
                fs = [z3.IntVal(fs[0].as_long() // d.as_long())] + fs[1:]
                quo.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            elif hit is None:
                rest.append(m)
            else:
                fs = fs[:hit] + fs[hit + 1:]
                quo.append(z3.Product(*fs) if len(fs) > 1 else (fs[0] if fs else z3.IntVal(1)))
        out.append(z3.simplify(z3.Sum(*rest)) if rest else z3.IntVal(0))
        t = z3.simplify(z3.Sum(*quo)) if quo else z3.IntVal(0)
    return [t] + out[::-1]


class Enough(BaseException):
    """the contract has failed: further obligations would not change the verdict"""


class Engine:
    def __init__(self, timeout_ms=4000, both=False):
        self.pc = []
        self.facts = []            # global axioms (quantified with patterns, or ground)
        self.decisions, self.dpos, self.stack = [], 0, None
        self.journal = None        # list of (key, undo) or None
        self.obligations = []
        self.timeout = timeout_ms
        self.both = both           # re-check every obligation with the second solver
        self.sums = {}
        self.sum_info = {}         # decl name -> (canonical var, args, body, has_range)
        self.solver_time = 0.0
        self.queries = 0
        self.assumptions = set()   # names of modelled library behaviour used
        self.cur = "?"
        self.serial = 0
        self.obj_serial = {}
        self.accesses = None
        self.binders = []          # generic variables of the enclosing summarised loops
        self._ucache = {}
        self._cache = {}

    # ------------------------------------------------------------------ solver
    def _solve(self, assertions, timeout=None):
        self.queries += 1
        t0 = time.time()
        key = tuple(sorted({a.get_id() for a in assertions}))
        hit = self._cache.get(key)
        if hit is not None:
            return hit[0]
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        if any(z3.is_quantifier(a) for a in assertions):
            s.set("smt.mbqi", False)
            s.set("smt.auto_config", False)
        s.add(*assertions)
        r = s.check()
        dt = time.time() - t0
        self.solver_time += dt
        if r != z3.unknown:
            self._cache[key] = (r, list(assertions))
        self._last = s
        return r

    def entails(self, goal, timeout=None):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) and not self.pc:
            return False
        return self._solve(self.facts + self.pc + [z3.Not(goal)], timeout) == z3.unsat

    def feasible(self, cond, timeout=1500):
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return False
        return self._solve(self.facts + self.pc + [cond], timeout) != z3.unsat

    def cvc5(self, assertions, timeout=10):
        s = z3.Solver()
        s.add(*assertions)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix=".smt2")
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        t0 = time.time()
        try:
            r = subprocess.run(["cvc5", f"--tlimit={timeout*1000}", "--nl-ext-tplanes", path],
                               capture_output=True, text=True, timeout=timeout + 5)
            out = r.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.solver_time += time.time() - t0
            os.unlink(path)

    # while a postcondition is checked; the contract is given up after a few failed obligations
    final = False
    final_failed = 0

    def prove(self, goal, name, detail=""):
        """Discharge one obligation: facts, pc |- goal."""
        t0 = time.time()
        goal = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        backend = "normal form" if z3.is_true(goal) else "z3"
        asserts = self.facts + self.pc + [z3.Not(goal)]
        ok = z3.is_true(goal)
        model = ""
        if not ok and (self.unravel_lemma([goal] + self.pc) | self.divmod_lemma(goal)):
            asserts = self.facts + self.pc + [z3.Not(goal)]
        if not ok:
            ab = self.abstract_nl(asserts)
            if ab is not None and self._solve(ab, 1500) == z3.unsat:
                ok, backend = True, "z3 (nonlinear terms uninterpreted)"
        if not ok:
            r = self._solve(asserts, self.timeout)
            ok = r == z3.unsat
            if not ok and self.try_sum_ext(goal):
                asserts = self.facts + self.pc + [z3.Not(goal)]
                r = self._solve(asserts, self.timeout)
                ok = r == z3.unsat
                backend = "z3+sum-extensionality"
            if not ok and self.try_sum_mono(goal):
                asserts = self.facts + self.pc + [z3.Not(goal)]
                r = self._solve(asserts, self.timeout)
                ok = r == z3.unsat
                backend = "z3+sum-monotonicity"
            if not ok:
                if r == z3.sat:
                    try:
                        model = str(self._last.model())[:600]
                    except Exception:
                        model = ""
                if self.cvc5(asserts) == "unsat":
                    ok, backend = True, "cvc5"
                elif r != z3.sat:
                    # a loaded machine must not turn a slow proof into an alarm: a few patient attempts per contract
                    self.retries = self.__dict__.get("retries", 0) + 1
                    if self.retries <= 3:
                        for extra in (25000, 40000):
                            r = self._solve(asserts, extra)
                            if r != z3.unknown:
                                break
                        ok = r == z3.unsat
                    if not ok:
                        model = "solver: " + str(r)
            elif self.both and self.cvc5(asserts) == "unsat":
                backend += "+cvc5"
        st = "discharged" if ok else "failed"
        d = "" if ok else f"{detail}; goal: {str(goal)[:800]}; counter-model: {model}"
        self.obligations.append(Obligation(f"{self.cur}: {name}", st, backend, time.time() - t0, d))
        if not ok and self.final:
            self.final_failed += 1
            if self.final_failed >= 3:
                raise Enough()
        return ok

    def abstract_nl(self, asserts):
        """the assertions with every nonlinear product, quotient and remainder replaced by an uninterpreted term (weaker, so sound to
        refute); None when there is none"""
        memo, keep, found = {}, [], [False]
        def go(t):
            i = t.get_id()
            if i in memo:
                return memo[i]
            keep.append(t)
            if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
                memo[i] = t
                return t
            cs = [go(c) for c in t.children()]
            k = t.decl().kind()
            r = None
            if k == z3.Z3_OP_MUL and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in cs) > 1:
                num = [c for c in cs if z3.is_int_value(c) or z3.is_rational_value(c)]
                xs = sorted((c for c in cs if not (z3.is_int_value(c) or z3.is_rational_value(c))), key=lambda c: c.get_id())
                f = z3.Function(f"nlmul{len(xs)}_{t.sort()}", *[t.sort()] * (len(xs) + 1))
                r = f(*xs)
                for c in num:
                    r = c * r
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(cs[1]) or z3.is_rational_value(cs[1])):
                r = z3.Function({z3.Z3_OP_IDIV: "nlidiv", z3.Z3_OP_MOD: "nlmod", z3.Z3_OP_DIV: "nldiv"}[k], *[t.sort()] * 3)(*cs)
            if r is not None:
                found[0] = True
            else:
                r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else t.decl()(*cs)
            keep.append(r)
            memo[i] = r
            return r
        out = [go(a) for a in asserts]
        return out if found[0] else None

    def unravel_lemma(self, terms):
        """instances of: components within bounds are recovered from their C-order flat index (uniqueness of mixed-radix digits),
        at the terms unravelN_j(t, dims) whose t is syntactically a Horner polynomial in dims"""
        seen, done, added = set(), self.__dict__.setdefault("_unravelled", {}), False
        todo = list(terms)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            todo.extend(t.children())
            if not (z3.is_app(t) and t.decl().name().startswith("unravel") and "_" in t.decl().name() and t.decl().name() != "unravel_u"):
                continue
            n = int(t.decl().name()[7:].split("_")[0])
            if n < 2 or t.num_args() != n + 1:
                continue
            flat, ds = t.arg(0), [t.arg(i + 1) for i in range(n)]
            key = (flat.get_id(), tuple(d.get_id() for d in ds))
            if key in done:
                continue
            done[key] = (flat, ds)
            comps = horner_digits(flat, ds)
            if comps is None:
                continue
            r = z3.IntVal(0)
            for c, d in zip(comps, ds):
                r = r * d + c
            if not z3.is_true(z3.simplify(z3.simplify(r, som=True) == z3.simplify(flat, som=True))):
                continue
            u = [z3.Function(f"unravel{n}_{j}", *[z3.IntSort()] * (n + 1), z3.IntSort())(flat, *ds) for j in range(n)]
            self.fact(z3.Implies(z3.And(*[z3.And(c >= 0, c < d) for c, d in zip(comps, ds)]), z3.And(*[x == c for x, c in zip(u, comps)])))
            added = True
        return added

    def divmod_lemma(self, goal):
        """instances of: t = c0*(d1*..*dk) + Horner(c1..ck; d) with every ci within [0, di) has quotient c0 and that remainder by
        d1*..*dk, at the div and mod terms whose numerator is syntactically such a polynomial (or is itself such a remainder)"""
        import itertools
        done = self.__dict__.setdefault("_divmods", {})
        seen, order = set(), []
        def walk(t):
            if t.get_id() in seen or z3.is_quantifier(t):
                return
            seen.add(t.get_id())
            for c in t.children():
                walk(c)
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                order.append(t)
        walk(goal)
        def factors(m):
            return [f for c in m.children() for f in factors(c)] if z3.is_mul(m) else [m]
        added, alias = False, {}
        for t in order:
            num, D = t.arg(0), t.arg(1)
            if z3.is_int_value(D) and z3.is_int_value(num):
                continue
            fs = factors(z3.simplify(D))
            if len(fs) > 4:
                continue
            for cand in [num] + alias.get(num.get_id(), []):
                for ds in (itertools.permutations(fs) if len(fs) <= 3 else [fs]):
                    key = (num.get_id(), D.get_id(), cand.get_id(), tuple(d.get_id() for d in ds))
                    if key in done:
                        if done[key][1] is not None:
                            alias.setdefault(t.get_id(), []).append(done[key][1][t.decl().kind() == z3.Z3_OP_MOD])
                        continue
                    done[key] = ((num, D, cand, ds), None)
                    cs = horner_digits(cand, [D] + list(ds))
                    r, rest = z3.IntVal(0), z3.IntVal(0)
                    for c, d in zip(cs, [z3.IntVal(1)] + list(ds)):
                        r = r * d + c
                    for c, d in zip(cs[1:], ds):
                        rest = rest * d + c
                    rest = z3.simplify(rest)
                    if not z3.is_true(z3.simplify(z3.simplify(r, som=True) == z3.simplify(cand, som=True))):
                        continue
                    # (an integer-sorted quotient and remainder with 0 <= rest < D are unique; 0 <= rest < D follows digit by digit)
                    self.fact(z3.Implies(z3.And(num == cand, *[z3.And(c >= 0, c < d) for c, d in zip(cs[1:], ds)]),
                                         z3.And(num / D == cs[0], num % D == rest)))
                    added = True
                    done[key] = (done[key][0], (cs[0], rest))
                    if t.decl().kind() == z3.Z3_OP_MOD:
                        alias.setdefault(t.get_id(), []).append(rest)
                    else:
                        alias.setdefault(t.get_id(), []).append(cs[0])
        return added

    def fail(self, name, detail):
        self.obligations.append(Obligation(f"{self.cur}: {name}", "failed", "-", 0.0, detail))
        return False

    def ok(self, name, backend="normal form"):
        self.obligations.append(Obligation(f"{self.cur}: {name}", "discharged", backend, 0.0))
        return True

    def fact(self, f):
        self.facts.append(f)

    def assume(self, cond):
        self.pc.append(cond)

    # ------------------------------------------------------------------ paths
    def branch(self, cond):
        """decide a symbolic condition, forking the current exploration"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.stack is None:
            raise Unsupported("branch outside exploration")
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
            self.dpos += 1
            self.pc.append(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.stack.append(self.decisions[:self.dpos] + [False])
            self.decisions = self.decisions[:self.dpos] + [True]
            self.dpos += 1
            self.pc.append(cond)
            return True
        # forced: record so that replays stay aligned
        self.decisions = self.decisions[:self.dpos] + [t]
        self.dpos += 1
        self.pc.append(cond if t else z3.Not(cond))
        return t

    def record(self, key, undo):
        if self.journal is not None:
            self.journal.append((key, undo))

    def undo_to(self, mark):
        while len(self.journal) > mark:
            _, u = self.journal.pop()
            u()

    def explore(self, thunk, collect=None, maxpaths=400):
        """run thunk on every feasible path; undo heap effects after each.
        returns list of (guards, kind, value, collected)"""
        saved = (self.decisions, self.dpos, self.stack, self.journal)
        if self.journal is None:
            self.journal = []
        mark, base = len(self.journal), len(self.pc)
        results = []
        started = self.serial
        self.stack = [[]]
        try:
            while self.stack:
                if len(results) > maxpaths:
                    raise Unsupported("too many paths")
                self.decisions = self.stack.pop()
                self.dpos = 0
                try:
                    out = ("ok", thunk())
                except PyRaise as e:
                    out = ("raise", e)
                except Infeasible:
                    out = None
                if out is not None:
                    guards = list(self.pc[base:])
                    c = collect(self.journal[mark:]) if collect else None
                    keep, self.freeze_after = self.freeze_after, started
                    results.append((guards, out[0], self.freeze(out[1]), c))
                    self.freeze_after = keep
                self.undo_to(mark)
                del self.pc[base:]
        finally:
            if len(self.journal) > mark:
                self.undo_to(mark)
            del self.pc[base:]
            self.decisions, self.dpos, self.stack, self.journal = saved
        return results

    def freeze(self, v, memo=None):
        """snapshot of a value: heap objects are copied (into untracked templates)"""
        if isinstance(v, LRef):
            v = deref(v)
        if isinstance(v, PList):
            return PList(self, self.freeze(v.seq))
        if isinstance(v, PDict):
            return PDict(self, self.freeze(v.items), v.default)
        if isinstance(v, Seq):
            return Seq([self._freeze_piece(p) for p in v.pieces], v.kind)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, Choice):
            return Choice([(g, self.freeze(x)) for g, x in v.cases])
        if isinstance(v, PObj) and self.serial_of(v) > self.freeze_after:
            return PObj(self, v.cls, {k: self.freeze(x) for k, x in v.fields.items()}, v.name)
        return v

    freeze_after = 0

    def _freeze_piece(self, p):
        if isinstance(p, Elem):
            return Elem(self.freeze(p.v))
        if isinstance(p, Flat):
            return Flat(p.var, p.dom, self.freeze(p.body))
        if isinstance(p, Alt):
            return Alt([(g, self.freeze(s)) for g, s in p.cases])
        return p

    def with_pc(self, conds, thunk):
        base = len(self.pc)
        self.pc.extend(conds)
        try:
            return thunk()
        finally:
            del self.pc[base:]

    # ------------------------------------------------------------------ allocation
    def new_list(self, seq):
        self.serial += 1
        l = PList(self, seq)
        self.obj_serial[id(l)] = (self.serial, l)
        return l

    def new_dict(self, items=None, default=None):
        self.serial += 1
        d = PDict(self, items if items is not None else Seq(), default)
        self.obj_serial[id(d)] = (self.serial, d)
        return d

    def new_obj(self, cls, fields=None, name=None):
        self.serial += 1
        o = PObj(self, cls, fields, name)
        self.obj_serial[id(o)] = (self.serial, o)
        return o

    def serial_of(self, o):
        r = self.obj_serial.get(id(o))
        return r[0] if r is not None and r[1] is o else 0

    # ------------------------------------------------------------------ choices
    def force(self, v):
        """resolve Choice by case split"""
        while isinstance(v, Choice):
            n = len(v.cases)
            for i, (g, x) in enumerate(v.cases):
                if i == n - 1 or self.branch(g):
                    v = x
                    break
        if isinstance(v, LRef):
            return v
        return v

    def merge_deep(self, cases):
        """merge structurally similar values under guards; None if they are dissimilar"""
        v0 = cases[0][1]
        if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in cases) and isinstance(v0, tuple):
            out = []
            for i in range(len(v0)):
                m = self.merge_deep([(g, v[i]) for g, v in cases])
                if m is None:
                    return None
                out.append(m)
            return tuple(out)
        if all(isinstance(v, SCALARS) and type(v) is type(v0) and v.e.eq(v0.e) for _, v in cases) and isinstance(v0, SCALARS):
            return v0
        m = self.merge(cases)
        return None if isinstance(m, Choice) and not all(repr(v) == repr(v0) for _, v in cases) else \
            (v0 if isinstance(m, Choice) else m)

    def resolve(self, v):
        """Choice whose guard is decided by the path condition -> the chosen value"""
        while isinstance(v, Choice):
            for g, x in v.cases:
                if self.entails(g):
                    v = x
                    break
            else:
                cs = [(g, x) for g, x in v.cases if self.feasible(g)]
                if len(cs) == 1:
                    v = cs[0][1]
                    continue
                return v
        return v

    def merge(self, cases):
        """cases: list of (guard z3, value); mutually exclusive, jointly exhaustive"""
        cases = [(z3.simplify(g), v) for g, v in cases]
        cases = [(g, v) for g, v in cases if not z3.is_false(g)]
        if len(cases) == 1:
            return cases[0][1]
        v0 = cases[0][1]
        if all(v is v0 for _, v in cases):
            return v0
        if all(type(v) in (int, SInt, bool) and not isinstance(v, bool) for _, v in cases):
            e = zi(cases[-1][1])
            for g, v in reversed(cases[:-1]):
                e = z3.If(g, zi(v), e)
            return SInt(e)
        if all(isinstance(v, (bool, SBool)) for _, v in cases):
            e = zb(cases[-1][1])
            for g, v in reversed(cases[:-1]):
                e = z3.If(g, zb(v), e)
            return SBool(e)
        if all(isinstance(v, (PList,)) for _, v in cases):
            return PList(self, Seq([Alt([(g, v.seq) for g, v in cases])]))
        if all(isinstance(v, Seq) for _, v in cases):
            return Seq([Alt(cases)], v0.kind)
        try:
            if all(type(v) is type(v0) and v == v0 for _, v in cases):
                return v0
        except NotConcrete:
            pass
        return Choice(cases)

    # ------------------------------------------------------------------ U embedding of concrete keys
    def to_u(self, v):
        v = self.force(v)
        if isinstance(v, SU):
            return v.e
        if isinstance(v, SInt):
            f = z3.Function("u_of_int", z3.IntSort(), U)
            g = z3.Function("int_of_u", U, z3.IntSort())
            t = f(v.e)
            self.fact(g(t) == v.e)
            return t
        if isinstance(v, int):
            return self.to_u(SInt(v))
        if isinstance(v, tuple):
            es = [self.to_u(x) for x in v]
            f = z3.Function(f"u_tuple{len(es)}", *[U] * len(es), U)
            t = f(*es) if es else z3.Const("u_tuple0", U)
            for i, e in enumerate(es):
                self.fact(z3.Function(f"u_proj{len(es)}_{i}", U, U)(t) == e)
            return t
        if isinstance(v, Seq) and v.concrete:
            return self.to_u(tuple(v.items()))
        try:
            k = (type(v).__name__, v)
            if k not in self._ucache:
                c = z3.Const(f"uc_{len(self._ucache)}", U)
                for o in self._ucache.values():
                    self.fact(c != o)
                self._ucache[k] = c
            return self._ucache[k]
        except (TypeError, NotConcrete):
            raise Unsupported(f"key {v!r}")

    # ------------------------------------------------------------------ sums
    def sum_over(self, var, dom, body, kind="SUM"):
        """closed term for sum over var in dom of the z3 Int/Real body"""
        body = z3.simplify(body)
        if var.get_id() not in zconsts(body):
            if kind == "SUM":
                return z3.simplify(body * dom.size())
        if dom.keys is None and z3.is_int_value(z3.simplify(dom.n)) and z3.simplify(dom.n).as_long() <= 8:
            n = z3.simplify(dom.n).as_long()
            terms = [z3.substitute(body, (var, z3.IntVal(i))) for i in range(max(n, 0))]
            if kind == "SUM":
                return z3.simplify(z3.Sum(terms)) if terms else z3.IntVal(0)
            r = z3.IntVal(1)
            for t in terms:
                r = r * t
            return z3.simplify(r)
        # linear split: sum of (a+b)
        if kind == "SUM" and z3.is_add(body):
            r = None
            for c in body.children():
                t = self.sum_over(var, dom, c)
                r = t if r is None else r + t
            return z3.simplify(r)
        if kind == "SUM" and z3.is_mul(body):
            cs = body.children()
            out = [c for c in cs if var.get_id() not in zconsts(c)]
            inn = [c for c in cs if var.get_id() in zconsts(c)]
            if out:
                b = inn[0]
                for c in inn[1:]:
                    b = b * c
                r = self.sum_over(var, dom, b)
                for c in out:
                    r = c * r
                return r
        consts = [c for c in zconst_terms(body).values() if not c.eq(var)]
        consts.sort(key=lambda c: str(c))
        order, st, seen = [], [body], set()
        while st:                      # order of first occurrence
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if any(t.eq(c) for c in consts):
                order.append(t)
            st.extend(reversed(t.children()))
        canon = [(c, z3.Const(f"a{i}_{c.sort()}", c.sort())) for i, c in enumerate(order)]
        cv = z3.Const("bv_" + str(var.sort()), var.sort())
        cbody = z3.substitute(body, *canon, (var, cv))
        if dom.keys is None:
            domkey, domargs = "range", [dom.n]
        else:
            domkey, domargs = "keys:" + dom.keys.name, list(dom.keys.params)
        key = (kind, domkey, cbody.sexpr())
        if key not in self.sums:
            f = z3.Function(f"{kind}{len(self.sums)}", *[c.sort() for c in order], *[a.sort() for a in domargs], body.sort())
            self.sums[key] = f
            self.sum_info[f.name()] = (kind, cv, [b for _, b in canon], cbody, dom)
        f = self.sums[key]
        t = f(*order, *domargs)
        if dom.keys is None:
            unit = 0 if kind == "SUM" else 1
            n = dom.n
            self.fact(z3.Implies(n <= 0, t == unit))
            prev = f(*order, n - 1)
            last = z3.substitute(body, (var, n - 1))
            self.fact(z3.Implies(n >= 1, t == (prev + last if kind == "SUM" else prev * last)))
        return t

    def sum_apps(self, e):
        out, seen, st = [], set(), [e]
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() in self.sum_info:
                out.append(t)
            st.extend(t.children())
        return out

    def sum_body(self, t):
        kind, cv, canon, cbody, dom = self.sum_info[t.decl().name()]
        args = t.children()
        body = z3.substitute(cbody, *list(zip(canon, args[:len(canon)]))) if canon else cbody
        d = Dom(n=args[len(canon)]) if dom.keys is None else Dom(keys=KeySet(dom.keys.name, args[len(canon):], dom.keys.sort))
        return kind, cv, body, d

    def try_sum_ext(self, goal):
        apps = self.sum_apps(goal)
        done = False
        for i, a in enumerate(apps):
            for b in apps[i + 1:]:
                ka, va, ba, da = self.sum_body(a)
                kb, vb, bb, db = self.sum_body(b)
                if ka != kb or not va.sort().eq(vb.sort()) or not self.dom_eq(da, db):
                    continue
                v = da.fresh()
                ea, eb = z3.substitute(ba, (va, v)), z3.substitute(bb, (vb, v))
                if self._solve(self.facts + self.pc + [da.constraint(v), ea != eb]) == z3.unsat:
                    self.fact(z3.Implies(z3.And(*self.pc) if self.pc else z3.BoolVal(True), a == b))
                    done = True
        return done

    def try_sum_mono(self, goal):
        """induction schemas: sums of non-negative terms are non-negative and monotone in the range; products of
        terms >= 1 are >= 1 and monotone"""
        apps = [t for t in self.sum_apps(goal) + [x for a in self.pc for x in self.sum_apps(a)]]
        seen, uniq = set(), []
        for t in apps:
            if t.get_id() not in seen:
                seen.add(t.get_id())
                uniq.append(t)
        done = False
        # the signs are established under the current path condition
        guard = lambda f: z3.Implies(z3.And(*self.pc), f) if self.pc else f
        good = []
        stack = list(uniq)
        while stack:
            t = stack.pop()
            kind, cv, body, d = self.sum_body(t)
            if d.keys is not None or body.sort() != z3.IntSort():
                continue
            for u in self.sum_apps(body):
                # inner sums or products over the bound variable: universally quantified bounds
                k2, cv2, b2, d2 = self.sum_body(u)
                if d2.keys is None and b2.sort() == z3.IntSort():
                    lo = 1 if k2 == "PROD" else 0
                    w = fresh_int("m")
                    x = d2.fresh()
                    inner = z3.substitute(z3.substitute(b2, (cv2, x)), (cv, w))
                    if self._solve(self.facts + self.pc + [z3.substitute(d2.constraint(x), (cv, w)), inner < lo]) == z3.unsat:
                        uu = z3.substitute(u, (cv, w))
                        self.fact(guard(z3.ForAll([w], uu >= lo, patterns=[uu])))
                        done = True
            x = d.fresh()
            e = z3.substitute(body, (cv, x))
            lo = 1 if kind == "PROD" else 0
            if self._solve(self.facts + self.pc + [d.constraint(x), e < lo]) == z3.unsat:
                good.append(t)
                self.fact(guard(t >= lo))
                done = True
                # one more term
                n = d.n
                nxt = t.decl()(*t.children()[:-1], n + 1)
                b = z3.substitute(body, (cv, n))
                if not any(nxt.eq(u) for u in uniq):
                    self.fact(z3.Implies(n >= 0, nxt == (t + b if kind == "SUM" else t * b)))
                    good.append(nxt)
        # terms beyond the range may be negative: monotonicity needs the sign on the larger range
        for a in good:
            for b in good:
                if a.decl().eq(b.decl()) and not a.eq(b) and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                    kind, cv, body, d = self.sum_body(b)
                    x = d.fresh()
                    e = z3.substitute(body, (cv, x))
                    lo = 1 if kind == "PROD" else 0
                    if self._solve(self.facts + self.pc + [d.constraint(x), e < lo]) == z3.unsat:
                        self.fact(guard(z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] <= b.children()[-1]), a <= b)))
                        done = True
        return done

    def dom_eq(self, a, b):
        if (a.keys is None) != (b.keys is None):
            return False
        if a.keys is None:
            return self.entails(a.n == b.n)
        if a.keys.name != b.keys.name or len(a.keys.params) != len(b.keys.params):
            return False
        return all(x.sort() == y.sort() and self.entails(x == y) for x, y in zip(a.keys.params, b.keys.params))

    # ------------------------------------------------------------------ lengths
    def seq_len(self, s):
        n = z3.IntVal(0)
        for p in s.pieces:
            n = n + self.piece_len(p)
        return z3.simplify(n)

    def piece_len(self, p):
        if isinstance(p, Elem):
            return z3.IntVal(1)
        if isinstance(p, Flat):
            l = self.seq_len(p.body)
            return self.sum_over(p.var, p.dom, l)
        if isinstance(p, Alt):
            e = self.seq_len(p.cases[-1][1])
            for g, s in reversed(p.cases[:-1]):
                e = z3.If(g, self.seq_len(s), e)
            return e
        if isinstance(p, Rho):
            return p.len
        raise TypeError(p)

    # ------------------------------------------------------------------ normalisation
    def norm(self, s):
        out = []
        for p in s.pieces:
            out.extend(self.norm_piece(p))
        return Seq(out, s.kind)

    def norm_piece(self, p):
        if isinstance(p, Flat):
            if p.dom.keys is None:
                n = z3.simplify(p.dom.n)
                if z3.is_int_value(n) and n.as_long() <= 12:
                    out = []
                    for i in range(max(n.as_long(), 0)):
                        for q in subst(p.body, [(p.var, z3.IntVal(i))]).pieces:
                            out.extend(self.norm_piece(q))
                    return out
            base = len(self.pc)
            self.pc.append(p.dom.constraint(p.var))
            try:
                body = self.norm(p.body)
            finally:
                del self.pc[base:]
            if not body.pieces:
                return []
            if len(body.pieces) == 1 and isinstance(body.pieces[0], Alt):
                r = self.one_point(p.var, p.dom, body.pieces[0])
                if r is not None:
                    return r
            return [Flat(p.var, p.dom, body)]
        if isinstance(p, Alt):
            cs = []
            for g, s in p.cases:
                g = z3.simplify(g)
                if z3.is_false(g):
                    continue
                base = len(self.pc)
                if not self.feasible(g):
                    continue
                self.pc.append(g)
                try:
                    cs.append((g, self.norm(s)))
                finally:
                    del self.pc[base:]
            if len(cs) == 1:
                return list(cs[0][1].pieces)
            if all(not s.pieces for _, s in cs):
                return []
            if all(len(s.pieces) == 1 and isinstance(s.pieces[0], Elem) for _, s in cs):
                m = self.merge_deep([(g, s.pieces[0].v) for g, s in cs])
                if m is not None:
                    return [Elem(m)]
            return [Alt(cs)]
        return [p]

    def one_point(self, var, dom, alt):
        """Flat over var of an Alt where only one case is non-empty and its guard pins var to a term"""
        ne = [(g, s) for g, s in alt.cases if s.pieces]
        if len(ne) != 1:
            return None
        g, s = ne[0]
        t = solve_for(var, g)
        if t is None:
            return None
        m = [(var, t)]
        gg = z3.simplify(z3.And(dom.constraint(t), z3.substitute(g, *m)))
        return self.norm_piece(Alt([(gg, subst(s, m)), (z3.Not(gg), Seq())]))

    # ------------------------------------------------------------------ equality (emits obligations)
    def equal(self, a, b, name):
        """prove two values equal; returns True if all obligations were discharged"""
        from .interp import Env
        a, b = deref(a), deref(b)
        if a is b:
            return self.ok(name)
        if isinstance(a, Choice) or isinstance(b, Choice):
            c, other, flip = (a, b, False) if isinstance(a, Choice) else (b, a, True)
            r = True
            neg = []
            for g, v in c.cases:
                base = len(self.pc)
                self.pc.extend(neg + [g])
                try:
                    if self.feasible(z3.BoolVal(True)):
                        r &= self.equal(other, v, name) if flip else self.equal(v, other, name)
                finally:
                    del self.pc[base:]
                neg.append(z3.Not(g))
            return r
        if isinstance(a, (PObj,)) and isinstance(b, PObj):
            if a.cls is not b.cls:
                return self.fail(name, f"different classes {a.cls} {b.cls}")
            r = True
            for k in sorted(set(a.fields) | set(b.fields)):
                if k.startswith("_cached_"):
                    continue
                if k not in a.fields or k not in b.fields:
                    r &= self.fail(name, f"field {k} missing")
                else:
                    r &= self.equal(a.fields[k], b.fields[k], f"{name}.{k}")
            return r
        ta, tb = num_kind(a), num_kind(b)
        if ta and tb:
            if ta == "bool" and tb == "bool":
                return self.prove(zb(a) == zb(b), name)
            if ta == "u" or tb == "u":
                return self.prove(self.to_u(a) == self.to_u(b), name)
            if ta == "real" or tb == "real":
                return self.prove(zr(a) == zr(b), name)
            return self.prove(zi(a) == zi(b), name)
        if (ta == "u") != (tb == "u") and (ta == "u" or tb == "u"):
            try:
                return self.prove(self.to_u(a) == self.to_u(b), name)
            except Unsupported:
                return self.fail(name, f"{a!r} vs {b!r}")
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None:
            return self.seq_equal(sa, sb, name)
        if isinstance(a, (PDict, dict)) and isinstance(b, (PDict, dict)):
            return self.dict_equal(a, b, name)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.name != b.name or len(a.params) != len(b.params):
                return self.fail(name, f"{a!r} is not {b!r}")
            r = True
            for x, y in zip(a.params, b.params):
                r &= self.equal(x if not isinstance(x, z3.ExprRef) else wrapz(x), y if not isinstance(y, z3.ExprRef) else wrapz(y), name)
            return r
        if isinstance(a, App) and isinstance(b, App):
            if a.fn != b.fn or len(a.args) != len(b.args) or [k for k, _ in a.kw] != [k for k, _ in b.kw]:
                return self.fail(name, f"{a!r} vs {b!r}")
            r = True
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                r &= self.equal(x, y, f"{name}/{a.fn}#{i}")
            for (k, x), (_, y) in zip(a.kw, b.kw):
                r &= self.equal(x, y, f"{name}/{a.fn}.{k}")
            return r if (a.args or a.kw) else self.ok(name)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            pa = a.parts if isinstance(a, SStr) else (a,)
            pb = b.parts if isinstance(b, SStr) else (b,)
            if len(pa) != len(pb):
                return self.fail(name, f"strings {a!r} vs {b!r}")
            r = True
            for x, y in zip(pa, pb):
                r &= self.equal(x, y, name) if not (isinstance(x, str) and isinstance(y, str)) else \
                    (self.ok(name) if x == y else self.fail(name, f"{a!r} vs {b!r}"))
            return r
        if isinstance(a, Substitutable) and hasattr(a, "equal_to"):
            return a.equal_to(self, b, name)
        if isinstance(b, Substitutable) and hasattr(b, "equal_to"):
            return b.equal_to(self, a, name)
        try:
            import numpy
            if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
                e = numpy.array_equal(a, b)
            else:
                e = (type(a) is type(b) or isinstance(a, (int, float)) and isinstance(b, (int, float))) and bool(a == b)
        except Exception as ex:
            return self.fail(name, f"cannot compare {a!r} with {b!r}: {ex!r}")
        return self.ok(name, "concrete") if e else self.fail(name, f"{a!r} differs from {b!r}")

    def seq_equal(self, s, t, name):
        s, t = self.norm(s), self.norm(t)
        return self._seq_equal(list(s.pieces), list(t.pieces), name, 0)

    def _seq_equal(self, A, B, name, depth):
        if depth > 60:
            return self.fail(name, "sequence alignment too deep")
        if not A and not B:
            return self.ok(name + " [length]")
        # case splits first
        for X, Y, flip in ((A, B, False), (B, A, True)):
            if X and isinstance(X[0], Alt):
                if Y and isinstance(Y[0], Alt) and self._alts_align(X[0], Y[0]):
                    r = True
                    for (g, sx), (_, sy) in zip(X[0].cases, Y[0].cases):
                        base = len(self.pc)
                        self.pc.append(g)
                        a, b = (sx, sy) if not flip else (sy, sx)
                        r &= self._seq_equal(list(a.pieces), list(b.pieces), name, depth + 1)
                        del self.pc[base:]
                    return r and self._seq_equal(A[1:], B[1:], name, depth + 1)
                r = True
                neg = []
                for g, sx in X[0].cases:
                    base = len(self.pc)
                    self.pc.extend(neg + [g])
                    if self.feasible(z3.BoolVal(True)):
                        nx = list(self.norm(Seq(list(sx.pieces) + X[1:])).pieces)
                        ny = list(self.norm(Seq(Y)).pieces)
                        a, b = (nx, ny) if not flip else (ny, nx)
                        r &= self._seq_equal(a, b, name, depth + 1)
                    del self.pc[base:]
                    neg.append(z3.Not(g))
                return r
        if not A or not B:
            rest = A or B
            return self.prove(self.seq_len(Seq(rest)) == 0, name + " [length]", f"left over: {rest}")
        a, b = A[0], B[0]
        if isinstance(a, Elem) and isinstance(b, Elem):
            r = self.equal(a.v, b.v, name)
            return self._seq_equal(A[1:], B[1:], name, depth + 1) and r
        if isinstance(a, Flat) and isinstance(b, Flat):
            if self.dom_eq(a.dom, b.dom):
                v = a.dom.fresh()
                base = len(self.pc)
                self.pc.append(a.dom.constraint(v))
                sa, sb = subst(a.body, [(a.var, v)]), subst(b.body, [(b.var, v)])
                r = self.seq_equal(sa, sb, name)
                del self.pc[base:]
                return self._seq_equal(A[1:], B[1:], name, depth + 1) and r
            if a.dom.keys is None and b.dom.keys is None:
                # one is a prefix of the other
                for X, Y, flip in ((a, b, False), (b, a, True)):
                    if self.entails(X.dom.n <= Y.dom.n):
                        y1, y2 = split_flat(Y, X.dom.n)
                        rx = (A if not flip else B)[1:]
                        ry = (B if not flip else A)[1:]
                        l1, l2 = [X] + rx, [y1, y2] + ry
                        return self._seq_equal(l1, l2, name, depth + 1) if not flip else self._seq_equal(l2, l1, name, depth + 1)
            return self.fail(name, f"domains differ: {a} vs {b}")
        if isinstance(a, Rho) and isinstance(b, Rho):
            if a.name != b.name or len(a.params) != len(b.params):
                return self.fail(name, f"{a} vs {b}")
            r = True
            for x, y in zip(a.params, b.params):
                r &= self.equal(wrapz(x) if isinstance(x, z3.ExprRef) else x, wrapz(y) if isinstance(y, z3.ExprRef) else y, name)
            return self._seq_equal(A[1:], B[1:], name, depth + 1) and r
        # peel
        for X, Y, flip in ((A, B, False), (B, A, True)):
            if isinstance(Y[0], Flat) and isinstance(X[0], Elem):
                f = Y[0]
                if f.dom.keys is None:
                    if self.entails(f.dom.n <= 0):
                        Y2 = Y[1:]
                    elif self.entails(f.dom.n >= 1):
                        first = subst(f.body, [(f.var, z3.IntVal(0))])
                        rest = Flat(f.var, Dom(n=f.dom.n - 1), subst(f.body, [(f.var, f.var + 1)]))
                        Y2 = list(self.norm(first).pieces) + [rest] + Y[1:]
                    else:
                        break
                    return self._seq_equal(X, Y2, name, depth + 1) if not flip else self._seq_equal(Y2, X, name, depth + 1)
        return self.fail(name, f"cannot align {a} with {b}")

    def _alts_align(self, x, y):
        return len(x.cases) == len(y.cases) and all(
            self.entails(g == h) for (g, _), (h, _) in zip(x.cases, y.cases))

    def dict_items(self, d):
        d = deref(d)
        if isinstance(d, PDict):
            return d.items
        return Seq([Elem((k, v)) for k, v in d.items()])

    def dict_equal(self, a, b, name):
        A, B = self.norm(self.dict_items(a)), self.norm(self.dict_items(b))
        # fast path: same order
        mark = len(self.obligations)
        if self._aligned(A, B):
            if self.seq_equal(A, B, name):
                return True
            bad = self.obligations[mark:]
            del self.obligations[mark:]
        else:
            bad = None
        r = self.prove(self.seq_len(A) == self.seq_len(B), name + " [number of keys]")
        for p in B.pieces:
            r &= self._dict_piece(A, p, name)
        if bad is not None and not r:
            del self.obligations[mark:]
            self.obligations.extend(bad)
        return r

    def _aligned(self, A, B):
        return len(A.pieces) == len(B.pieces) and all(type(x) is type(y) for x, y in zip(A.pieces, B.pieces))

    def _dict_piece(self, A, p, name):
        if isinstance(p, Elem):
            k, v = p.v
            got = self.lookup(A, k)
            if got is None:
                return self.fail(name, f"key {k!r} missing in {A}")
            return self.equal(got, v, f"{name}[{k!r}]")
        if isinstance(p, Flat):
            v = p.dom.fresh()
            base = len(self.pc)
            self.pc.append(p.dom.constraint(v))
            r = True
            for q in self.norm(subst(p.body, [(p.var, v)])).pieces:
                r &= self._dict_piece(A, q, name)
            del self.pc[base:]
            return r
        return self.fail(name, f"dict piece {p}")

    # lookup without side conditions: value or None (not provable)
    def lookup(self, items, k):
        return self.resolve(self._lookup(items, k))

    def _lookup(self, items, k):
        for p in items.pieces:
            if isinstance(p, Elem):
                e = self.key_eq(p.v[0], k)
                if e is True or (e is not False and self.entails(e)):
                    return p.v[1]
                if e is not False and not self.entails(z3.Not(e)):
                    return None
            elif isinstance(p, Flat):
                r = self._lookup_flat(p, k)
                if r is not None:
                    g, val = r
                    if self.entails(g):
                        return val
                    if not self.entails(z3.Not(g)):
                        return None
                else:
                    return None
            else:
                return None
        return None

    def _lookup_flat(self, p, k):
        """(guard, value) such that the family contains key k iff guard, with that value"""
        if len(p.body.pieces) != 1:
            return None
        q = p.body.pieces[0]
        if isinstance(q, Elem):
            kk, v = q.v
            t = self.match_key(p.var, kk, k)
            if t is None:
                return None
            if t is False:
                return z3.BoolVal(False), None
            side, val = t
            if val is None:
                return None
            m = [(p.var, val)]
            return z3.And(p.dom.constraint(val), *[z3.substitute(c, *m) for c in side]), subst(v, m)
        if isinstance(q, Flat):
            r = self._lookup_flat(q, k)
            if r is None:
                return None
            g, v = r
            t = solve_for(p.var, g)
            if t is None:
                return None
            m = [(p.var, t)]
            return z3.And(p.dom.constraint(t), z3.substitute(g, *m)), subst(v, m)
        if isinstance(q, Alt):
            ne = [(g, s) for g, s in q.cases if s.pieces]
            if len(ne) == 1:
                r = self._lookup_flat(Flat(p.var, p.dom, ne[0][1]), k)
                if r is None:
                    return None
                t = None
                kk = ne[0][1].pieces[0].v[0] if isinstance(ne[0][1].pieces[0], Elem) else None
                if kk is None:
                    return None
                mk = self.match_key(p.var, kk, k)
                if not mk or mk[1] is None:
                    return None
                return z3.And(r[0], z3.substitute(ne[0][0], (p.var, mk[1]))), r[1]
        return None

    def match_key(self, var, pat, k):
        """solve pat(var) == k for var: None unknown, False never, (side conditions, term)"""
        pat, k = deref(pat), deref(k)
        if isinstance(pat, Choice) or isinstance(k, Choice):
            return None
        if isinstance(pat, (SInt, SU)):
            try:
                kz = self.to_u(k) if isinstance(pat, SU) else zi(k)
            except (Unsupported, TypeError):
                return False if not isinstance(k, (SU, Obj, App, Choice)) else None
            if pat.e.eq(var):
                return [], kz
            t = solve_for(var, pat.e == kz)
            return None if t is None else ([pat.e == kz], t)
        sp, sk = as_seq(pat), as_seq(k)
        if sp is not None and sk is not None and sp.concrete and sk.concrete:
            if len(sp.pieces) != len(sk.pieces):
                return False
            side, val = [], None
            for x, y in zip(sp.items(), sk.items()):
                m = self.match_key(var, x, y)
                if m is None:
                    e = self.key_eq(x, y)
                    if e is False:
                        return False
                    if e is not True:
                        side.append(e)
                elif m is False:
                    return False
                else:
                    side += m[0]
                    if m[1] is not None:
                        if val is None:
                            val = m[1]
                        else:
                            side.append(var == m[1])
                    
            return side, val
        if not isinstance(pat, (SInt, SU, Seq, tuple)):
            e = self.key_eq(pat, k)
            if e is True:
                return [], None
            if e is False:
                return False
            return [e], None
        return None

    def key_eq(self, a, b):
        """equality of dictionary keys: True / False / z3 Bool"""
        a, b = deref(a), deref(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            c, o = (a, b) if isinstance(a, Choice) else (b, a)
            out, neg = [], []
            for g, v in c.cases:
                e = self.key_eq(v, o)
                e = z3.BoolVal(e) if isinstance(e, bool) else e
                out.append(z3.And(*neg, g, e))
                neg.append(z3.Not(g))
            return z3.simplify(z3.Or(*out))
        if isinstance(a, SU) or isinstance(b, SU):
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            try:
                return zi(a) == zi(b)
            except TypeError:
                return False
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None:
            sa, sb = self.norm(sa), self.norm(sb)
            if sa.concrete and sb.concrete:
                if len(sa.pieces) != len(sb.pieces):
                    return False
                cs = []
                for x, y in zip(sa.items(), sb.items()):
                    e = self.key_eq(x, y)
                    if e is False:
                        return False
                    if e is not True:
                        cs.append(e)
                return z3.And(*cs) if cs else True
            raise Unsupported("symbolic-length key")
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.name != b.name:
                raise Unsupported(f"comparison of {a!r} and {b!r}")
            return z3.And(*[x == y for x, y in zip(a.params, b.params)]) if a.params else True
        if isinstance(a, (Obj, App)) or isinstance(b, (Obj, App)):
            if a is b:
                return True
            if isinstance(a, App) and isinstance(b, App) and repr(a) == repr(b):
                return True
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        try:
            return bool(a == b)
        except NotConcrete:
            raise Unsupported(f"comparison of {a!r} and {b!r}")


def deref(v):
    while isinstance(v, LRef):
        v = v.value()
    return v


def wrapz(e):
    if isinstance(e, bool):
        return e
    s = e.sort()
    if s == z3.IntSort():
        return SInt(e)
    if s == z3.BoolSort():
        return SBool(e)
    if s == z3.RealSort():
        return SReal(e)
    if s == U:
        return SU(e)
    raise TypeError(s)


def num_kind(v):
    if isinstance(v, SBool):
        return "bool"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, SInt):
        return "int"
    if isinstance(v, SReal):
        return "real"
    if isinstance(v, SU):
        return "u"
    import numpy
    if isinstance(v, (int, numpy.integer)):
        return "int"
    if isinstance(v, (float, numpy.floating)):
        return "real"
    return None


def zi(v):
    import numpy
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, (bool, int, numpy.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(f"not an int: {v!r}")


def zr(v):
    import numpy
    from fractions import Fraction
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, SInt):
        return z3.ToReal(v.e)
    if isinstance(v, (int, numpy.integer)):
        return z3.RealVal(int(v))
    if isinstance(v, (float, numpy.floating)):
        f = Fraction(float(v))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(f"not a real: {v!r}")


def zb(v):
    if isinstance(v, SBool):
        return v.e
    return z3.BoolVal(bool(v))


def as_seq(v):
    """sequence view of list/tuple/Seq-like values, None otherwise"""
    v = deref(v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, PList):
        return v.seq
    if isinstance(v, (tuple, list)):
        return Seq([Elem(x) for x in v], "tuple" if isinstance(v, tuple) else "list")
    if isinstance(v, range):
        return Seq([Elem(x) for x in v], "range")
    return None


def split_flat(f, m):
    a = Flat(f.var, Dom(n=m), f.body)
    v = fresh_int()
    b = Flat(v, Dom(n=z3.simplify(f.dom.n - m)), subst(f.body, [(f.var, v + m)]))
    return a, b


def conjuncts(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r.extend(conjuncts(c))
        return r
    return [g]


def linear_coeff(e, var):
    """(coef, rest) with e == coef*var + rest, coef int; None if not linear"""
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    coef, rest = 0, []
    for t in terms:
        if t.eq(var):
            coef += 1
        elif var.get_id() not in zconsts(t):
            rest.append(t)
        elif z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.children()[0]) and t.children()[1].eq(var):
            coef += t.children()[0].as_long()
        else:
            return None
    r = z3.IntVal(0)
    for t in rest:
        r = r + t
    return coef, r


def solve_for(var, g):
    """find t with g -> var == t, t free of var"""
    for c in conjuncts(z3.simplify(g) if False else g):
        if z3.is_eq(c):
            l, r = c.children()
            if l.eq(var) and var.get_id() not in zconsts(r):
                return r
            if r.eq(var) and var.get_id() not in zconsts(l):
                return l
            if l.sort() == z3.IntSort() and var.sort() == z3.IntSort():
                lc = linear_coeff(l - r, var)
                if lc is not None and lc[0] in (1, -1):
                    return z3.simplify(-lc[1] if lc[0] == 1 else lc[1])
    return None
