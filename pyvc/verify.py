"""Contracts on repository functions and their verification."""
import time
import traceback
import z3
from .values import *
from .engine import Engine, Enough, Infeasible, deref, Choice
from .interp import Interp, ReturnSig, GenericRaise


class Contract:
    """contract of one function of the repository.

    setup(it)        -> (args, kw, ctx): symbolic arguments under the precondition (facts/pc added to it.eng)
    target           the real function (or a callable f(it, ctx) running it)
    ensures(it, ctx, result) : emits obligations through it.eng
    raises           None (no exception allowed) or function (it, ctx, exc) emitting obligations
    """
    def __init__(self, name, setup, target, ensures, raises=None, models=None, contracts=None, note="", bounded=None, timeout=4000):
        self.name, self.setup, self.target, self.ensures, self.raises = name, setup, target, ensures, raises
        self.models, self.contracts, self.note, self.bounded, self.timeout = models, contracts, note, bounded, timeout


class Report:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.covered = set()
        self.assumptions = set()
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.error = None
        self.queries = 0
        self.bounded = None
    @property
    def failed(self):
        return [o for o in self.obligations if o.status != "discharged"]
    @property
    def ok(self):
        return self.error is None and not self.failed and len(self.obligations) > 0


def verify(c, both=False, debug=False):
    if hasattr(c, "verify"):
        return c.verify(both)
    rep = Report(c.name)
    rep.bounded = c.bounded
    t0 = time.time()
    eng = Engine(timeout_ms=c.timeout, both=both)
    eng.cur = c.name
    it = Interp(eng, c.models, c.contracts)
    it.assert_raises = c.raises is not None
    state = {"paths": 0}
    reached = []
    def run():
        eng.final = False
        try:
            args, kw, ctx = c.setup(it)
        except PyRaise as e:
            # an object of the precondition cannot be built: the path must be infeasible
            eng.prove(z3.BoolVal(False), f"construction of the arguments: no exception {e.exc.__name__}{e.eargs!r}"[:200])
            return
        state["paths"] += 1
        # vacuity: the precondition must be satisfiable (not refutable)
        if not state.get("vac"):
            state["vac"] = True
            if eng._solve(eng.facts + eng.pc) == z3.unsat:
                eng.fail("precondition satisfiable", "the precondition is contradictory")
            else:
                eng.ok("precondition not contradictory", "z3")
        try:
            if isinstance(c.target, str):
                raise TypeError
            r = c.target(it, args, kw) if getattr(c.target, "_driver", False) else it.call(c.target, args, kw)
        except PyRaise as e:
            if c.raises is None:
                # the path must be infeasible
                eng.prove(z3.BoolVal(False), f"no exception {e.exc.__name__}{e.eargs!r}"[:200])
            else:
                eng.final = True
                c.raises(it, ctx, e)
                eng.final = False
            return
        reached.append(1)
        eng.final = True
        c.ensures(it, ctx, eng.force(r) if isinstance(r, Choice) else r)
        eng.final = False
    try:
        try:
            eng.explore(run)
        except Enough:
            reached.append(1)
        if not reached and c.raises is None:
            eng.fail("normal termination reachable", "no path returns")
    except (Unsupported, NotConcrete, RecursionError) as e:
        rep.error = f"unsupported: {e}"
        if debug:
            traceback.print_exc(limit=-4 if debug != 2 else None)
    except Infeasible:
        pass
    except Exception as e:
        rep.error = f"verifier error: {type(e).__name__}: {e}"
        if debug:
            traceback.print_exc(limit=-4 if debug != 2 else None)
    rep.obligations = eng.obligations
    rep.covered = it.covered
    rep.assumptions = eng.assumptions
    rep.paths = state["paths"]
    rep.time = time.time() - t0
    rep.solver_time = eng.solver_time
    rep.queries = eng.queries
    return rep


def driver(f):
    f._driver = True
    return f
