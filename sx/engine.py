"""Path exploration: deterministic re-execution, depth first, one SMT solver kept incremental.

A *path* is identified by the outcomes of its branch decisions.  ``Engine.decide`` is the only
place where a symbolic truth value becomes a Python bool; it asks the solver which outcomes are
feasible under the path condition and schedules the other one for a later execution.
``Engine.check`` asks whether the negation of an assertion is feasible.
"""
import math
import struct
import sys
import time
import traceback
from fractions import Fraction

import z3

ENGINE = None  # the engine of the case being executed


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption, violated assertion, budget)."""


class Budget(BaseException):
    """Ends the exploration of a case: budget used up."""


class EngineError(BaseException):
    """The machinery cannot go on with this case."""


class Event:
    __slots__ = ("kind", "cond", "taken", "alt", "alt_model", "val", "frame")

    def __init__(self, kind, cond, taken=None, alt=False, alt_model=None, val=None, frame=False):
        self.kind, self.cond, self.taken = kind, cond, taken
        self.alt, self.alt_model, self.val, self.frame = alt, alt_model, val, frame


def fp_to_py(v):
    """z3 FP numeral -> float."""
    s = z3.simplify(z3.fpToIEEEBV(v))
    if z3.is_bv_value(s):
        return struct.unpack("<d", struct.pack("<Q", s.as_long()))[0]
    return float("nan")


def real_to_fraction(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def ratval(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def _int(v):
    return v.as_long() if z3.is_int_value(v) else v.as_signed_long()


class Engine:
    def __init__(self, name="", deadline=None, max_paths=200000, query_timeout_ms=60000,
                 dump_queries=0, seed=1):
        self.name = name
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed)
        self.events = []
        self.pos = 0
        self.model = None
        self.inputs = {}          # name -> (kind, payload) of the current path
        self.memo = {}            # term constructions, across paths (with their operands)
        self.keep = {}            # input terms stay alive: stable identities across paths
        self.hash_sig = {}
        self.hash_memo = {}
        self.hash_touched = False
        self.logs = []
        self.uuid_n = 0
        self.labels = []
        self.fresh_n = 0
        self.path_pins = 0
        # statistics
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.checks = 0
        self.discharged = 0
        self.trivial_checks = 0
        self.decisions = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.pinned_paths = 0
        self.pin_sites = {}
        self.covers = {}
        self.functions = set()
        self.candidates = []
        self.samples = []
        self.validate = []       # inputs of completed paths, for replay on the real code
        self.incomplete = None
        self.errors = []
        self.dump = []
        self.dump_max = dump_queries
        self.max_query_s = 0.0

    # ------------------------------------------------------------------ solver
    def _solve(self, *assumptions):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        t = time.time()
        r = self.solver.check(*assumptions)
        dt = time.time() - t
        self.solver_s += dt
        self.max_query_s = max(self.max_query_s, dt)
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._solve()
            if r != z3.sat:
                raise PathAbort("path condition " + str(r))
            self.model = self.solver.model()
        return self.model

    # --------------------------------------------------------------- decisions
    def decide(self, cond, simple=False):
        """Truth value of the z3 formula `cond` on this path (simple: already simplified)."""
        if not simple:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        fact = self.facts.get(cond.get_id())
        if fact is not None:              # the event that decided it keeps the term alive
            return fact
        r = self._decide(cond)
        self.facts[cond.get_id()] = r
        return r

    def _decide(self, cond):
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind != "d" or not ev.cond.eq(cond):
                raise EngineError("nondeterministic re-execution: %s / %s" % (ev.cond, cond))
            self.pos += 1
            return ev.taken
        self.decisions += 1
        m = self._get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        lit = cond if v else z3.Not(cond)
        self.solver.push()
        self.solver.add(z3.Not(lit))
        r = self._solve()
        am = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:      # implied by the path condition
            self.events.append(Event("d", cond, v))
            self.pos += 1
            return v
        self.solver.push()
        self.solver.add(lit)
        self.events.append(Event("d", cond, v, alt=(r == z3.sat), alt_model=am, frame=True))
        self.pos += 1
        return v

    def assume(self, cond, simple=False):
        if not simple:
            cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind != "a" or not ev.cond.eq(cond):
                raise EngineError("nondeterministic re-execution (assume)")
            self.pos += 1
            return
        if z3.is_false(cond):
            raise PathAbort("assumption false")
        ok = self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True))
        self.solver.add(cond)
        self.events.append(Event("a", cond))
        self.pos += 1
        if not ok:
            self.model = None
            r = self._solve()
            if r == z3.sat:
                self.model = self.solver.model()
            else:
                raise PathAbort("assumption infeasible")

    def pin(self, term, to_py, mk_eq, site, limit=3, complete=False):
        """Concretise a term: fork on its value, at most `limit` values (all, if complete)."""
        tried = 0
        while True:
            if self.pos < len(self.events):
                ev = self.events[self.pos]
                if ev.kind != "p":
                    raise EngineError("nondeterministic re-execution (pin)")
                self.pos += 1
                if not complete:
                    self.note_pin(site)
                if ev.taken:
                    return ev.val
                tried += 1
                continue
            m = self._get_model()
            val = to_py(m.eval(term, model_completion=True))
            cond = z3.simplify(mk_eq(term, val))
            if z3.is_true(cond):
                return val
            self.solver.push()
            self.solver.add(z3.Not(cond))
            r = self._solve()
            am = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            alt = r == z3.sat
            if alt and not complete:
                self.note_pin(site)
                if tried + 1 >= limit:
                    alt = False
            if z3.is_false(cond):   # not representable: use the value without constraining
                self.note_pin(site)
                self.events.append(Event("p", cond, True, val=val))
                self.pos += 1
                return val
            self.solver.push()
            self.solver.add(cond)
            self.events.append(Event("p", cond, True, alt=alt, alt_model=am, val=val, frame=True))
            self.pos += 1
            if not z3.is_true(m.eval(cond, model_completion=True)):
                self.model = None
                self._get_model()
            return val

    def note_pin(self, site):
        self.path_pins += 1
        self.pin_sites[site] = self.pin_sites.get(site, 0) + 1

    # ------------------------------------------------------------------ checks
    def check(self, cond, msg):
        """cond: Python bool or z3 Bool."""
        if self.pos < len(self.events):
            return          # same prefix, already decided
        if type(cond) is bool:
            self.checks += 1
            if cond:
                self.trivial_checks += 1
                return
            m, exact = self.representable(self._get_model())
            self._candidate(m, msg, exact)
            raise PathAbort("assertion violated")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.checks += 1
            self.trivial_checks += 1
            return
        self.checks += 1
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self._solve()
        if len(self.dump) < self.dump_max:
            self.dump.append((self.solver.to_smt2(), str(r)))
        if r == z3.sat:
            m = self.solver.model()
            m, exact = self.representable(m)
            self.solver.pop()
            self._candidate(m, msg, exact)
            self.solver.add(cond)       # go on where it holds
            self.model = None
            self._get_model()
        else:
            self.solver.pop()
            if r == z3.unsat:
                self.discharged += 1
                self.solver.add(cond)
            # unknown: counted in _solve, reported as inconclusive

    def representable(self, m):
        """A model of the asserted formulas whose real inputs are floats, if there is one."""
        n, exact = 0, not self.round_memo      # rounding errors are over-approximated
        try:
            for name, (kind, t) in self.inputs.items():
                if kind != "real":
                    continue
                f = real_to_fraction(m.eval(t, model_completion=True))
                near = float(f)
                if Fraction(near) == f:
                    self.solver.push()
                    self.solver.add(t == ratval(f))
                    n += 1
                    continue
                for g in (near, math.nextafter(near, math.inf), math.nextafter(near, -math.inf),
                          float(round(near, 3)), float(round(near))):
                    if not math.isfinite(g):
                        continue
                    self.solver.push()
                    n += 1
                    self.solver.add(t == ratval(Fraction(g)))
                    if self._solve() == z3.sat:
                        m = self.solver.model()
                        break
                    self.solver.pop()
                    n -= 1
                else:
                    exact = False
        finally:
            for _ in range(n):
                self.solver.pop()
        return m, exact

    def _candidate(self, m, msg, exact=True):
        self.candidates.append({"msg": msg, "inputs": self.extract(m),
                                "pins": self.path_pins, "exact": exact})
        if len(self.candidates) >= 12:
            raise Budget("candidate limit")

    def extract(self, m):
        out = {}
        for name, (kind, t) in self.inputs.items():
            if kind == "float":
                out[name] = ["float", fp_to_py(m.eval(t, model_completion=True)).hex()]
            elif kind == "real":
                v = m.eval(t, model_completion=True)
                out[name] = ["float", float(real_to_fraction(v)).hex()]
            elif kind == "int":
                out[name] = ["int", _int(m.eval(t, model_completion=True))]
            elif kind == "bool":
                out[name] = ["bool", z3.is_true(m.eval(t, model_completion=True))]
            elif kind == "choice":
                out[name] = ["int", m.eval(t, model_completion=True).as_long()]
            elif kind == "str":
                cs = [c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()
                      for c in t]
                out[name] = ["str", cs]
        return out

    # ----------------------------------------------------------------- explore
    def start_path(self):
        self.pos = 0
        self.inputs = {}
        self.hash_sig = {}
        self.hash_memo = {}
        self.hash_touched = False
        self.logs = []
        self.uuid_n = 0
        self.fresh_n = 0
        self.labels = []
        self.kwnames = []
        self.round_memo = {}
        self.path_pins = 0
        self.facts = {}           # conditions decided on this path, by identity

    def backtrack(self):
        """Prepare the next path; False when the tree is exhausted."""
        while self.events:
            ev = self.events.pop()
            if ev.frame:
                self.solver.pop()
            if ev.alt:
                lit = ev.cond if (ev.kind == "d" and not ev.taken) else z3.Not(ev.cond)
                self.solver.push()
                self.solver.add(lit)
                self.events.append(Event(ev.kind, ev.cond, not ev.taken, val=ev.val, frame=True))
                self.model = ev.alt_model
                return True
        return False

    def explore(self, fn, reset=lambda: None, keep_models=16):
        global ENGINE
        ENGINE = self
        try:
            while True:
                reset()
                self.start_path()
                try:
                    fn()
                    done = True
                except PathAbort:
                    done = False
                    self.aborted += 1
                except Exception as exc:      # escaped from the harness: replayed, then judged
                    done = False
                    self.aborted += 1
                    if self.pos < len(self.events):
                        raise EngineError("nondeterministic re-execution (%r)" % exc)
                    self.errors.append(traceback.format_exc()[-1500:])
                    m, exact = self.representable(self._get_model())
                    self._candidate(m, "unexpected %s" % type(exc).__name__, exact)
                if self.pos < len(self.events):
                    raise EngineError("nondeterministic re-execution (short path)")
                if done:
                    self.paths += 1
                    if self.path_pins:
                        self.pinned_paths += 1
                    for lab in self.labels:
                        self.covers[lab] = self.covers.get(lab, 0) + 1
                    if self.want_model(keep_models):
                        m, exact = self.representable(self._get_model())
                        self.validate.append({"inputs": self.extract(m), "exact": exact,
                                              "labels": list(self.labels)})
                if not self.backtrack():
                    break
                if self.paths + self.aborted >= self.max_paths:
                    raise Budget("path budget")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget")
        except Budget as b:
            self.incomplete = str(b)
        except EngineError as b:
            self.incomplete = "engine: " + str(b)[:300]
        except z3.Z3Exception as b:
            self.incomplete = "solver: " + str(b)[:300]
        finally:
            ENGINE = None

    def want_model(self, keep):
        """Spread the replayed paths over the exploration."""
        n = self.paths
        if len(self.validate) >= keep * 3:
            return False
        if n <= keep // 2:
            return True
        return n & (n - 1) == 0 or n % max(1, 97) == 0
