"""Path-exploring symbolic executor.

The code under test is executed by CPython itself; the leaves of its data are
``SymVal`` objects wrapping z3 terms.  Whenever the code branches on such a
term (``bool()``), or needs its concrete value (``__index__``, ``hash``,
``str``), the engine asks the solver which outcomes are feasible under the
current path condition, takes one and schedules the others.  Exploration ends
when no scheduled alternative is left: every value of the inputs (within their
declared bounds) then lies on exactly one explored path.
"""
from __future__ import annotations

import time

from .z3imp import z3


class Steering(BaseException):
    """Base of the exceptions that steer the exploration.

    They derive from BaseException so that ``except Exception`` in the code
    under test cannot swallow them."""


class Infeasible(Steering):
    """The current path contradicts an assumption of the harness."""


class PathAborted(Steering):
    """A per-path limit was reached."""


class CounterExample(Steering):
    """The assertion is violated by some input of this path."""

    def __init__(self, message, model):
        super().__init__(message)
        self.message = message
        self.model = model


_CURRENT: list['Path'] = []


def current() -> 'Path':
    return _CURRENT[-1]


def active() -> bool:
    return bool(_CURRENT)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.asserts = 0
        self.asserts_solver = 0
        self.concretized = 0


class Path:
    """State of one execution."""

    def __init__(self, prefix, solver, stats, max_decisions, query_timeout_ms):
        self.prefix = prefix
        self.trace = []  # decisions taken: ('b', bool) or ('v', int, bool)
        self.pending = []  # alternative prefixes discovered on this path
        self.solver = solver
        self.stats = stats
        self.max_decisions = max_decisions
        self.inputs = {}  # name -> (z3 var, decoder)
        self.notes = []
        self.handles = {}
        self.handle_of = {}
        self.inexact = False
        self._memo = {}
        self._model = None
        self.extra = {}

    # -- solver ---------------------------------------------------------
    def sat(self, *extra):
        self.stats.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
            raise PathAborted('solver answered unknown: ' +
                              self.solver.reason_unknown())
        return r == z3.sat

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.solver.add(cond)
        self._model = None
        if len(self.trace) >= len(self.prefix) and not self.sat():
            raise Infeasible()

    def model(self):
        if self._model is None:
            if not self.sat():
                raise Infeasible()
            self._model = self.solver.model()
        return self._model

    # -- decisions ------------------------------------------------------
    def _check_len(self):
        if len(self.trace) > self.max_decisions:
            raise PathAborted('decision bound reached')

    def branch(self, cond) -> bool:
        """Decide the truth value of a z3 Bool on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self._memo:
            return self._memo[key][0]
        self._check_len()
        ix = len(self.trace)
        if ix < len(self.prefix):
            kind, choice = self.prefix[ix]
            assert kind == 'b', 'non deterministic replay of a path'
            self.trace.append(('b', choice))
            self.solver.add(cond if choice else z3.Not(cond))
            self._model = None
        else:
            # The cached model tells one feasible side for free.
            mod = self.model()
            side = z3.is_true(mod.eval(cond, model_completion=True))
            other = z3.Not(cond) if side else cond
            if self.sat(other):
                self.pending.append(self.trace + [('b', not side)])
            choice = side
            self.trace.append(('b', choice))
            self.solver.add(cond if choice else z3.Not(cond))
            # mod still satisfies the extended path condition
        self._memo[key] = (choice, cond)
        return choice

    def value(self, expr) -> int:
        """Concrete value of a z3 Int on this path (forks on the others)."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        key = ('v', expr.get_id())
        if key in self._memo:
            return self._memo[key][0]
        while True:
            self._check_len()
            ix = len(self.trace)
            if ix < len(self.prefix):
                kind, val, choice = self.prefix[ix]
                assert kind == 'v', 'non deterministic replay of a path'
                self.trace.append(('v', val, choice))
                self.solver.add(expr == val if choice else expr != val)
                self._model = None
            else:
                val = self.model().eval(expr, model_completion=True).as_long()
                if self.sat(expr != val):
                    self.pending.append(self.trace + [('v', val, False)])
                choice = True
                self.trace.append(('v', val, True))
                self.solver.add(expr == val)
            if choice:
                self._memo[key] = (val, expr)
                return val

    # -- assertions -------------------------------------------------------
    def prove(self, cond, message):
        """Assert that cond holds for every input on this path."""
        self.stats.asserts += 1
        if isinstance(cond, bool):
            if not cond:
                raise CounterExample(message, self.input_values())
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.stats.asserts_solver += 1
        if self.sat(z3.Not(cond)):
            model = self.solver.model()
            raise CounterExample(message, self.input_values(model))
        self.solver.add(cond)

    def input_values(self, model=None):
        if model is None:
            model = self.model()
        return {
            name: dec(model.eval(var, model_completion=True))
            for name, (var, dec) in self.inputs.items()
        }


class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.aborted = []
        self.violations = []
        self.complete = True
        self.samples = []
        self.notes = set()
        self.reached = 0
        self.inexact = 0
        self.decisions = 0
        self.stats = Stats()
        self.wall = 0.0


def explore(run, *, max_paths=100000, max_seconds=600.0, max_decisions=2000,
            query_timeout_ms=20000, max_violations=3, keep_samples=3,
            seed=1):
    """Explore every path of ``run(path)``.

    ``run`` returns True if it reached its final assertions."""
    result = Result()
    t0 = time.perf_counter()
    todo = [[]]
    solver = z3.Solver()
    solver.set('timeout', query_timeout_ms)
    solver.set('random_seed', seed)
    while todo:
        if result.paths >= max_paths or time.perf_counter() - t0 > max_seconds:
            result.complete = False
            break
        prefix = todo.pop()
        solver.push()
        path = Path(prefix, solver, result.stats, max_decisions,
                    query_timeout_ms)
        _CURRENT.append(path)
        try:
            try:
                reached = run(path)
                if reached:
                    result.reached += 1
                # sample of the paths, used to validate the encoding
                if len(result.samples) < keep_samples or (
                        result.paths % 97 == 0
                        and len(result.samples) < 4 * keep_samples):
                    result.samples.append((path.input_values(), dict(path.extra)))
            except Infeasible:
                result.infeasible += 1
            except CounterExample as exc:
                result.violations.append(
                    (exc.message, exc.model, dict(path.extra), path.inexact))
            except PathAborted as exc:
                result.aborted.append(str(exc))
                result.complete = False
        finally:
            _CURRENT.pop()
            solver.pop()
        result.paths += 1
        result.decisions += len(path.trace)
        result.notes.update(path.notes)
        if path.inexact:
            result.inexact += 1
        todo.extend(path.pending)
        if len(result.violations) >= max_violations:
            result.complete = False
            break
    result.wall = time.perf_counter() - t0
    return result
