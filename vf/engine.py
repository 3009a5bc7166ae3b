"""Path exploration engine: re-execution based symbolic execution.

One run of the harness follows one path.  Every decision that depends on a
symbolic value becomes an event of the trail; the solver keeps one scope per
event, so consecutive runs share the assertions of their common prefix.
"""
import time
import z3


class Control(BaseException):
    """Engine control flow; never caught by translated code."""


class PathAbort(Control):
    pass


class StepLimit(Control):
    pass


class Budget(Control):
    pass


class EngineError(Control):
    pass


class Event(object):
    __slots__ = ('kind', 'cond', 'choice', 'alt', 'altmodel', 'data')

    def __init__(self, kind, cond, choice, alt, altmodel=None, data=None):
        self.kind = kind
        self.cond = cond
        self.choice = choice
        self.alt = alt
        self.altmodel = altmodel
        self.data = data


class Engine(object):
    def __init__(self, query_ms=20000, max_steps=400000, max_paths=200000,
                 deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', min(1500, query_ms))
        self.query_ms = query_ms
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.trail = []
        self.pos = 0
        self.model = None
        self.steps = 0
        self.dead = False
        self.rnd = []
        # statistics
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.events = 0
        self.branches = 0
        self.aborted = 0
        self.checks_proved = 0
        self.checks_trivial = 0
        self.check_unknown = []
        self.concretized = {}
        self.functions = set()
        self.violations = []
        self.reached = {}
        self.exhausted = False
        # per path
        self.inputs = []
        self.names = {}
        self.path_log = []
        self.consts = {}
        self.notes = []

    # ------------------------------------------------------------ solver
    def _check(self, *assumptions):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        t = time.time()
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            # second opinion: a fresh non incremental solver
            s = z3.Solver()
            s.set('timeout', self.query_ms)
            s.add(self.solver.assertions())
            s.add(*assumptions)
            r = s.check()
            self.solver_s += time.time() - t
            self.queries += 1
            if r == z3.sat:
                self.sat += 1
                return r, s.model()
            if r == z3.unsat:
                self.unsat += 1
                return r, None
            self.unknown += 1
            return r, None
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
            return r, self.solver.model()
        self.unsat += 1
        return r, None

    def get_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort('infeasible')
            if r == z3.unknown:
                raise EngineError('unknown path condition')
            self.model = m
        return self.model

    def _push(self, ev):
        self.trail.append(ev)
        self.solver.push()
        if ev.cond is not None:
            self.solver.add(ev.cond if ev.choice else z3.Not(ev.cond))
        self.pos += 1
        self.events += 1

    def _next(self, kind):
        ev = self.trail[self.pos]
        if ev.kind != kind:
            raise EngineError('nondeterministic re-execution: %s instead of %s'
                              % (kind, ev.kind))
        self.pos += 1
        return ev

    def _alive(self):
        if self.dead:
            raise PathAbort('dead path')

    # ------------------------------------------------------------ decisions
    def branch(self, cond):
        """Decide a symbolic condition; explores both sides."""
        self._alive()
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            ev = self._next('branch')
            if not ev.cond.eq(cond):
                raise EngineError('nondeterministic re-execution: %s / %s'
                                  % (ev.cond, cond))
            return ev.choice
        self.branches += 1
        m = self.get_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r, m2 = self._check(other)
        if r == z3.unknown:
            self.notes.append('unknown branch')
        alt = r != z3.unsat
        ev = Event('branch', cond, side, alt, None)
        ev.data = m2
        self._push(ev)
        return side

    def assume(self, cond):
        self._alive()
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort('assume')
        if self.pos < len(self.trail):
            ev = self._next('assume')
            return
        self._push(Event('assume', cond, True, False))
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
        self.get_model()

    def pick(self, n):
        """Unconstrained n-way choice."""
        self._alive()
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            return self._next('pick').choice
        self.branches += 1
        self._push(Event('pick', None, 0, n - 1))
        return 0

    def value(self, term, conv):
        """Concretise a term: enumerate all its feasible values by forking."""
        self._alive()
        s = z3.simplify(term)
        if z3.is_int_value(s) or z3.is_rational_value(s) or \
                z3.is_bv_value(s):
            return conv(s)
        while True:
            if self.pos < len(self.trail):
                ev = self._next('value')
                if ev.choice:
                    return conv(ev.data[0])
                continue
            m = self.get_model()
            v = m.eval(term, model_completion=True)
            cond = term == v
            r, m2 = self._check(z3.Not(cond))
            self.branches += 1
            ev = Event('value', cond, True, r != z3.unsat)
            ev.data = (v, m2)
            self._push(ev)
            return conv(v)

    # ------------------------------------------------------------ checks
    def prove(self, cond):
        """Is cond implied by the path condition?  None or a model of the
        negation; 'unknown' if undecided."""
        self._alive()
        if z3.is_true(cond):
            self.checks_trivial += 1
            return None
        r, m = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.checks_proved += 1
            return None
        if r == z3.unknown:
            return 'unknown'
        return m

    def once(self):
        """True if execution is past the prefix replayed from earlier runs."""
        return self.pos >= len(self.trail)

    def mark(self, data):
        """An event without alternatives (remembers that a check was done)."""
        if self.pos < len(self.trail):
            return self._next('mark').data
        self._push(Event('mark', None, True, False, None, data))
        return None

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            if self.dead:
                raise PathAbort('dead')
            raise StepLimit('more than %d steps' % self.max_steps)

    # ------------------------------------------------------------ main loop
    def explore(self, run):
        """run(engine) executes one path; it must not raise Control."""
        while True:
            self.pos = 0
            self.steps = 0
            self.dead = False
            self.inputs = []
            self.names = {}
            self.path_log = []
            self.notes = []
            run(self)
            self.paths += 1
            # drop events not reached in this run (possible after an abort)
            while self.trail and not self.trail[-1].alt:
                self.trail.pop()
                self.solver.pop()
            if not self.trail:
                self.exhausted = True
                return
            if self.paths >= self.max_paths:
                return
            ev = self.trail[-1]
            self.solver.pop()
            self.solver.push()
            if ev.kind == 'pick':
                ev.choice += 1
                ev.alt -= 1
                self.model = None
            elif ev.kind == 'branch':
                ev.choice = not ev.choice
                ev.alt = False
                self.solver.add(ev.cond if ev.choice else z3.Not(ev.cond))
                self.model = ev.data
                ev.data = None
            elif ev.kind == 'value':
                ev.choice = False
                ev.alt = False
                self.solver.add(z3.Not(ev.cond))
                self.model = ev.data[1]
            else:
                raise EngineError('bad event')
            self.events += 1


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e
