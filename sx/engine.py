"""Path exploration. A harness is re-executed once per path; every branch on a symbolic condition is a decision, z3 says
which sides are feasible, and depth-first search flips the last decision with an unexplored feasible side."""
from time import perf_counter as clock

import z3


class Control(BaseException):
    """Steers the exploration; must not be swallowed by the code under test (see Engine.pending)."""


class Infeasible(Control):
    """The path condition became unsatisfiable (assume)."""


class Unsupported(Control):
    """An operation the engine has no exact model for."""


class Budget(Control):
    """Step or fork budget of one path exhausted."""


class Hang(Control):
    """The code did not terminate within the step bound of this harness."""


class StopPath(Control):
    """Harness ended the path early on purpose."""


CURRENT = None
TRACE = __import__('os').environ.get('SX_TRACE')


def cur():
    if CURRENT is None:
        raise RuntimeError("no engine active")
    return CURRENT


NONE = (None, None)
ADD, MUL, SUB, UMINUS, UNINT = z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_UNINTERPRETED
LE, GE, LT, GT, EQ, NOT = z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_NOT


def _scale(r, k):
    lo, hi = r
    lo = None if lo is None else lo * k
    hi = None if hi is None else hi * k
    return (lo, hi) if k >= 0 else (hi, lo)


def _plus(r, q):
    return (None if r[0] is None or q[0] is None else r[0] + q[0], None if r[1] is None or q[1] is None else r[1] + q[1])


def span(e, bounds):
    """An interval that contains every value of an integer term, from the declared ranges of its variables."""
    if z3.is_int_value(e):
        v = e.as_long()
        return (v, v)
    if not z3.is_app(e):
        return NONE
    k = e.decl().kind()
    if k == UNINT:
        return bounds.get(e.decl().name(), NONE) if e.num_args() == 0 else NONE
    if k == ADD:
        r = (0, 0)
        for c in e.children():
            r = _plus(r, span(c, bounds))
            if r[0] is None and r[1] is None:
                return r
        return r
    if k == MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        return _scale(span(e.arg(1), bounds), e.arg(0).as_long())
    if k == SUB and e.num_args() == 2:
        return _plus(span(e.arg(0), bounds), _scale(span(e.arg(1), bounds), -1))
    if k == UMINUS:
        return _scale(span(e.arg(0), bounds), -1)
    return NONE


def settled(c, bounds):
    """True or False if the declared ranges decide a comparison, else None."""
    if not z3.is_app(c):
        return None
    k = c.decl().kind()
    if k == NOT:
        r = settled(c.arg(0), bounds)
        return None if r is None else not r
    if k not in (LE, GE, LT, GT, EQ) or not z3.is_int(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    d = _plus(span(a, bounds), _scale(span(b, bounds), -1))     # a - b
    lo, hi = d
    if k == LE:
        return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
    if k == GE:
        return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
    if k == LT:
        return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
    if k == GT:
        return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    return None


class Decision(object):
    __slots__ = ("taken", "other", "nassert", "cond", "nlog", "hint")

    def __init__(self, taken, other, nassert, cond, nlog, hint):
        self.taken = taken
        self.nlog = nlog
        self.hint = hint
        self.other = other  # True: other side is (possibly) feasible and not explored yet
        self.nassert = nassert
        self.cond = cond


class Engine(object):
    def __init__(self, solver_timeout_ms=20000, max_steps=200000, max_decisions=4000):
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.solver_timeout = solver_timeout_ms
        self.asserted = []
        self.decisions = []
        self.log = []         # results of must(), reused when a prefix is re-executed
        self.stats = dict(paths=0, decisions=0, branches=0, queries=0, solver_s=0.0, unknown=0, infeasible=0,
                          unsupported=0, budget=0, hang=0, concretised=0)
        self.max_steps = max_steps
        self.max_decisions = max_decisions
        self.rand = None
        self._reset_path()

    # ---- path state
    def _reset_path(self):
        self.pos = 0
        self.nadd = 0
        self.logpos = 0
        self.names = {}
        self.steps = 0
        self.pending = None
        self.model = None
        self.inputs = []      # (name, kind, payload) declared by the harness on this path
        self.selcache = {}
        self.packs = {}
        self.defs = {}
        self.notes = []
        self.bounds = {}      # declared ranges of integer variables

    def start_path(self):
        """Prepare to re-execute under the current decision prefix."""
        self._reset_path()

    def raise_control(self, exc):
        if self.pending is None:
            self.pending = exc
        raise self.pending

    def check_pending(self):
        if self.pending is not None:
            raise self.pending

    def tick(self, n=1):
        if self.pending is not None:
            raise self.pending
        self.steps += n
        if self.steps > self.max_steps:
            self.raise_control(Hang("step bound of %d exceeded" % self.max_steps))

    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "%s#%d" % (base, k)

    # ---- solver
    def _check(self, *assumptions):
        t = clock()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += clock() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def add(self, expr):
        """Conjoin a constraint that is true by construction or assumed."""
        if self.nadd < len(self.asserted):
            if not self.asserted[self.nadd].eq(expr):
                raise RuntimeError("non-deterministic harness: %s vs %s" % (self.asserted[self.nadd], expr))
            self.nadd += 1
            return
        self.solver.add(expr)
        self.asserted.append(expr)
        self.nadd += 1
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None

    def assume(self, expr):
        if self.pending is not None:
            raise self.pending
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            self.stats["infeasible"] += 1
            self.raise_control(Infeasible())
        replay = self.nadd < len(self.asserted)
        self.add(expr)
        if not replay and self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stats["infeasible"] += 1
                self.raise_control(Infeasible())
            if r == z3.sat:
                self.model = self.solver.model()

    def assume_or_skip(self, expr):
        """Re-execution of an assume that was made on an earlier path."""
        expr = z3.simplify(expr)
        if not z3.is_true(expr):
            self.add(expr)

    def sat_model(self):
        if self.model is None:
            if self._check() != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    def must(self, expr):
        """True if expr holds on every value of this path (solver-decided, no fork). Deterministic."""
        if self.pending is not None:
            raise self.pending
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        r = settled(expr, self.bounds)
        if r is not None:
            return r
        if self.logpos < len(self.log):
            self.logpos += 1
            return self.log[self.logpos - 1]
        if self.model is not None and z3.is_false(self.model.eval(expr, model_completion=True)):
            r = False
        else:
            r = self._check(z3.Not(expr)) == z3.unsat
        self.log.append(r)
        self.logpos += 1
        return r

    def fork(self, cond, hint=None):
        if self.pending is not None:
            raise self.pending
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r = settled(cond, self.bounds)
        if r is not None:
            return r
        self.stats["branches"] += 1
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if not d.cond.eq(cond):
                raise RuntimeError("non-deterministic harness at branch %d: %s vs %s" % (self.pos, d.cond, cond))
            self.pos += 1
            fresh = self.nadd >= len(self.asserted)
            c = cond if d.taken else z3.Not(cond)
            if fresh:
                self.solver.push()
            self.add(c)
            return d.taken
        if self.pos >= self.max_decisions:
            self.raise_control(Budget("more than %d decisions on one path" % self.max_decisions))
        m = self.sat_model()
        ncond = z3.Not(cond)
        if m is not None:
            guess = z3.is_true(m.eval(cond, model_completion=True))
            r = self._check(ncond if guess else cond)
            other = r != z3.unsat
            taken = guess
        else:
            rt = self._check(cond)
            rf = self._check(ncond)
            if rt == z3.unsat and rf == z3.unsat:
                self.stats["infeasible"] += 1
                self.raise_control(Infeasible())
            taken = rt != z3.unsat
            other = (rf != z3.unsat) if taken else False
        self.decisions.append(Decision(taken, other, len(self.asserted), cond, len(self.log), hint))
        self.stats["decisions"] += 1
        self.pos += 1
        self.solver.push()
        self.add(cond if taken else ncond)
        return taken

    def backtrack(self):
        """Flip the last open decision. False when the tree is exhausted."""
        while self.decisions:
            d = self.decisions[-1]
            self.solver.pop()
            del self.asserted[d.nassert:]
            del self.log[d.nlog:]
            if d.other:
                d.taken = not d.taken
                d.other = False
                return True
            self.decisions.pop()
        return False

    def concretise(self, expr, what="value", cap=64):
        """Case split on the values of an integer expression, in model order. Exhaustive unless more than `cap` values."""
        if TRACE:
            import sys, traceback
            sys.stderr.write("CONCRETISE %s\n%s\n" % (what, "".join(traceback.format_stack(limit=9)[:-1])))
        for _ in range(cap):
            if self.pos < len(self.decisions):
                v = self.decisions[self.pos].hint
            else:
                m = self.sat_model()
                if m is None:
                    self.raise_control(Unsupported("cannot concretise " + what))
                v = m.eval(expr, model_completion=True).as_long()
            if self.fork(expr == v, hint=v):
                return v
        self.stats["concretised"] += 1
        self.raise_control(Budget("more than %d values for %s" % (cap, what)))
