"""Path exploration: decisions, path conditions, solver queries.

One Path object lives for one execution of a harness.  Every branch on a
symbolic truth value calls Path.fork(); the explorer re-executes the harness
with a recorded decision prefix until no unexplored branch is left.
"""
import os
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param('smt.random_seed', int(os.environ.get('VERIF_SEED', '1') or 1) % 1000)


class PathEnd(BaseException):
    """Control flow: stop this path (never caught by `except Exception`)."""

    def __init__(self, *a):
        super().__init__(*a)
        if CURRENT is not None and CURRENT.ended is None:
            CURRENT.ended = self      # noticed even if the code swallows it


class PathInfeasible(PathEnd):
    pass


class Unsupported(PathEnd):
    """The code did something the symbolic values do not model."""


class PathBudget(PathEnd):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.checks = 0
        self.checks_discharged = 0

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


CURRENT = None          # the Path being executed
LAST = None
SLOW = os.environ.get('VERIF_SLOW')      # debugging aid: file for queries that take over a second


def current():
    if CURRENT is None:
        raise RuntimeError("no symbolic path is active")
    return CURRENT


class Path:
    QUERY_TIMEOUT_MS = 20000

    def __init__(self, prefix=(), stats=None, max_decisions=4000):
        self.prefix = list(prefix)
        self.decisions = []          # list of (choice, forced)
        self.pending = []            # prefixes left to explore
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', self.QUERY_TIMEOUT_MS)
        self.model = None            # a model of the path condition, if known
        self.inputs = {}             # name -> (kind, python value | z3 expr | list)
        self.ranges = {}             # z3 ast id -> (lo, hi)
        self.prov = {}               # z3 ast id of a digit char -> (expr, width, pos)
        self.fields = {}             # z3 ast id of an instant -> civil fields
        self.keep = []               # keep ASTs alive (ids are reused otherwise)
        self.placeholders = []       # rendered symbolic values
        self.pc_size = 0
        self.max_decisions = max_decisions
        self.unknowns = 0
        self.candidates = []         # failed checks: (message, model inputs)
        self.observed = []
        self.reached = set()
        self.checks = []             # (message, verdict)
        self.lost = []               # paths given up because of `unknown`
        self.counters = {}
        self.ended = None
        self.fresh = 0

    # ---- solver ---------------------------------------------------------
    def add(self, expr):
        self.solver.add(expr)
        self.pc_size += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(expr, model_completion=True)):
                self.model = None

    def query(self, expr=None):
        """sat / unsat / unknown for pc (and expr)."""
        t = time.perf_counter()
        self.solver.push()
        try:
            if expr is not None:
                self.solver.add(expr)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        spent = time.perf_counter() - t
        self.stats.solver_s += spent
        if SLOW and spent > 1:
            with open(SLOW, 'a') as f:
                f.write('; %.1f s %s\n%s\n(push)(assert %s)(check-sat)(pop)\n' % (spent, r, self.solver.sexpr(), expr.sexpr() if expr is not None else 'true'))
        self.stats.queries += 1
        name = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        setattr(self.stats, name, getattr(self.stats, name) + 1)
        if name == 'unknown':
            self.unknowns += 1
        return name, m

    def get_model(self):
        if self.model is None:
            r, m = self.query()
            if r == 'unsat':
                raise PathInfeasible()
            if r != 'sat':
                self.lost.append('solver returned unknown for a model')
                raise PathBudget('no model')
            self.model = m
        return self.model

    def feasible(self, expr):
        """True / False / None(unknown); may update the cached model."""
        if self.model is not None:
            if z3.is_true(self.model.eval(expr, model_completion=True)):
                return True
        r, m = self.query(expr)
        if r == 'sat':
            if self.model is None:
                self.model = m
            return True
        if r == 'unsat':
            return False
        return None

    # ---- decisions ------------------------------------------------------
    def _record(self, choice, forced):
        self.decisions.append((choice, forced))
        if len(self.decisions) > self.max_decisions:
            raise PathBudget('more than %d decisions on one path' % self.max_decisions)

    def fork(self, expr):
        """Decide a z3 Bool; explores both sides when both are feasible."""
        if not isinstance(expr, bool):
            expr = z3.simplify(expr)
            if z3.is_true(expr):
                return True
            if z3.is_false(expr):
                return False
        else:
            return expr
        i = len(self.decisions)
        if i < len(self.prefix):
            choice, forced = self.prefix[i]
            self._record(choice, forced)
            if not forced:
                self.add(expr if choice else z3.Not(expr))
            return choice
        neg = z3.Not(expr)
        t = self.feasible(expr)
        if t is False:
            # pc implies not expr
            self._record(False, True)
            return False
        f = self.feasible(neg)
        if f is False:
            self._record(True, True)
            return True
        if t is None or f is None:
            self.lost.append('solver returned unknown on a branch')
        self.stats.forks += 1
        # prefer the side of the current model: keeps it valid
        choice = True
        if self.model is not None and z3.is_false(self.model.eval(expr, model_completion=True)):
            choice = False
        self.pending.append(list(self.decisions) + [(not choice, False)])
        self._record(choice, False)
        self.add(expr if choice else neg)
        return choice

    def choose(self, n):
        """n-way unconstrained nondeterministic choice (all explored)."""
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            choice, forced = self.prefix[i]
            self._record(choice, forced)
            return choice
        self.stats.forks += n - 1
        for k in range(n - 1, 0, -1):
            self.pending.append(list(self.decisions) + [(k, False)])
        self._record(0, False)
        return 0

    def define(self, expr):
        """A definition of fresh variables: satisfiable whenever pc is."""
        self.solver.add(expr)
        self.pc_size += 1
        self.model = None

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise PathInfeasible()
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathInfeasible()
        self.add(expr)
        if self.model is None and len(self.decisions) >= len(self.prefix):
            r, m = self.query()
            if r == 'unsat':
                raise PathInfeasible()
            self.model = m

    # ---- checks ---------------------------------------------------------
    def check(self, expr, message):
        """Ask the solver whether expr can be false here."""
        self.stats.checks += 1
        if not isinstance(expr, bool):
            expr = z3.simplify(expr)
            if z3.is_true(expr):
                expr = True
            elif z3.is_false(expr):
                expr = False
        if expr is True:
            self.stats.checks_discharged += 1
            self.checks.append((message, 'holds'))
            return True
        if expr is False:
            r, m = ('sat', self.get_model())
        else:
            r, m = self.query(z3.Not(expr))
        if r == 'unsat':
            self.stats.checks_discharged += 1
            self.checks.append((message, 'holds'))
            return True
        if r == 'unknown':
            self.lost.append('solver returned unknown on check: ' + message)
            self.checks.append((message, 'unknown'))
            return True
        self.checks.append((message, 'fails'))
        self.candidates.append((message, self.concretise_inputs(m)))
        # carry on under the assumption that it held, if possible
        if expr is False:
            raise PathEnd()
        self.model = None
        self.assume(expr)
        return False

    # ---- inputs ---------------------------------------------------------
    def concretise_inputs(self, model):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'int':
                out[name] = _ev(model, v)
            elif kind == 'str':
                out[name] = ''.join(chr(_ev(model, c)) for c in v)
            else:
                out[name] = v
        return out


CHARS = [ord(c) for c in '<&"\' .-019aAzZ:>\n\t,;/x'] + [0xe9, 0x130]


def variant(p, rnd, tries):
    """Another model of the path, with unusual values for some of its inputs; None when there is none."""
    todo = []
    for name, (kind, v) in p.inputs.items():
        if kind == 'int' and not isinstance(v, int):
            todo.append((v, None))
        elif kind == 'str':
            todo += [(c, CHARS) for c in v if not isinstance(c, int)]
    rnd.shuffle(todo)
    m = None
    end = time.perf_counter() + 0.3
    p.solver.push()
    p.solver.set('timeout', 100)
    try:
        for v, pool in todo[:tries]:
            lo, hi = p.ranges.get(v.get_id(), (None, None))
            for _ in range(2):
                if pool:
                    want = rnd.choice(pool)
                else:
                    a, b = (lo if lo is not None else -10 ** 6), (hi if hi is not None else 10 ** 6)
                    want = rnd.choice([a, b, rnd.randint(a, b), min(max(0, a), b), min(max(1, a), b)])
                if (lo is not None and want < lo) or (hi is not None and want > hi):
                    continue
                p.solver.push()
                p.solver.add(v == want)
                p.stats.queries += 1
                if p.solver.check() == z3.sat:
                    m = p.solver.model()
                    break               # keep this value: the scope stays open
                p.solver.pop()
            if time.perf_counter() > end:
                break
        return m
    finally:
        while p.solver.num_scopes():
            p.solver.pop()
        p.solver.set('timeout', p.QUERY_TIMEOUT_MS)


def _ev(model, v):
    if isinstance(v, int):
        return v
    r = model.eval(v, model_completion=True)
    return r.as_long()


def run_path(fn, prefix, stats, **kw):
    """Execute fn(path) once.  Returns (path, outcome, exception)."""
    global CURRENT, LAST
    p = Path(prefix, stats, **kw)
    CURRENT = LAST = p
    try:
        fn(p)
        return p, 'done', None
    except PathInfeasible:
        return p, 'infeasible', None
    except Unsupported as e:
        return p, 'unsupported', e
    except PathBudget as e:
        return p, 'budget', e
    except PathEnd:
        return p, 'stopped', None
    except RecursionError as e:
        return p, 'exception', e
    except Exception as e:  # an exception of the code under test / harness
        return p, 'exception', e
    finally:
        CURRENT = None


def outcome_of(e):
    if isinstance(e, PathInfeasible):
        return 'infeasible'
    if isinstance(e, Unsupported):
        return 'unsupported'
    if isinstance(e, PathBudget):
        return 'budget'
    return 'stopped'
