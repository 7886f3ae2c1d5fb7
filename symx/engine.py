"""Replay-based symbolic executor.

The code under test is the real Python code, executed by CPython.  Inputs are proxy
objects around z3 terms; every time the code branches on one of them the engine asks
the solver which sides are feasible under the path condition, and explores all of
them by re-executing the harness (depth first).  An assertion is a solver query:
`path condition and not property` must be unsatisfiable on every path.

Schedule / fault / configuration variables are finite-domain z3 integers: the engine
forks on them in the same way.

`ConcreteEngine` runs the very same harness on plain Python values taken from a
solver model: that is how a counterexample is replayed on the unmodified code.
"""
import time as _time
import z3

perf = _time.perf_counter


class Abort(BaseException):
    """Ends the current path (infeasible, bound reached, or tear-down)."""

    def __init__(self, why=''):
        super().__init__(why)
        self.why = why


class Unsupported(BaseException):
    """The code did something the proxies cannot represent: inconclusive."""


class Found(BaseException):
    """A property assertion failed on this path."""


CUR = None  # the engine of the path being executed


# --------------------------------------------------------------------------- proxies
def _num(o):
    """z3 term of a number-like object, or None"""
    if type(o) is SymInt:
        return o.t
    if type(o) is bool:
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(int(o))
    if type(o) is SymBool:
        return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, float):
        return z3.RealVal(repr(o)) if o == o and o not in (_INF, -_INF) else None
    return None


_INF = float('inf')


def _cmp(op):
    def f(self, o):
        if isinstance(o, float) and o in (_INF, -_INF):
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False,
                    'ne': True}[op]
        b = _num(o)
        if b is None:
            return NotImplemented
        a = self.t
        return SymBool({'lt': lambda: a < b, 'le': lambda: a <= b,
                        'gt': lambda: a > b, 'ge': lambda: a >= b,
                        'eq': lambda: a == b, 'ne': lambda: a != b}[op]())
    return f


def _arith(fn, swap=False):
    def f(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        a = self.t
        if swap:
            a, b = b, a
        r = fn(a, b)
        if z3.is_real(r):
            raise CUR.stop(Unsupported('real arithmetic on a symbolic integer'))
        return SymInt(z3.simplify(r))
    return f


def _floordiv(a, b):
    if not z3.is_int_value(b) or b.as_long() <= 0:
        raise CUR.stop(Unsupported('division by a symbolic or non-positive value'))
    return a / b


def _mod(a, b):
    if not z3.is_int_value(b) or b.as_long() <= 0:
        raise CUR.stop(Unsupported('modulo by a symbolic or non-positive value'))
    return a % b


class SymInt:
    """Any mathematical integer (Python int) as a z3 term."""

    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __lt__, __le__, __gt__ = _cmp('lt'), _cmp('le'), _cmp('gt')
    __ge__, __eq__, __ne__ = _cmp('ge'), _cmp('eq'), _cmp('ne')
    __add__, __radd__ = _arith(lambda a, b: a + b), _arith(lambda a, b: a + b, True)
    __sub__, __rsub__ = _arith(lambda a, b: a - b), _arith(lambda a, b: a - b, True)
    __mul__, __rmul__ = _arith(lambda a, b: a * b), _arith(lambda a, b: a * b, True)
    __floordiv__, __mod__ = _arith(_floordiv), _arith(_mod)

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def __index__(self):
        return CUR.concretize(self.t)

    __int__ = __trunc__ = __index__

    def __float__(self):
        return float(CUR.concretize(self.t))

    def __hash__(self):
        return 0  # equality decides (dict/set semantics do not depend on the hash)

    def __repr__(self):
        return '<int>'  # counterexamples are reported from their replay

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        # usable by copy/pickle inside one process only
        return _unpickle, (CUR.keep(self),)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.branch(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        return SymBool(z3.And(self.t, term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, term(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == term(o))
        return NotImplemented

    def __hash__(self):
        return 0

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return '<bool>'


def _unpickle(i):
    return CUR.kept[i]


class Key:
    """A key of an arbitrary totally ordered type (string, tuple, timestamp...):
    it can only be compared with its own kind.  Wraps SymInt or int."""

    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v if type(o) is Key else NotImplemented

    def __le__(self, o):
        return self.v <= o.v if type(o) is Key else NotImplemented

    def __gt__(self, o):
        return self.v > o.v if type(o) is Key else NotImplemented

    def __ge__(self, o):
        return self.v >= o.v if type(o) is Key else NotImplemented

    def __eq__(self, o):
        return self.v == o.v if type(o) is Key else NotImplemented

    def __ne__(self, o):
        return self.v != o.v if type(o) is Key else NotImplemented

    def __hash__(self):
        return 0

    def __repr__(self):
        return f'Key({self.v!r})'


def term(o):
    """Boolean z3 term of a python/symbolic boolean"""
    if type(o) is SymBool:
        return o.t
    if z3.is_bool(o) if isinstance(o, z3.ExprRef) else False:
        return o
    return z3.BoolVal(bool(o))


# --------------------------------------------------------------------------- engines
class Base:
    concrete = False
    stop_exc = None
    stopped = False  # set once the path has ended: code only unwinds from there

    def __init__(self):
        self.covers = {}
        self.log = []
        self.kept = []
        self.tag = ''

    def keep(self, o):
        self.kept.append(o)
        return len(self.kept) - 1

    def flag(self, name):
        return bool(self.choice(name, 2))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def stop(self, exc):
        if not self.stopped:
            self.stop_exc = exc
        self.stopped = True
        return exc

    def fail(self, label, detail=''):
        self.check(False, label, detail)


def _eval_bool(model, t):
    return z3.is_true(model.eval(t, model_completion=True))


class Stats:
    def __init__(self):
        self.paths = self.aborted = self.decisions = self.choices = 0
        self.queries = self.asserts = self.solver_asserts = 0
        self.solver_s = 0.0
        self.bound_hits = 0
        self.validated = 0
        self.covers = {}
        self.incomplete = []


class Engine(Base):
    """Explores every path of a harness, depth first.

    The trail holds one entry per decision of the current path: ``[kind, what, value,
    alternative, scoped]``.  Entries that add a constraint own one solver scope.
    """

    MAX_CONCRETE = 128

    def __init__(self, deadline=None):
        super().__init__()
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.trail = []
        self.pos = 0
        self.names = {}
        self.vars = {}
        self.model = None  # a model of the path condition, when known
        self.violation = None
        self.deadline = deadline

    # ---- solver access
    def _check(self, *extra):
        t = perf()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += perf() - t
        if r == z3.unknown:
            raise self.stop(Unsupported(
                'solver answered unknown: ' + self.solver.reason_unknown()))
        return m

    def _model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise self.stop(Abort('infeasible'))
        return self.model

    def _push(self, entry, cond=None):
        if cond is not None:
            self.solver.push()
            self.solver.add(cond)
            entry.append(True)
        self.trail.append(entry)

    def _old(self):
        """The recorded entry when replaying a prefix, else None"""
        p = self.pos
        self.pos = p + 1
        return self.trail[p] if p < len(self.trail) else None

    # ---- symbolic inputs
    def int(self, name, lo=None, hi=None):
        assert name not in self.names, name
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Int(name)
        self.names[name] = v
        if lo is not None:
            self._assume(v >= lo)
        if hi is not None:
            self._assume(v <= hi)
        return SymInt(v)

    def key(self, name):
        return Key(self.int(name))

    def choice(self, name, n):
        """A finite-domain variable: every value in range(n) is explored."""
        if n <= 1 or self.stopped:
            return 0
        e = self._old()
        if e is None:
            e = ['choice', (name, n), 0, n - 1]
            self.stats.choices += 1
            self._push(e)
        elif e[0] != 'choice' or e[1] != (name, n):
            raise self.stop(Unsupported(f'nondeterministic harness: {e[:3]} vs {name},{n}'))
        return e[2]

    # ---- path condition
    def _assume(self, cond):
        if self._old() is not None:
            return False
        self._push(['assume', None, None, None], cond)
        if self.model is not None and not _eval_bool(self.model, cond):
            self.model = None
        return True

    def assume(self, cond):
        if self.stopped:
            return
        if type(cond) is bool:
            if not cond:
                raise self.stop(Abort('infeasible'))
        elif self._assume(term(cond)):
            self._model()

    def branch(self, cond):
        if self.stopped:
            raise Abort('stopped')
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        e = self._old()
        if e is not None:
            if e[0] != 'branch' or not e[1].eq(cond):
                raise self.stop(Unsupported(f'nondeterministic harness: {e[:3]} vs {cond}'))
            return e[2]
        val = _eval_bool(self._model(), cond)
        alt = self._check(z3.Not(cond) if val else cond)
        if alt is None:  # implied by the path condition
            self._push(['branch', cond, val, None])
        else:
            self.stats.decisions += 1
            self._push(['branch', cond, val, alt], cond if val else z3.Not(cond))
        return val

    def concretize(self, t):
        """Fork over every feasible value of an integer term."""
        if self.stopped:
            raise Abort('stopped')
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        e = self._old()
        if e is not None:
            if e[0] != 'conc' or not e[1].eq(t):
                raise self.stop(Unsupported(f'nondeterministic harness: {e[:3]} vs {t}'))
            return e[2]
        v = self._model().eval(t, model_completion=True).as_long()
        self.stats.decisions += 1
        self._push(['conc', t, v, [v]], t == v)
        return v

    # ---- assertions
    def check(self, cond, label, detail=''):
        if self.stopped:
            return
        self.stats.asserts += 1
        if type(cond) is bool or cond is None:
            if cond:
                return
            self._violate(self._model(), label, detail)
            raise self.stop(Found(label))
        t = z3.simplify(term(cond))
        if z3.is_true(t):
            return
        if self._old() is not None:
            return
        self.stats.solver_asserts += 1
        m = self._check(z3.Not(t))
        if m is not None:
            self._violate(m, label, detail)
            raise self.stop(Found(label))
        self._push(['assert', None, None, None])

    def _violate(self, model, label, detail):
        self.violation = dict(label=label, detail=str(detail)[:2000],
                              inputs=self.assignment(model))

    def assignment(self, model):
        vals = {n: model.eval(v, model_completion=True).as_long()
                for n, v in self.names.items()}
        ch = [[e[1][0], e[2]] for e in self.trail[: self.pos] if e[0] == 'choice']
        return dict(values=vals, choices=ch)

    # ---- exploration
    def _backtrack(self):
        """Move to the next unexplored path; False when there is none."""
        while self.trail:
            e = self.trail.pop()
            if len(e) > 4:
                self.solver.pop()
            if e[0] == 'choice' and e[2] < e[3]:
                self._push(['choice', e[1], e[2] + 1, e[3]])
                self.model = None
                return True
            if e[0] == 'branch' and e[3] is not None:
                self._push(['branch', e[1], not e[2], None],
                           z3.Not(e[1]) if e[2] else e[1])
                self.model = e[3]
                return True
            if e[0] == 'conc':
                m = self._check(*[e[1] != v for v in e[3]])
                if m is not None:
                    if len(e[3]) >= self.MAX_CONCRETE:
                        raise self.stop(Unsupported(f'too many values to concretize {e[1]}'))
                    v = m.eval(e[1], model_completion=True).as_long()
                    self._push(['conc', e[1], v, e[3] + [v]], e[1] == v)
                    self.model = m
                    return True
        return False

    def explore(self, harness, max_paths=10**9, on_path=None):
        """Run `harness(self)` on every path.  Returns the violation or None."""
        global CUR
        st = self.stats
        while True:
            self.pos = 0
            self.names = {}
            self.covers = {}
            self.log = []
            self.kept = []
            self.stopped = False
            CUR = self
            done = False
            try:
                harness(self)
                done = True
            except Found:
                pass
            except Abort as a:
                st.aborted += 1
                if a.why == 'bound':
                    st.bound_hits += 1
            if self.violation is not None:
                st.paths += 1
                return self.violation
            if done:
                st.paths += 1
                for k, v in self.covers.items():
                    st.covers[k] = st.covers.get(k, 0) + v
                if on_path is not None:
                    on_path(self)
            if self.deadline is not None and perf() > self.deadline:
                st.incomplete.append('time limit reached')
                return None
            if st.paths + st.aborted >= max_paths:
                st.incomplete.append('path limit reached')
                return None
            if not self._backtrack():
                return None


class ConcreteEngine(Base):
    """Runs a harness on the plain values of one assignment."""

    concrete = True

    def __init__(self, inputs, strict=True):
        super().__init__()
        self.values = inputs['values']
        self.choices = list(inputs['choices'])
        self.ci = 0
        self.failed = None
        self.strict = strict

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            raise self.stop(Unsupported(f'no value for {name}'))
        return self.values[name]

    def key(self, name):
        return Key(self.int(name))

    def choice(self, name, n):
        if n <= 1 or self.stopped:
            return 0
        if self.ci >= len(self.choices):
            return 0
        nm, v = self.choices[self.ci]
        self.ci += 1
        if nm != name or v >= n:
            raise self.stop(Unsupported(f'replay diverged at choice {name} (recorded {nm}={v})'))
        return v

    def assume(self, cond):
        if not cond:
            raise self.stop(Abort('infeasible'))

    def check(self, cond, label, detail=''):
        if self.stopped:
            return
        if not cond:
            self.failed = dict(label=label, detail=str(detail)[:2000])
            raise self.stop(Found(label))

    def run(self, harness):
        global CUR
        CUR = self
        try:
            harness(self)
        except Found:
            pass
        except Abort as a:
            self.log.append(f'abort:{a.why}')
        return self.failed
