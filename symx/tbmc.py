"""Bounded model checking of lock code over all interleavings, by SMT.

1. Extraction: each thread's program (real code: acquire ... release) is executed
   symbolically on its own.  Every access to shared state is an event: operations on
   stand-in locks and reads / writes of the integer and boolean attributes of the lock's
   objects.  A read returns an unconstrained symbol; branching on it forks the path.  The
   paths of a thread form a tree of events.
2. Encoding: every event has an `executed` boolean and a clock.  Program order, lock
   semantics (an acquire needs the lock free; counts of executed acquires and releases
   with smaller clocks), read-from (a read sees the latest executed write with a smaller
   clock) and branch conditions are constraints.  An assignment is one partial execution
   under one schedule; the solver ranges over all of them.
3. Queries about reachable states are solver calls; a model is an interleaving, which is
   replayed on the real code.
"""
from .runtime import real_time as _time

import z3

from . import engine as E
from . import sched as S


class Node:
    __slots__ = ('kind', 'obj', 'val', 'kids', 'parent', 'tid', 'x', 'c', 'n')

    def __init__(self, kind, obj=None, val=None, parent=None, tid=None):
        self.kind, self.obj, self.val = kind, obj, val
        self.kids, self.parent, self.tid = [], parent, tid

    def same(self, kind, obj, val):
        if self.kind != kind or self.obj != obj:
            return False
        a, b = self.val, val
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return type(a) is type(b) and a == b


class RecEngine(E.Engine):
    rec = None

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r = super().branch(cond)
        if self.rec is not None:
            self.rec('br', None, cond if r else z3.Not(cond))
        return r


class Shared:
    """The shared objects reachable from a lock object, with access interception."""

    def __init__(self, root, prefix='stream2py', skip=()):
        self.locks = {}  # id -> index
        self.vars = {}  # (id, attr) -> (index, initial value)
        self.keep = []
        self.on = None  # the interceptor
        todo, seen = [root], set()
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            self.keep.append(o)
            if isinstance(o, skip):
                continue
            if isinstance(o, S.Lock):
                self.locks[id(o)] = len(self.locks)
            elif type(o).__module__.split('.')[0] == prefix:
                attrs = dict(getattr(o, '__dict__', {}))
                for c in type(o).__mro__:
                    for a in getattr(c, '__slots__', ()) or ():
                        m = f'_{c.__name__}{a}' if a.startswith('__') else a
                        if hasattr(o, m):
                            attrs[m] = getattr(o, m)
                for a, v in attrs.items():
                    if isinstance(v, (bool, int)):
                        self.vars[id(o), a] = (len(self.vars), v)
                    else:
                        todo.append(v)
                self._swap(o)
            elif isinstance(o, (str, bytes, float, type(None), type)) or callable(o):
                pass
            else:
                raise E.Unsupported(f'shared state of type {type(o).__name__}')

    def _swap(self, o):
        sh, base = self, type(o)
        get, setv = base.__getattribute__, base.__setattr__

        def __getattribute__(self, a):
            if sh.on is not None and (id(self), a) in sh.vars:
                return sh.on.read(sh.vars[id(self), a], lambda: get(self, a))
            return get(self, a)

        def __setattr__(self, a, v):
            if sh.on is not None:
                k = sh.vars.get((id(self), a))
                if k is None:
                    if not a.startswith('_vx'):
                        raise E.Unsupported(f'write to unmodelled attribute {a}')
                elif sh.on.write(k, v, lambda: setv(self, a, v)):
                    return
            setv(self, a, v)

        def __delattr__(self, a):
            raise E.Unsupported('deletion of shared state')

        ns = dict(__getattribute__=__getattribute__, __setattr__=__setattr__,
                  __delattr__=__delattr__, __module__=base.__module__)
        if not hasattr(o, '__dict__'):
            ns['__slots__'] = ()
        try:
            o.__class__ = type(base.__name__, (base,), ns)
        except TypeError as x:
            raise E.Unsupported(f'cannot intercept {base.__name__}: {x}')


class Extractor:
    """Interceptor that records events and returns symbols"""

    MAX_EVENTS = 200

    def __init__(self, shared, eng, tid):
        self.sh, self.e, self.tid = shared, eng, tid

    def begin(self, root):
        self.cur = root
        self.n = 0

    def rec(self, kind, obj, val=None):
        self.n += 1
        if self.n > self.MAX_EVENTS:
            raise self.e.stop(E.Unsupported('too many events on a path'))
        for k in self.cur.kids:
            if k.same(kind, obj, val):
                self.cur = k
                return
        k = Node(kind, obj, val, self.cur, self.tid)
        self.cur.kids.append(k)
        self.cur = k

    # attributes
    def read(self, var, getter):
        if self.e.stopped:
            return getter()
        idx, init = var
        name = f't{self.tid}.{self.n}'
        v = self.e.int(name)
        self.rec('rd', idx, v.t)
        if isinstance(init, bool):
            return E.SymBool(v.t != 0)
        return v

    def write(self, var, v, setter):
        if self.e.stopped:
            return True
        t = E._num(v)
        if t is None:
            raise self.e.stop(E.Unsupported(f'write of {type(v).__name__}'))
        self.rec('wr', var[0], z3.simplify(t))
        return True

    # locks
    def _idx(self, lock):
        i = self.sh.locks.get(id(lock))
        if i is None:
            raise self.e.stop(E.Unsupported('a lock created during the run'))
        return i

    def acquire(self, lock, blocking, timeout):
        if self.e.stopped:
            raise E.Abort('stopped')
        i = self._idx(lock)
        if not blocking or (timeout is not None and timeout >= 0):
            if self.e.choice('try', 2):
                self.rec('held', i)
                return False
        self.rec('acq', i)
        return True

    def release(self, lock):
        if not self.e.stopped:
            self.rec('rel', self._idx(lock))
        return True

    def locked(self, lock):
        if self.e.choice('locked', 2):
            self.rec('held', self._idx(lock))
            return True
        self.rec('free', self._idx(lock))
        return False


def extract(make, programs, stats, skip=()):
    """Event trees: one per program.  make() builds the shared object; a program is a
    function (obj, mark)."""
    trees = []
    shared = None
    for tid, prog in enumerate(programs):
        root = Node('root', tid=tid)
        eng = RecEngine()
        obj = make()
        sh = Shared(obj, skip=skip)
        if shared is None:
            shared = sh
        if [len(sh.locks), sorted(v for v in sh.vars.values())] != \
                [len(shared.locks), sorted(v for v in shared.vars.values())]:
            raise E.Unsupported('construction is not deterministic')
        ex = Extractor(sh, eng, tid)

        def harness(e):
            ex.begin(root)
            e.rec = ex.rec
            sh.on = ex
            S.HOOK = ex
            try:
                prog(obj, lambda label: ex.rec('mark', label))
                ex.rec('end', None)
            except Exception as x:
                if not e.stopped:
                    ex.rec('exc', type(x).__name__ + ': ' + str(x)[:80])
            finally:
                sh.on = None
                S.HOOK = None
                e.rec = None

        eng.explore(harness, max_paths=4000)
        if eng.stats.incomplete or eng.stats.bound_hits:
            raise E.Unsupported('extraction incomplete')
        stats['paths'] = stats.get('paths', 0) + eng.stats.paths
        stats['queries'] = stats.get('queries', 0) + eng.stats.queries
        stats['solver_s'] = stats.get('solver_s', 0) + eng.stats.solver_s
        trees.append(root)
    return trees, shared


class Encoding:
    def __init__(self, trees, shared):
        self.trees = trees
        self.nlocks = len(shared.locks)
        self.init = {i: int(v) for i, v in shared.vars.values()}
        self.nodes = []
        self.cons = []
        for t, root in enumerate(trees):
            root.x, root.c = z3.BoolVal(True), z3.IntVal(-1)
            self._number(root, t)
        self.by_lock = {}
        self.by_var = {}
        for n in self.nodes:
            if n.kind in ('acq', 'rel', 'held', 'free'):
                self.by_lock.setdefault(n.obj, []).append(n)
            elif n.kind in ('rd', 'wr'):
                self.by_var.setdefault(n.obj, []).append(n)
        self._encode()

    def _number(self, node, t):
        for k in node.kids:
            i = len(self.nodes)
            k.n = i
            k.x = z3.Bool(f'x{i}')
            k.c = z3.Int(f'c{i}')
            self.nodes.append(k)
            self._number(k, t)

    def ordered(self, a, b):
        """Is a before b on every / no execution by program order?  True/False/None"""
        if a.tid != b.tid:
            return None
        m = b
        while m is not None:
            if m is a:
                return True
            m = m.parent
        m = a
        while m is not None:
            if m is b:
                return False
            m = m.parent
        return 'excl'  # different branches of one thread

    def before(self, a, b):
        """a is executed and comes before b"""
        o = self.ordered(a, b)
        if o is True:
            return z3.BoolVal(True) if a is not b else z3.BoolVal(False)
        if o in (False, 'excl'):
            return z3.BoolVal(False)
        return z3.And(a.x, a.c < b.c)

    def count_before(self, lock, pred):
        """Number of executed acquires minus releases of lock satisfying pred"""
        ts = []
        for n in self.by_lock.get(lock, []):
            if n.kind in ('acq', 'rel'):
                p = z3.simplify(pred(n))
                if not z3.is_false(p):
                    ts.append(z3.If(p, z3.IntVal(1 if n.kind == 'acq' else -1),
                                    z3.IntVal(0)))
        return z3.Sum(ts) if ts else z3.IntVal(0)

    def _encode(self):
        add = self.cons.append
        for n in self.nodes:
            add(n.c >= 0)
            p = n.parent
            add(z3.Implies(n.x, p.x))
            if p.kind != 'root':
                add(n.c > p.c)
            if len(p.kids) > 1:
                for k in p.kids:
                    if k.n < n.n:
                        add(z3.Not(z3.And(k.x, n.x)))
            if n.kind == 'br':
                add(z3.Implies(n.x, n.val))
            elif n.kind in ('acq', 'rel', 'held', 'free'):
                cnt = self.count_before(n.obj, lambda m: self.before(m, n))
                want = 1 if n.kind in ('rel', 'held') else 0
                add(z3.Implies(n.x, cnt == want))
            elif n.kind == 'rd':
                self._read(n, add)
        for group in list(self.by_lock.values()) + list(self.by_var.values()):
            for i, a in enumerate(group):
                for b in group[:i]:
                    if a.tid != b.tid and not (a.kind == b.kind == 'rd'):
                        add(a.c != b.c)

    def _read(self, r, add):
        ws = [w for w in self.by_var[r.obj] if w.kind == 'wr'
              and self.ordered(w, r) not in (False, 'excl')]
        opts = []
        for w in ws:
            conds = [w.x, r.val == w.val]
            o = self.ordered(w, r)
            if o is None:
                conds.append(w.c < r.c)
            for v in ws:
                if v is w or self.ordered(v, w) is True:
                    continue
                ov = self.ordered(v, r)
                # v not executed, or before w, or after r
                alts = [z3.Not(v.x), v.c < w.c]
                if ov is None:
                    alts.append(v.c > r.c)
                conds.append(z3.Or(alts))
            opts.append(z3.And(conds))
        none = [r.val == self.init[r.obj]]
        for v in ws:
            if self.ordered(v, r) is True:
                none.append(z3.Not(v.x))
            else:
                none.append(z3.Or(z3.Not(v.x), v.c > r.c))
        opts.append(z3.And(none))
        add(z3.Implies(r.x, z3.Or(opts)))

    # ---- state predicates (T: a clock cut, None = the end)
    def done_at(self, n, T):
        return n.x if T is None else z3.And(n.x, n.c < T)

    def marks(self, t, label):
        return [n for n in self.nodes if n.tid == t and n.kind == 'mark'
                and n.obj == label]

    def reached(self, t, label, T=None):
        return z3.Or([self.done_at(n, T) for n in self.marks(t, label)])

    def finished(self, t, T=None):
        return z3.Or([self.done_at(n, T) for n in self.nodes
                      if n.tid == t and n.kind == 'end'])

    def inside(self, t, label, T=None):
        """Past the mark `label`, with nothing after it executed"""
        return z3.Or([z3.And(self.done_at(n, T), *[z3.Not(self.done_at(k, T))
                                                   for k in n.kids])
                      for n in self.marks(t, label)])

    def stuck(self, t, T=None):
        """The next event is an acquire of a lock that is held"""
        alts = []
        for n in self.nodes:
            if n.tid == t and n.kind == 'acq':
                alts.append(z3.And(self.done_at(n.parent, T) if n.parent.kind != 'root'
                                   else True, z3.Not(self.done_at(n, T)),
                                   *[z3.Not(self.done_at(k, T)) for k in n.parent.kids],
                                   self.count_before(
                                       n.obj, lambda m: self.done_at(m, T)) == 1))
        return z3.Or(alts)

    def bad_release(self):
        alts = []
        for n in self.nodes:
            if n.kind == 'rel':
                alts.append(z3.And(n.parent.x, z3.Not(n.x),
                                   self.count_before(n.obj, lambda m: m.x) == 0))
            elif n.kind == 'exc':
                alts.append(n.x)
        return z3.Or(alts) if alts else z3.BoolVal(False)

    def script(self, model):
        ev = [n for n in self.nodes if z3.is_true(model.eval(n.x, True))]
        ev.sort(key=lambda n: (model.eval(n.c, True).as_long(), n.tid, n.n))
        return [[n.tid, n.kind] for n in ev if n.kind in ('acq', 'rel', 'rd', 'wr', 'mark',
                                                          'held', 'free')]


class Query:
    def __init__(self, enc, timeout=250):
        self.s = z3.Solver()
        self.s.set('timeout', timeout * 1000)
        self.s.add(enc.cons)
        self.enc = enc
        self.n = 0
        self.t = 0.0

    def ask(self, *goal):
        """A script of events reaching the goal, or None"""
        t = _time.perf_counter()
        self.s.push()
        self.s.add(*goal)
        r = self.s.check()
        out = self.enc.script(self.s.model()) if r == z3.sat else None
        self.s.pop()
        self.n += 1
        self.t += _time.perf_counter() - t
        if r == z3.unknown:
            raise E.Unsupported('solver answered unknown')
        return out


# --------------------------------------------------------------------- replay
class Scripted:
    """Interceptor that makes real threads follow a script of events [tid, kind]"""

    def __init__(self, shared, script, freeze=()):
        self.sh, self.script = shared, list(script)
        self.freeze = set(freeze)
        self.tids = {}
        self.diverged = None
        self.pending = {}

    def turn(self, kind, lock=None):
        s = S.SCHED
        if s is None or s.dead:
            return
        me = self.tids.get(s.cur)
        if me is None:
            return
        self.pending[me] = lock
        self._turn(s, me, kind)
        self.pending[me] = None

    def waits(self, me, rec):
        """Is the thread at an acquire of a held lock?"""
        lock = self.pending.get(me)
        return not rec.done and (rec.why == 'waiting for a lock' and rec.pred is not None
                                 or lock is not None and lock._held)

    def _turn(self, s, me, kind):
        if not any(t == me for t, _ in self.script):
            # nothing more for this thread: it waits for the script to end
            s.block(lambda: not self.script and me not in self.freeze, why='script over')
            return
        s.block(lambda: not self.script or self.script[0][0] == me, why='its turn')
        if self.script and self.script[0][0] == me:
            want = self.script.pop(0)
            if want[1] != kind:
                self.diverged = f'{kind} instead of {want}'

    def read(self, var, getter):
        self.turn('rd')
        return getter()

    def write(self, var, v, setter):
        self.turn('wr')
        setter()
        return True

    def acquire(self, lock, blocking, timeout):
        if id(lock) in self.sh.locks:
            free = not blocking or (timeout is not None and timeout >= 0)
            self.turn(('held' if lock._held else 'acq') if free else 'acq',
                      None if free else lock)
            if free and lock._held:
                return False
        return None

    def release(self, lock):
        if id(lock) in self.sh.locks:
            self.turn('rel')
        return False

    def locked(self, lock):
        self.turn('held' if lock._held else 'free')
        return lock._held
