"""Controlled execution of the real multi-threaded code.

The code under test runs on real OS threads, one at a time: a baton is handed over at
scheduling points.  Scheduling points are the operations on the stand-ins for
``threading`` / ``time`` and every executed line (or bytecode instruction) of the code
under test, observed with ``sys.monitoring``.  Which thread runs next is a
finite-domain choice variable of the engine, bounded by a number of pre-emptions.

Time is virtual: it advances only when no thread can run (code takes no time, sleeps
and declared source delays do).
"""
import _thread
import collections
import sys
import types

from . import engine as E

Abort = E.Abort
HOOK = None  # intercepts lock operations (per-thread extraction, scripted replay)
SCHED = None  # the scheduler of the current path, if any
REPO_PREFIX = '/repo/stream2py/'
FUNCS = set()  # qualified names of the functions of the code under test that ran
# The last runs: a thread that is about to end may still refer to its own, and must not
# be the one that frees what it refers to (the solver's objects belong to one thread)
PAST = collections.deque(maxlen=16)


class ThreadRec:
    def __init__(self, sched, name):
        self.sched = sched
        self.name = name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.pred = None
        self.wake = None
        self.started = False
        self.exc = None
        self.ident = None
        self.why = ''
        self.gone = _thread.allocate_lock()
        self.parked = False

    def enabled(self):
        if self.done or not self.started or self.parked:
            return False
        if self.pred is None:
            return True
        if self.wake is not None and self.wake <= self.sched.now:
            return True
        return bool(self.pred())

    def __repr__(self):
        return self.name


class Sched:
    def __init__(self, eng, preempt=0, shard=None, max_steps=20000, tmax=300.0,
                 free_switch=True):
        self.eng = eng
        self.left = preempt
        self.preempt = preempt
        self.shard = shard
        self.now = 0.0
        self.steps = 0
        self.points = 0
        self.max_steps = max_steps
        self.tmax = tmax
        self._dead = False
        self.handed = False
        self.fatal = None
        self.threads = []
        self.errors = []  # (thread name, exception) of threads that died
        self.nonpre = 0  # >0: no pre-emption (harness atomic section)
        self.trace = []
        self.free_switch = free_switch
        self.script = None
        self.on_deadlock = None
        self.refuse = ()  # which of the threads started by the code cannot be started
        self.asked = 0

    @property
    def dead(self):
        return self._dead or self.eng.stopped

    # ---- life cycle
    def run(self, main):
        """Run main() as thread 0; returns its result."""
        global SCHED
        me = ThreadRec(self, 'main')
        me.started = True
        me.ident = _thread.get_ident()
        self.threads.append(me)
        self.cur = me
        SCHED = self
        try:
            return main()
        finally:
            self._teardown()
            SCHED = None
            PAST.append(self)
            f, self.fatal = self.fatal, None
            if self.eng.stopped and self.eng.stop_exc is not None:
                f = self.eng.stop_exc
            if f is not None:
                raise f

    def _teardown(self):
        self._dead = True
        for t in self.threads[1:]:
            if t.started:
                if not t.done:
                    self.cur = t
                    t.baton.release()
                if not t.gone.acquire(timeout=20):
                    raise E.Unsupported('a thread does not end')

    def spawn(self, fn, name):
        """Create and start a thread running fn().  (No pre-emption here.)"""
        t = ThreadRec(self, name)
        t.gone.acquire()
        self.threads.append(t)

        def body():
            nonlocal fn
            t.ident = _thread.get_ident()
            t.baton.acquire()
            try:
                if not self.dead:
                    fn()
            except (Abort, E.Found, E.Unsupported) as e:
                if getattr(e, 'why', None) != 'teardown':
                    self._set_fatal(e)
            except BaseException as e:
                t.exc = e
                self.errors.append((t.name, e))
            # what only this thread refers to must go while it is its turn: the thread
            # goes on in parallel once it has handed the baton over
            fn = None
            t.done = True
            if self.eng.stopped and not self._dead:
                self._set_fatal(self.eng.stop_exc)
            try:
                if not self.dead:
                    try:
                        self._next_after_exit()
                    except BaseException as e:  # deadlock found by a dying thread
                        self._set_fatal(e)
            finally:
                t.gone.release()

        t.started = True
        _thread.start_new_thread(body, ())
        return t

    def _set_fatal(self, e):
        """Record why the path ends and hand control back to main, which unwinds."""
        if self.fatal is None:
            self.fatal = e
        self._dead = True
        if not self.handed and self.cur is not self.threads[0]:
            self.handed = True
            self.cur = self.threads[0]
            self.cur.baton.release()

    # ---- switching
    def _switch(self, t, me):
        self.cur = t
        self.trace.append(t.name)
        t.baton.release()
        me.baton.acquire()
        self._alive()

    def _alive(self):
        if self.dead:
            if self.cur is self.threads[0] and self.fatal is not None:
                f, self.fatal = self.fatal, None
                raise f
            raise Abort('teardown')

    def _next_after_exit(self):
        nxt = self._pick(None)
        self.cur = nxt
        self.trace.append(nxt.name)
        nxt.baton.release()

    def _pick(self, me, exclude=None):
        """Next thread to run when the current one cannot (or yields)."""
        while True:
            en = [t for t in self.threads if t is not exclude and t.enabled()]
            if en:
                if len(en) == 1 or not self.free_switch:
                    return en[0]
                return en[self.eng.choice('next', len(en))]
            if exclude is not None and exclude.enabled():
                return exclude
            wakes = [t.wake for t in self.threads
                     if t.started and not t.done and not t.parked
                     and t.pred is not None and t.wake is not None]
            if not wakes:
                self._deadlock()
            self.now = max(self.now, min(wakes))
            if self.now > self.tmax:
                self.eng.check(False, 'no progress', self.describe())

    def _deadlock(self):
        if self.on_deadlock is not None:
            self.on_deadlock()
        self.eng.check(False, 'deadlock', self.describe())

    def describe(self):
        return '; '.join(
            f'{t.name}: ' + ('done' if t.done else 'parked' if t.parked
                             else t.why if t.pred is not None else 'running')
            for t in self.threads if t.started) + f' (virtual time {self.now:g}s)'

    def _step(self):
        if self.cur.ident != _thread.get_ident():
            raise Abort('stray')  # a finalizer in a thread that has ended
        self.steps += 1
        if self.steps > self.max_steps:
            self.eng.check(False, 'no progress', 'step bound: ' + self.describe())

    def point(self, what=''):
        """A place where the current thread may be pre-empted."""
        if self.dead:
            raise Abort('teardown')
        self._step()
        if self.left <= 0 or self.nonpre:
            return
        me = self.cur
        others = [t for t in self.threads if t is not me and t.enabled()]
        if not others:
            return
        if self.shard is not None and self.left == self.preempt:
            i, n = self.shard
            self.points += 1
            if self.points % n != i:
                return
        c = self.eng.choice('pre', 1 + len(others))
        if c:
            self.left -= 1
            self._switch(others[c - 1], me)

    def block(self, pred, timeout=None, why='', yielding=False):
        """Wait until pred() holds or the timeout elapsed; True if pred() holds."""
        if self.dead:
            raise Abort('teardown')
        self._step()
        me = self.cur
        if not yielding and pred():
            return True
        if timeout is not None:
            if timeout < 0:
                timeout = 0
            me.wake = self.now + timeout
        else:
            me.wake = None
        me.pred = pred
        me.why = why
        try:
            t = self._pick(me, exclude=me if yielding else None)
            if t is not me:
                self._switch(t, me)
        finally:
            me.pred = None
            me.wake = None
        return bool(pred())

    def park(self):
        """Stop the current thread for good (until the end of the path)."""
        me = self.cur
        me.parked = True
        t = self._pick(me)
        self._switch(t, me)

    def settle(self):
        """Let every other thread run until all are blocked (no time passes)."""
        while any(t.enabled() for t in self.threads if t is not self.cur):
            self.block(lambda: False, timeout=0, why='settle', yielding=True)


# ----------------------------------------------------------------- stand-ins
def _real_sched():
    s = SCHED
    return s if s is not None else None


class Lock:
    """threading.Lock"""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        if HOOK is not None:
            r = HOOK.acquire(self, blocking, timeout)
            if r is not None:
                return r
        s = SCHED
        if s is None:
            if self._held and blocking:
                raise E.Unsupported('lock would block outside a scheduled run')
            ok = not self._held
            self._held = True
            return ok
        if s.dead:
            raise Abort('teardown')
        s._step()
        if self._held:
            if not blocking:
                return False
            if not s.block(lambda: not self._held,
                           None if timeout is None or timeout < 0 else timeout,
                           why='waiting for a lock'):
                return False
        self._held = True
        return True

    acquire_lock = acquire

    def release(self):
        if HOOK is not None and HOOK.release(self):
            return
        s = SCHED
        if s is not None and s.dead:
            self._held = False
            return
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False

    release_lock = release

    def _at_fork_reinit(self):
        self._held = False

    def locked(self):
        if HOOK is not None:
            return HOOK.locked(self)
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _me():
    return SCHED.cur if SCHED is not None else None


class RLock:
    def __init__(self):
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None:
            self._n += 1
            return True
        if s.dead:
            raise Abort('teardown')
        s._step()
        me = s.cur
        if self._owner is me and self._n:
            self._n += 1
            return True
        if self._n:
            if not blocking:
                return False
            if not s.block(lambda: self._n == 0,
                           None if timeout is None or timeout < 0 else timeout,
                           why='waiting for an RLock'):
                return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        s = SCHED
        if s is not None and s.dead:
            return
        if s is not None:
            if self._owner is not s.cur or not self._n:
                raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._n > 0 and self._owner is _me()

    def _release_save(self):
        st = (self._n, self._owner)
        self._n, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        if SCHED is not None:
            SCHED.block(lambda: self._n == 0, why='waiting for an RLock')
        self._n, self._owner = st


class Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def _owned(self):
        f = getattr(self._lock, '_is_owned', None)
        return f() if f else self._lock._held

    def wait(self, timeout=None):
        s = SCHED
        if s is not None and s.dead:
            raise Abort('teardown')
        if not self._owned():
            raise RuntimeError('cannot wait on un-acquired lock')
        if s is None:
            raise E.Unsupported('condition wait outside a scheduled run')
        w = [False]
        self._waiters.append(w)
        rl = isinstance(self._lock, RLock)
        if rl:
            st = self._lock._release_save()
        else:
            self._lock._held = False
        ok = s.block(lambda: w[0], timeout, why='waiting for a condition')
        if not ok and w in self._waiters:
            self._waiters.remove(w)
        if rl:
            self._lock._acquire_restore(st)
        else:
            s.block(lambda: not self._lock._held, why='waiting for a lock')
            self._lock._held = True
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else SCHED.now + timeout
        r = predicate()
        while not r:
            left = None
            if end is not None:
                left = end - SCHED.now
                if left <= 0:
                    break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        s = SCHED
        if s is not None and s.dead:
            return
        if not self._owned():
            raise RuntimeError('cannot notify on un-acquired lock')
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = SCHED
        if s is None:
            return self._flag
        s.block(lambda: self._flag, timeout, why='waiting for an event')
        return self._flag


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = SCHED
        if s is not None:
            if s.dead:
                raise Abort('teardown')
            s._step()
        if self._value <= 0:
            if not blocking:
                return False
            if s is None:
                raise E.Unsupported('semaphore would block')
            if not s.block(lambda: self._value > 0, timeout, why='waiting for a semaphore'):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        s = SCHED
        if s is not None and s.dead:
            return
        self._value += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError('Semaphore released too many times')
        super().release(n)


class Thread:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *,
                 daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or 'thread'
        self.daemon = bool(daemon)
        self._rec = None

    def run(self):
        try:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)
        finally:
            del self._target, self._args, self._kwargs

    def start(self):
        s = SCHED
        if s is None:
            raise E.Unsupported('thread started outside a scheduled run')
        if s.dead:
            raise Abort('teardown')
        if self._rec is not None:
            raise RuntimeError('threads can only be started once')
        s.asked += 1
        if s.asked - 1 in s.refuse:
            raise RuntimeError("can't start new thread")
        n = sum(1 for t in s.threads if t.name.startswith(self.name))
        self._rec = s.spawn(self.run, f'{self.name}-{n}')
        self._rec.thread = self
        s.point('thread start')

    @property
    def ident(self):
        return None if self._rec is None else id(self._rec)

    native_id = ident

    def is_alive(self):
        return self._rec is not None and not self._rec.done

    def join(self, timeout=None):
        s = SCHED
        if self._rec is None:
            raise RuntimeError('cannot join thread before it is started')
        if s is None:
            return
        if s.dead:
            raise Abort('teardown')
        if self._rec is s.cur:
            raise RuntimeError('cannot join current thread')
        s.block(lambda: self._rec.done, timeout, why='joining a thread')

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class _MainThread(Thread):
    def __init__(self):
        super().__init__(name='MainThread')


_MAIN = _MainThread()


def current_thread():
    s = SCHED
    if s is None:
        return _MAIN
    t = getattr(s.cur, 'thread', None)
    if t is None:
        if s.cur is s.threads[0]:
            _MAIN._rec = s.cur
            return _MAIN
        t = Thread(name=s.cur.name)
        t._rec = s.cur
        s.cur.thread = t
    return t


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or (), kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def sleep(secs):
    s = SCHED
    if s is None:
        return
    if s.dead:
        raise Abort('teardown')
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    if isinstance(secs, E.SymInt):
        secs = int(secs)
    s.block(lambda: False, secs, why=f'sleeping {secs}s', yielding=True)


EPOCH = 1_700_000_000.0
BOOT = EPOCH - 12_345.625  # when the monotonic clocks began


def now():
    return EPOCH + (SCHED.now if SCHED is not None else 0.0)


def build_fakes(real_threading, real_time):
    th = types.ModuleType('threading')
    for k, v in vars(real_threading).items():
        if not k.startswith('__'):
            setattr(th, k, v)
    for c in (Lock, RLock, Condition, Event, Semaphore, BoundedSemaphore, Thread, Timer):
        setattr(th, c.__name__, c)
    th.current_thread = th.currentThread = current_thread
    th.main_thread = lambda: _MAIN
    th.get_ident = lambda: id(_me())
    th.active_count = lambda: sum(1 for t in SCHED.threads if t.started and not t.done)
    tm = types.ModuleType('time')
    for k, v in vars(real_time).items():
        if not k.startswith('__'):
            setattr(tm, k, v)
    tm.sleep = sleep
    tm.time = now
    tm.monotonic = tm.perf_counter = lambda: now() - BOOT
    tm.time_ns = lambda: int(now() * 1e9)
    tm.monotonic_ns = tm.perf_counter_ns = lambda: int((now() - BOOT) * 1e9)
    return th, tm


# ----------------------------------------------------------------- monitoring
_TOOL = 3


def _on_line(code, line):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    s = SCHED
    if s is None or s.dead:
        return
    if s.cur.ident != _thread.get_ident():
        return
    s.point(line)


def _on_start(code, off):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    FUNCS.add(code.co_filename[len(REPO_PREFIX):-3].replace('/', '.') + ':' +
              code.co_qualname)


def monitor(granularity='line'):
    m = sys.monitoring
    m.use_tool_id(_TOOL, 'symx')
    m.register_callback(_TOOL, m.events.PY_START, _on_start)
    ev = m.events.PY_START
    if granularity == 'instr':
        m.register_callback(_TOOL, m.events.INSTRUCTION, _on_line)
        ev |= m.events.INSTRUCTION
    else:
        m.register_callback(_TOOL, m.events.LINE, _on_line)
        ev |= m.events.LINE
    m.set_events(_TOOL, ev)


sys.unraisablehook = lambda a: None
