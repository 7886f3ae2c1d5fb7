"""A source that records how it is used, for the harnesses about streams."""
from props.common import *


class Boom(ConnectionResetError, TimeoutError, InterruptedError, ValueError, KeyError,
           IndexError, TypeError, EOFError, RuntimeError, AssertionError, ArithmeticError):
    """Raised by a source: whatever a handler is looking for, this is one"""


class Odd(Exception):
    """Raised by a source: nothing a handler could know"""


class Quit(BaseException):
    """Raised by a source: not even an Exception (like SystemExit)"""


class Done(StopIteration):
    """Raised by a source: what next() of an iterator at its end raises"""


FAILS = (Boom, Odd, Quit, Done)

# raised in the body of a with statement
BODY = (KeyError, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit)


def attempt(f, *a, **k):
    """Like call(), for what may raise something that is no Exception"""
    try:
        return call(f, *a, **k)
    except (Quit, *BODY) as ex:
        return 'raise', ex


class Probe:
    """Every use of the source is logged; uses that overlap are reported.

    plan[s] is the script of session s (the last one repeats): a list of values that
    read() returns (None: no data), one of FAILS to raise, or ('wait', seconds, value).
    """

    @staticmethod
    def make(e, rt, plan, base=None, key=None, open_fails=(), close_fails=(),
             info_fails=(), sleep=0.3, points=True, kind=Boom):
        base = base or rt.SourceReader

        class Src(base):
            def __init__(self):
                self.plan = plan
                self.sleep = sleep
                self.log = []
                self.busy = None
                self.session = -1
                self.pos = 0
                self.opens = 0
                self.reads = []  # values returned in each session

            def _enter(self, what):
                if self.busy is not None:
                    e.check(False, 'the source is used by two threads at once',
                            f'{what} during {self.busy}; log {self.log}')
                self.busy = what
                self.log.append(what)
                if points:
                    rt.point()

            def _leave(self):
                self.busy = None

            def open(self):
                self.opens += 1
                self._enter('open')
                try:
                    if self.opens - 1 in open_fails:
                        self.log[-1] = 'open!'
                        raise kind('open')
                    self.session += 1
                    self.pos = 0
                    self.reads.append([])
                finally:
                    self._leave()

            def read(self):
                self._enter('read')
                try:
                    p = self.plan[min(self.session, len(self.plan) - 1)]
                    if self.pos >= len(p):
                        return None
                    v = p[self.pos]
                    self.pos += 1
                    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'wait':
                        rt.sleep(v[1])
                        v = v[2]
                    if isinstance(v, type) and v in FAILS:
                        self.log[-1] = 'read!'
                        raise v('read')
                    if v is not None:
                        self.reads[-1].append(v)
                    return v
                finally:
                    self._leave()

            def close(self):
                self._enter('close')
                try:
                    if self.session in close_fails:
                        raise kind('close')
                finally:
                    self._leave()

            @property
            def info(self):
                if self.opens - 1 in info_fails:
                    raise kind('info')
                return dict(session=self.session, opens=self.opens)

            @property
            def sleep_time_on_read_none_s(self):
                return self.sleep

            def key(self, x):
                return x if key is None else key(x)

        return Src()


def audit(e, src, done=True):
    """The log follows the protocol: (open read* close)*"""
    state = 'closed'
    opened = 0
    for i, ev in enumerate(src.log):
        at = f'event {i} of {src.log}'
        if ev == 'open':
            e.check(state == 'closed', 'the source was opened while open', at)
            state = 'open'
            opened += 1
        elif ev == 'open!':
            e.check(state == 'closed', 'the source was opened while open', at)
        elif ev in ('read', 'read!'):
            e.check(state == 'open', 'the source was read while not open, or after a '
                    'failed read', at)
            if ev == 'read!':
                state = 'failed'
        elif ev == 'close':
            e.check(state != 'closed', 'the source was closed while not open', at)
            state = 'closed'
    if done:
        e.check(state == 'closed', 'the source was not closed', str(src.log))
    return opened


def drain(r, limit=50):
    """What a reader can still read now"""
    out = []
    for _ in range(limit):
        x = r.read(ignore_no_item_found=True)
        if x is None:
            return out
        out.append(x)
    return out


def increasing(e, n, pre='k'):
    ks = [e.int(f'{pre}{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    return ks
