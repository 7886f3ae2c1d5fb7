"""Sources on their own: iteration, context and open/closed state."""
from props.streams import *

BOUNDS = ('up to 5 reads, no data at any of them, any item values (falsy included), a '
          'failing read at the end; the three kinds of sources; every sequence of up to '
          '4 open / close operations; two sources in turns; 150 items with 150 times no data')
ASSUMPTIONS = ['the source follows its documented interface']


def mk(e, rt, kind, plan, valid=None):
    base = {'SourceReader': rt.SourceReader,
            'Quick': rt.m('stream2py.source_reader').QuickSourceReader,
            'StreamSource': rt.pkg.stream_source.StreamSource}[kind]

    class Src(base):
        pos = 0
        asked = []

        def read(self):
            plan = self.plan
            self.pos += 1
            v = plan[self.pos - 1] if self.pos <= len(plan) else Boom
            if v is Boom:
                raise Boom('read')
            return v

    Src.plan = plan
    if kind != 'Quick':
        Src.open = lambda self: None
        Src.close = lambda self: None
        Src.key = lambda self, x: x
        Src.info = {}
        Src.__abstractmethods__ = frozenset()
    if valid is not None:
        Src.is_valid_data = lambda self, d: valid(d)
        Src.when_no_data = lambda self, d=None: self.asked.append(d)
        Src.asked = []
    return Src()


def iterate(e, rt, kind, n, custom=False):
    ks = [e.int(f'k{i}') for i in range(n)]
    plan = [None if e.flag(f'none{i}') else k for i, k in enumerate(ks)]
    if custom:
        src = mk(e, rt, kind, plan, lambda d: d is None or d > 0)
        good = [p is None or bool(p > 0) for p in plan]
        want = [p for p, g in zip(plan, good) if g]
        bad = [p for p, g in zip(plan, good) if not g]
    else:
        src = mk(e, rt, kind, plan)
        want = [p for p in plan if p is not None]
        bad = None
    pause = e.pick('pause', (None, 0.5))
    if pause:
        src.set_sleep_time_on_iter_none(pause)
    got = []
    t0 = rt.now

    def run():
        for x in src:
            got.append(x)

    out = call(run)
    expect_raise(e, out, Boom, 'the failure of the source was hidden')
    e.check(same_list(got, want), 'iteration is not what was read', f'{got} of {plan}')
    if custom:
        e.check(same_list(src.asked, bad), 'when_no_data', f'{src.asked} {bad}')
        e.cover('custom')
    elif pause:
        d = rt.now - t0
        nn = plan.count(None)
        e.check(abs(d - pause * nn) < 1e-6, 'wrong pauses', f'{d} for {nn} times no data')
    if None in plan:
        e.cover('no data')
    if len(want) == n:
        e.cover('all')


def long(e, rt, kind, n):
    """Many items, many times no data"""
    k = e.int('k')
    gap = e.pick('gap', (1, 2, 50))
    plan = []
    for i in range(n):
        plan += [None] * (gap if i % gap == 0 else 0) + [k + i]
    src = mk(e, rt, kind, plan)
    got = []
    out = call(lambda: [got.append(x) for x in src])
    expect_raise(e, out, Boom, 'the failure of the source was hidden')
    e.check(same_list(got, [k + i for i in range(n)]), 'iteration is not what was read',
            f'{len(got)} of {n}')
    e.cover('all')


def pair(e, rt, kind, n):
    """Two sources iterated in turns, each with its own items and pause, and iteration
    taken up again where it was left"""
    plans = [[None if e.flag(f'none{j}{i}') else e.int(f'{p}{i}') for i in range(n)]
             for j, p in enumerate('kj')]
    srcs = [mk(e, rt, kind, plans[0])]
    if e.flag('same class'):
        srcs.append(type(srcs[0])())
        srcs[1].plan = plans[1]
    else:
        srcs.append(mk(e, rt, kind, plans[1]))
    slow = e.pick('slow', (None, 0, 1))
    its = [iter(s) for s in srcs]
    if slow is not None:
        srcs[slow].set_sleep_time_on_iter_none(0.5)
    at = [0, 0]
    for i in range(n):
        j = e.choice(f'source{i}', 2)
        if e.flag(f'again{i}'):
            its[j] = iter(srcs[j])
            e.cover('again')
        want = plans[j][at[j]:]
        nones = next((i for i, x in enumerate(want) if x is not None), len(want))
        t0 = rt.now
        out = call(next, its[j])
        d = rt.now - t0
        e.check(abs(d - nones * 0.5) < 1e-6 if j == slow else d <= nones * 0.1,
                'wrong pauses', f'{d} for {nones} times no data')
        if nones == len(want):
            expect_raise(e, out, Boom, 'the failure of the source was hidden')
            return
        at[j] += nones + 1
        e.check(same(expect_ok(e, out, 'iteration raised'), want[nones]),
                'iteration is not what was read')
    e.cover('both')


def quick_pair(e, rt, nops):
    """Two quick sources, opened and closed in any order"""
    a = mk(e, rt, 'Quick', [1, 2])
    srcs = [a, type(a)()]
    closed, idx, at = [True, True], [None, None], [None, None]
    for i in range(nops):
        j = e.choice(f'source{i}', 2)
        s = srcs[j]
        if closed[j]:
            s.open()
            idx[j], at[j] = 0, s.get_timestamp()
        else:
            s.close()
        closed[j] = not closed[j]
        for s, c, n, t in zip(srcs, closed, idx, at):
            e.check(s.closed is c, 'closed state')
            if n is not None:
                e.check(s.read_idx == n, 'read_idx', f'{s.read_idx}')
                e.check(s.info['open_time'] == t, 'open_time')
        if idx[j] is not None:
            srcs[j].read_idx += 1
            idx[j] += 1
        rt.sleep(0.25)
    e.cover('done')


def stops(e, rt, n):
    """A StreamSource that says it is stopped ends its iteration"""
    ks = [e.int(f'k{i}') for i in range(n)]
    plan = [None if e.flag(f'none{i}') else k for i, k in enumerate(ks)]
    src = mk(e, rt, 'StreamSource', plan + [None, None, None])
    # from this read on it says that it is stopped
    at = e.pick('stopped at', range(n + 2))
    type(src).is_stopped = property(lambda self: self.pos >= at)
    got = expect_ok(e, call(list, src), 'iteration raised')
    # what it still has is given, up to the first time that it has nothing
    end = next(i for i, x in enumerate(plan + [None] * 3) if x is None and i + 1 >= at)
    e.check(same_list(got, [x for x in plan[:end] if x is not None]),
            'iteration is not what was read', f'{got} of {plan}, stopped at {at}')
    e.cover('ended')
    if at < n and len(got) > at:
        e.cover('items left')


def anew(e, rt, src):
    """Opening a quick source sets its time and read index"""
    if hasattr(src, 'read_idx'):
        e.check(src.read_idx == 0, 'read_idx after opening', f'{src.read_idx}')
        e.check(src.info['open_time'] == src.get_timestamp(), 'open_time after opening')
        src.read_idx += 1
        rt.sleep(0.25)


def state(e, rt, kind, nops, bodies=(KeyError,)):
    """closed is exact; context managers open and close"""
    src = mk(e, rt, kind, [1, 2])
    log = []
    if kind == 'SourceReader':
        fails = set()

        def opens(self):
            log.append('open')
            if 'open' in fails:
                raise Boom('open')
            return returned

        def closes(self):
            log.append('close')
            return returned
        type(src).open, type(src).close = opens, closes
        returned = e.pick('returned', (None, True))  # what open and close return
        e.check(isinstance(src.info, dict), 'no info')
    e.check(src.closed is True, 'closed at first')
    for i in range(nops):
        op = e.pick(f'op{i}', ('with', 'error', 'enter exit') +
                    (('open close',) if kind == 'Quick' else ('open fails',)))
        log.clear()
        if op == 'open close':
            src.open()
            e.check(src.closed is False, 'closed after open')
            anew(e, rt, src)
            src.close()
        elif op == 'open fails':
            fails.add('open')
            expect_raise(e, call(src.enter), Boom, 'a failure to open was hidden')
            fails.clear()
            e.check(log == ['open'], 'calls after a failed open', str(log))
            e.check(src.closed is True, 'not closed after a failed open')
            e.cover(op)
            continue
        elif op == 'enter exit':
            e.check(src.enter() is src, 'enter does not return the source')
            e.check(src.closed is False, 'closed after enter')
            anew(e, rt, src)
            src.exit(None, None, None)
        else:
            failure = e.pick(f'failure{i}', bodies) if op == 'error' else None

            def body():
                with src as s:
                    e.check(s is src, 'the context manager does not give the source')
                    e.check(src.closed is False, 'closed in its context')
                    anew(e, rt, src)
                    e.check(log in ([], ['open']), 'opened once', str(log))
                    if op == 'error':
                        raise failure('body')
            out = attempt(body)
            if op == 'error':
                expect_raise(e, out, failure, 'an exception of the body was hidden')
            else:
                expect_ok(e, out, 'context manager raised')
        e.check(src.closed is True, 'open after its context')
        if kind == 'SourceReader':
            e.check(log == ['open', 'close'], 'open and close calls', str(log))
        e.cover(op)


def quick(e, rt, n):
    """The source with only a read method works in a stream"""
    ks = increasing(e, n)
    src = mk(e, rt, 'Quick', ks + [None] * 200)
    with rt.StreamBuffer(src, maxlen=10) as sb:
        r = sb.mk_reader()
        rt.sleep(0.5)
        e.check(same_list(drain(r), ks), 'wrong items')
        e.check(same(r.last_key, ks[-1]), 'the key of an item is the item')
        i = r.source_reader_info
        e.check(set(i) == {'open_time', 'open_instance'} and
                isinstance(i['open_time'], int), 'wrong info', str(i))
        e.check(src.read_idx == 0, 'read_idx at open')
    e.check(src.closed, 'open after the stream stopped')
    e.cover('streamed')


def stamps(e, rt, kind):
    """Timestamps are whole microseconds of the clock, or of the class's own unit"""
    src = mk(e, rt, kind, [])
    unit = e.pick('unit', (10**6, 10**3, 4.0))
    if unit != 10**6:
        # also below the class that changes it
        class Coarse(type(src)):
            timestamp_seconds_to_unit_conversion = unit
        src.__class__ = type('Sub', (Coarse,), {})
        e.cover('unit')
    last = None
    for i in range(3):
        t = type(src).get_timestamp() if e.flag(f'by class {i}') else src.get_timestamp()
        e.check(type(t) is int, 'not an int', type(t))
        e.check(abs(t - rt.time.time() * unit) <= 2, 'not the time in microseconds')
        e.check(last is None or t > last - (unit < 10**6), 'went back')
        last = t
        rt.sleep(e.pick(f'pause {i}', [2, 0.25, 1 / 1024]))
    e.cover('stamps')


def left(e, rt, n):
    """A StreamSource used without readers: exit closes it, once"""
    src = Probe.make(e, rt, [[e.int(f'k{i}') for i in range(n)]],
                     base=rt.pkg.stream_source.StreamSource,
                     close_fails=(0,) if e.flag('close fails') else ())
    for s in range(2):
        src.log.clear()
        src.open()
        m = e.choice(f'reads{s}', n + 1)
        for i in range(m):
            src.read()
        out = call(src.exit)
        if out[0] == 'raise':
            expect_raise(e, out, Boom, 'exit raised something else')
        e.check(src.log == ['open'] + ['read'] * m + ['close'], 'not closed once',
                str(src.log))
    e.cover('left')


TASKS = [Task('left', left, dict(n=2), {'left'})]
for kind in ('SourceReader', 'Quick', 'StreamSource'):
    TASKS.append(Task('iterate ' + kind, iterate, dict(kind=kind, n=4), {'no data', 'all'}))
    TASKS.append(Task('iterate deep ' + kind, iterate, dict(kind=kind, n=9),
                      {'no data', 'all'}, tier='thorough', limit=2000))
    TASKS.append(Task('long ' + kind, long, dict(kind=kind, n=150), {'all'},
                      max_steps=10**6))
    TASKS.append(Task('two ' + kind, pair, dict(kind=kind, n=3), {'both', 'again'}))
    TASKS.append(Task('stamps ' + kind, stamps, dict(kind=kind), {'stamps', 'unit'}))
TASKS += [
    Task('custom', iterate, dict(kind='Quick', n=4, custom=True), {'custom', 'no data'}),
    Task('two quick', quick_pair, dict(nops=4), {'done'}),
    Task('stops', stops, dict(n=3), {'ended', 'items left'}),
    Task('state', state, dict(kind='SourceReader', nops=3),
         {'with', 'error', 'enter exit', 'open fails'}),
    Task('state quick', state, dict(kind='Quick', nops=3),
         {'with', 'error', 'enter exit', 'open close'}),
    Task('quick stream', quick, dict(n=3), {'streamed'}, preempt=1),
    Task('custom deep', iterate, dict(kind='Quick', n=6, custom=True),
         {'custom', 'no data'}, tier='thorough', limit=2000),
    Task('bodies', state, dict(kind='SourceReader', nops=2, bodies=BODY),
         {'with', 'error'}),
    Task('bodies quick', state, dict(kind='Quick', nops=2, bodies=BODY),
         {'with', 'error'}),
    Task('state deep', state, dict(kind='SourceReader', nops=6),
         {'with', 'error', 'enter exit', 'open fails'}, tier='thorough', limit=2000),
    Task('quick stream deep', quick, dict(n=3), {'streamed'}, preempt=2, tier='thorough',
         limit=3000),
]
