"""Iteration and blocking reads: wait while the stream runs, drain when it stops."""
from props.streams import Probe, increasing
from props.readers import *
from props.sources import ListSource

BOUNDS = ('up to 3 items (any keys) appended by another thread which then stops the '
          'stream, with and without pauses; up to 2 pre-emptions at any line of the '
          'library by either thread; consumers: for loop, next(), blocking read, chunks; waits of up '
          'to about 300 pauses; 230 items in bursts')
ASSUMPTIONS = ['code takes no time compared with the polling sleeps']


def consume(e, rt, s, how, got, ended):
    """Consume until the stream says it is over"""
    r = s.r
    if how == 'for':
        for x in r:
            got.append(x)
    elif how == 'for chunk':
        for x in r:
            e.check(isinstance(x, list) and 1 <= len(x) <= 2, 'bad chunk')
            got.extend(x)
    elif how == 'next':
        while True:
            try:
                x = next(r)
            except StopIteration:
                break
            if x is None:
                rt.sleep(0.05)
            else:
                got.append(x)
    else:
        n = 2 if 'chunk' in how else 1
        while True:
            x = r.read(n, blocking=True)
            if x is None:
                break
            got.extend(x if n > 1 else [x])
    ended.append((rt.now, s.stop.is_set()))


def drain(e, rt, mode, sizes, how, pauses=True, window=None, peeker=False):
    n = e.pick('n', sizes)
    s = Setup(e, rt, mode, 0, cursor=None, maxlen=window,
              **(dict(read_size=2) if how == 'for chunk' else {}))
    items, ks, _ = mk_items(e, mode, n, pre='p')
    got, ended, stopped = [], [], []
    pause = [e.pick(f'pause{i}', [0, 0.05, 0.25]) if pauses else 0 for i in range(n + 1)]

    def produce():
        for i, it in enumerate(items):
            if pause[i]:
                rt.sleep(pause[i])
            with s.buf.writer_lock() as w:
                w.append(it)
        if pause[n]:
            rt.sleep(pause[n])
        stopped.append(rt.now)
        s.stop.set()

    p = rt.spawn(produce, 'producer')
    consume(e, rt, s, how, got, ended)
    e.check(p.error is None, 'producer failed', p.error)
    e.check(ended[0][1], 'the consumer ended while the stream was running',
            f'got {got} of {items}')
    e.check(same_list(got, items), 'items buffered before the stop were not delivered once '
            'and in order', f'got {got} of {items}')
    e.check(ended[0][0] - stopped[0] <= 0.2, 'the consumer did not end at the stop')
    e.cover('drained' if n else 'empty')


def drain_stream(e, rt, n, how):
    """The whole stack: the source fails after its last item, which ends the stream"""
    ks = [e.int(f'k{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    src = ListSource.source_reader(rt, ks)
    orig = src.read

    def read():
        x = orig()
        if x is None:
            raise RuntimeError('source is exhausted')
        return x

    src.read = read
    sb = rt.StreamBuffer(src, maxlen=10)
    sb.start()
    got = []
    if how == 'stream':
        for x in sb:
            got.append(x)
    elif how == 'next':
        while True:
            try:
                x = next(sb)
            except StopIteration:
                break
            if x is None:
                rt.sleep(0.05)
            else:
                got.append(x)
    else:
        for x in sb.mk_reader():
            got.append(x)
    e.check(not sb.is_running, 'ended while running')
    e.check(same_list(got, ks), 'items lost at the end of the stream', f'{got} of {ks}')
    e.cover('drained')


def running(e, rt, mode, how, n):
    """While the stream runs, a consumer that found nothing keeps waiting"""
    s = Setup(e, rt, mode, 0, cursor=None)
    items, ks, _ = mk_items(e, mode, n, pre='p')
    got, ended = [], []
    c = rt.spawn(lambda: consume(e, rt, s, how, got, ended), 'consumer')
    for i, it in enumerate(items):
        rt.sleep(e.pick(f'pause{i}', [0.05, 1.0]))
        with s.buf.writer_lock() as w:
            w.append(it)
        rt.sleep(0.5)
        e.check(not c.done, 'the consumer ended while the stream was running', c.error)
        e.check(same_list(got, items[:i + 1]), 'an item was not delivered',
                f'{got} of {items[:i + 1]}')
    s.stop.set()
    rt.join(c)
    e.check(c.error is None and ended, 'the consumer failed', c.error)
    e.check(same_list(got, items), 'wrong items', f'{got} of {items}')
    e.cover('waited')


def long(e, rt, how, most):
    """Waiting does not wear out: minutes without an item, then items, then the end"""
    s = Setup(e, rt, 'rec', 0, cursor=None)
    items, ks, _ = mk_items(e, 'rec', 2, pre='p')
    got, ended = [], []
    pause, idle = e.pick('pause and wait', most)
    if pause:
        s.r.set_sleep_time_on_iter_none(pause)
    c = rt.spawn(lambda: consume(e, rt, s, how, got, ended), 'consumer')
    for i, it in enumerate(items):
        rt.sleep(idle)
        e.check(not c.done, 'the consumer ended while the stream was running', c.error)
        with s.buf.writer_lock() as w:
            w.append(it)
        rt.sleep(1 if pause is None else pause + 1)
        e.check(same_list(got, items[:i + 1]), 'an item was not delivered', f'{got}')
    s.stop.set()
    rt.join(c)
    e.check(c.error is None and same_list(got, items), 'the consumer failed', c.error)
    e.cover('waited')


def many(e, rt, how):
    """A long stream, with pauses of the source"""
    n = 230
    s = Setup(e, rt, 'plain', 0, cursor=None,
              **(dict(read_size=2) if how == 'for chunk' else {}))
    k = e.int('k')
    items = [k + i for i in range(n)]
    each = e.pick('each', (1, 60, n))
    got, ended = [], []

    def produce():
        for i, it in enumerate(items):
            with s.buf.writer_lock() as w:
                w.append(it)
            if i % each == each - 1:
                rt.sleep(0.25)
        s.stop.set()

    p = rt.spawn(produce, 'producer')
    consume(e, rt, s, how, got, ended)
    e.check(p.error is None and s.stop.is_set(), 'ended while the stream was running')
    e.check(same_list(got, items), 'items lost', f'{len(got)} of {n}')
    e.cover('drained')


def stopped(e, rt, n, how, pauses):
    """Another thread stops the stream that next() reads: the rest, then the end"""
    ks = increasing(e, n)
    src = Probe.make(e, rt, [ks], sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=10)
    sb.start()
    got, ended = [], []
    get = (lambda: next(sb)) if how == 'next' else sb

    def use():
        first = e.pick('between items', pauses)
        while not ended:
            try:
                x = get()
            except StopIteration:
                ended.append(rt.now)
            else:
                if x is None:
                    rt.sleep(0.05)
                else:
                    got.append(x)
                    rt.sleep(first)
        for _ in range(2):
            expect_raise(e, call(get), StopIteration, 'delivered after the end')

    c = rt.spawn(use, 'consumer')
    rt.sleep(e.pick('stop after', (0.1, 0.45)))
    sb.stop()
    rt.join(c)
    e.check(c.error is None, 'next failed', repr(c.error))
    e.check(same_list(got, src.reads[0]), 'not every item once and in order',
            f'got {got} of {src.reads[0]}')
    e.cover('drained')


TASKS = []
for how in ('next', 'call'):
    TASKS.append(Task('stopped by another-' + how, stopped, dict(
        n=3, how=how, pauses=(0, 0.3, 1.5)), {'drained'}, preempt=1))
    TASKS.append(Task('stopped by another deep-' + how, stopped, dict(
        n=3, how=how, pauses=(0, 0.3, 1.5)), {'drained'}, preempt=2, tier='thorough',
        limit=3000, shards=4))
for how in ('for', 'blocking', 'blocking chunk'):
    TASKS.append(Task('long wait-' + how, long, dict(
        how=how, most=((None, 31.05), (0.5, 90.3), (60, 4000), (0.001, 0.3))), {'waited'},
        max_steps=10**7, tmax=10**5))
    TASKS.append(Task('long wait deep-' + how, long, dict(
        how=how, most=((None, 700.05), (3600, 10**7))), {'waited'}, max_steps=10**8, tmax=10**9,
        tier='thorough', limit=1500))
for how in ('for', 'for chunk', 'next', 'blocking', 'blocking chunk'):
    TASKS.append(Task('drain-' + how, drain,
                      dict(mode='rec', sizes=(0, 1, 2), how=how, pauses=False),
                      {'drained', 'empty'}, preempt=2))
    TASKS.append(Task('pauses-' + how, drain, dict(mode='plain', sizes=(0, 1, 2), how=how),
                      {'drained', 'empty'}, preempt=1))
    TASKS.append(Task('naive keys-' + how, drain,
                      dict(mode='naive', sizes=(0, 2), how=how, pauses=False),
                      {'drained', 'empty'}, preempt=1))
    TASKS.append(Task('many-' + how, many, dict(how=how), {'drained'}, max_steps=10**7,
                      tmax=10**4))
    TASKS.append(Task('running-' + how, running, dict(
        mode='rec', how='for' if how == 'for chunk' else how, n=3), {'waited'}))
    TASKS.append(Task('drain-deep-' + how, drain,
                      dict(mode='rec', sizes=(1, 3), how=how, pauses=False),
                      {'drained'}, preempt=3, tier='thorough', limit=3000, shards=4))
for how in ('stream', 'next', 'reader'):
    TASKS.append(Task('stack-' + how, drain_stream, dict(n=2, how=how), {'drained'},
                      preempt=1))
    TASKS.append(Task('stack-deep-' + how, drain_stream, dict(n=2, how=how), {'drained'},
                      preempt=2, tier='thorough', limit=3000, shards=4))
