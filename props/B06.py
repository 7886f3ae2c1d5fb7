"""Pacing: pauses are the configured ones, and data never waits for them."""
from props.streams import *

BOUNDS = ('streams made directly, by the source, by a stream source or by the helper; '
          'pauses of 0 to 2 s given to the stream, to the source, to both or to none; up '
          'to 4 reads with no data at any of them, or 40 in a row; two streams side by side; '
          'a full buffer without dropping; one or two waiting readers with pauses of 0 '
          'to 2 s; up to 1 pre-emption')
ASSUMPTIONS = ['code takes no time compared with sleeps']

DEFAULT = 0.3
EPS = 1e-6


def timed(e, rt, kind, plan, own, given, maxlen=10, auto=True, tail=0):
    """A started stream, and the times at which its source was read"""
    reads = []
    pos = [0]

    def read():
        i = pos[0]
        pos[0] += 1
        v = plan[i] if i < len(plan) else None
        t = rt.now
        if tail and i >= len(plan):
            rt.sleep(tail)
        reads.append((t, rt.now, v is not None))
        return v

    kw = {} if given is None else dict(sleep_time_on_read_none_s=given)
    if kind == 'helper':
        mk = rt.m('stream2py.simply').mk_stream_buffer
        kw = {} if given is None else dict(sleep_time_on_read_none_seconds=given)
        cm = mk(lambda i: read(), maxlen=maxlen, auto_drop=auto, enumerate_data=False, **kw)
        return cm.__enter__(), reads, lambda: cm.__exit__(None, None, None)
    base = rt.pkg.stream_source.StreamSource if kind == 'stream source' else rt.SourceReader

    class Src(base):
        open = close = lambda self: None
        key = lambda self, x: x
        info = {}

        def read(self):
            return read()

        if own is not None:
            sleep_time_on_read_none_s = own

    src = Src()
    if kind == 'stream source':
        src.configure_buffer(maxlen=maxlen, auto_drop=auto, **kw)
        r = src.open_reader()
        return r, reads, r.close
    if kind == 'source':
        sb = src.stream_buffer(maxlen, auto_drop=auto, **kw)
    else:
        sb = rt.StreamBuffer(src, maxlen=maxlen, auto_drop=auto, **kw)
    sb.start()
    return sb, reads, sb.stop


def pause(e, rt, kinds, n, silence=0):
    kind = e.pick('kind', kinds)
    given = e.pick('given', (None, 0, 0.2, 1, 1.5))
    own = e.pick('own', (None, 0, 0.4, 2)) if kind != 'helper' else None
    want = given if given is not None else own if own is not None else DEFAULT
    ks = increasing(e, n)
    plan = [None] * silence
    for i, k in enumerate(ks):
        if e.flag(f'none{i}'):
            plan.append(None)
        plan.append(k)
    t0 = rt.now
    # time passes in the reads when it does not in the pauses
    x, reads, end = timed(e, rt, kind, plan, own, given, tail=0 if want else 0.004)
    rt.sleep(want * (plan.count(None) + 2) + 0.01)
    got = list(reads)
    end()
    e.check(len(got) >= len(plan) + 2, 'the source was not asked again', f'{got}')
    e.check(got[0][0] - t0 < EPS, 'the first read waits')
    for (_, t, data), (u, _, _) in zip(got, got[1:]):
        if data:
            e.check(u - t < EPS, 'an item makes the stream wait', f'{got}')
            e.cover('item')
        else:
            e.check(abs(u - t - want) < EPS, 'the pause is not the configured one',
                    f'{u - t} instead of {want}: {got}')
            e.cover('pause')


def pair(e, rt, kinds):
    """Two streams at once, each with its own pause"""
    conf = [(None, None), (0.2, None), (None, 0.5), (0.7, 2)]
    k = e.int('k')
    runs = []
    for i in (0, 1):
        kind = e.pick(f'kind{i}', kinds)
        given, own = e.pick(f'pauses{i}', conf)
        if kind == 'helper':
            own = None
        want = given if given is not None else own if own is not None else DEFAULT
        runs.append((want, timed(e, rt, kind, [None, k], own, given)))
        rt.sleep(0.017)
    rt.sleep(3)
    for want, (x, reads, end) in runs:
        got = list(reads)
        end()
        e.check(len(got) > 3, 'the source was not asked again', f'{got}')
        for (_, t, data), (u, _, _) in zip(got, got[1:]):
            e.check(abs(u - t - (0 if data else want)) < EPS, 'the pause is not the '
                    'configured one', f'{u - t} instead of {want}: {got}')
    e.cover('pause')


def full(e, rt, kinds):
    """A full buffer without dropping: the source is asked within a pause of the room"""
    kind = e.pick('kind', kinds)
    given = e.pick('given', (0.2, 1))
    ks = increasing(e, 4)
    x, reads, end = timed(e, rt, kind, ks, None, given, maxlen=2, auto=False)
    rt.sleep(e.pick('wait', (0.1, 0.75, 2.25)))
    e.check(len(reads) == 2, 'a full buffer, but the source was read', f'{reads}')
    x.drop()
    t = rt.now
    rt.sleep(given + 0.001)
    e.check(len(reads) == 3 and reads[2][0] - t <= given + EPS,
            'the source was not asked after the pause', f'{reads} {t}')
    end()
    e.cover('room')


def reader(e, rt, how, two=False):
    """A waiting reader delivers an item within its pause"""
    k, = increasing(e, 1)
    buf = rt.RWLockSortedDeque()
    stop = rt.Event()
    rs = [rt.BufferReader(buffer=buf, source_reader_info={}, stop_event=stop)
          for _ in range(1 + two)]
    pauses = []
    for i, r in enumerate(rs):
        p = e.pick(f'pause{i}', (None, 0.004, 0.04, 0.25, 2))
        if p is not None:
            r.set_sleep_time_on_iter_none(p)
        pauses.append(0.1 if p is None else p)
    got = {}

    def consume(i):
        def run():
            if how == 'iterate':
                for x in rs[i]:
                    got[i] = (x, rt.now)
                    break
            else:
                got[i] = (rs[i].read(blocking=True), rt.now)
        return run

    def produce():
        rt.sleep(wait)
        with buf.writer_lock() as w:
            w.append(k)
        added.append(rt.now)

    wait = e.pick('wait', (0, 0.35, 2.2))
    added = []
    ts = [rt.spawn(produce, 'producer')] + [rt.spawn(consume(i), f'reader{i}')
                                            for i in range(len(rs))]
    rt.join(*ts)
    for i, r in enumerate(rs):
        e.check(ts[i + 1].error is None and i in got, 'raised', repr(ts[i + 1].error))
        e.check(same(got[i][0], k), 'wrong item')
        late = got[i][1] - added[0]
        e.check(late <= pauses[i] + EPS, 'an item reaches a waiting reader too late',
                f'{late} s, pause {pauses[i]} s')
        if wait:
            e.cover('waited')
    e.cover('delivered')


def ended(e, rt, how):
    """A waiting reader notices the end within its pause"""
    buf = rt.RWLockSortedDeque()
    stop = rt.Event()
    r = rt.BufferReader(buffer=buf, source_reader_info={}, stop_event=stop)
    p = e.pick('pause', (None, 0.004, 0.25, 2))
    if p is not None:
        r.set_sleep_time_on_iter_none(p)
    p = 0.1 if p is None else p
    wait = e.pick('wait', (0, 0.35, 2.2))

    def consume():
        out = list(r) if how == 'iterate' else r.read(blocking=True)
        e.check(not out, 'an item out of nowhere')
        return rt.now

    t = rt.spawn(consume, 'reader')
    rt.sleep(wait)
    stop.set()
    at = rt.now
    rt.join(t)
    e.check(t.error is None, 'raised', repr(t.error))
    e.check(t.result - at <= p + EPS, 'the end reaches a waiting reader too late',
            f'{t.result - at} s, pause {p} s')
    e.cover('ended')


BUF = ('direct', 'source', 'helper')
D = {'delivered', 'waited'}
TASKS = [
    Task('pause', pause, dict(kinds=BUF + ('stream source',), n=2), {'item', 'pause'}),
    Task('silence', pause, dict(kinds=BUF[:1], n=1, silence=40), {'item', 'pause'}),
    Task('full', full, dict(kinds=BUF), {'room'}),
    Task('two streams', pair, dict(kinds=BUF + ('stream source',)), {'pause'}),
    Task('reader iterates', reader, dict(how='iterate'), D, preempt=1, max_steps=10**5),
    Task('reader blocks', reader, dict(how='block'), D, preempt=1, max_steps=10**5),
    Task('two readers', reader, dict(how='block', two=True), D, max_steps=10**5),
    Task('end of iteration', ended, dict(how='iterate'), {'ended'}, preempt=1, max_steps=10**5),
    Task('end of blocking', ended, dict(how='block'), {'ended'}, preempt=1, max_steps=10**5),
    Task('pause, pre-empted', pause, dict(kinds=BUF + ('stream source',), n=2),
         {'item', 'pause'}, preempt=1, tier='thorough', limit=3000, shards=4),
    Task('pause deep', pause, dict(kinds=BUF + ('stream source',), n=5),
         {'item', 'pause'}, tier='thorough', limit=3000),
    Task('two readers, pre-empted', reader, dict(how='iterate', two=True), D, preempt=2, max_steps=10**5,
         tier='thorough', limit=3000, shards=4),
    Task('full, pre-empted', full, dict(kinds=BUF), {'room'}, preempt=2,
         tier='thorough', limit=3000, shards=4),
]
