"""What the source delivers is what the buffer holds."""
from props.streams import *
from props.readers import Rec

BOUNDS = ('up to 5 reads, each returning no data or an item with any key (so items may '
          'arrive out of order, repeat, or be falsy), windows of 0, 1, 2, 3 or unbounded, '
          'integer items and records that are falsy, unordered and array-like in comparisons; '
          'keys that are tuples or that only compare with keys; sources of any class; two streams side by side with up to 4 '
          'starts and stops; 10050 items with default and given windows; up to 2 pre-emptions')
ASSUMPTIONS = ['keys are totally ordered']


def faithful(e, rt, n, mode, windows, none=True, order=True, base='SourceReader'):
    maxlen = e.pick('window', windows)
    ks = [e.int(f'k{i}') for i in range(n)]
    if not order:
        for a, b in zip(ks, ks[1:]):
            e.assume(a < b)
    items = ks if mode == 'plain' else [Rec(mk_key(mode, k), 'same', i)
                                           for i, k in enumerate(ks)]
    plan, seq = [], []
    for i, it in enumerate(items):
        if none and e.flag(f'none{i}'):
            plan.append(None)
            e.cover('no data')
        else:
            plan.append(it)
            seq.append((it, ks[i]))
    B = dict(SourceReader=rt.SourceReader, object=object,
             StreamSource=rt.pkg.stream_source.StreamSource)[base]
    src = Probe.make(e, rt, [plan], key=None if mode == 'plain' else (lambda r: r.k),
                     sleep=0.1, base=B)
    sb = rt.StreamBuffer(src, maxlen=maxlen)
    sb.start()
    r0 = sb.mk_reader()
    rt.sleep(0.1 * n + 0.55)
    # the accepted items: up to the first that is not greater than its predecessor
    good = []
    failed = False
    for it, k in seq:
        if good and not k > good[-1][1]:
            failed = True
            e.cover('out of order')
            break
        good.append((it, k))
    window = good if maxlen is None else good[max(0, len(good) - maxlen):]
    got = drain(sb.mk_reader())
    e.check(same_list(got, [it for it, _ in window]), 'the buffer is not what was read',
            f'read {seq} window {maxlen} buffered {got}')
    e.check(same_list(drain(r0), [it for it, _ in window]), 'an earlier reader sees '
            'something else')
    e.check(sb.is_running == (not failed), 'running state is wrong', f'failed: {failed}')
    if failed:
        audit(e, src)
    elif len(good) > len(window):
        e.cover('evicted')
    else:
        e.cover('all kept')
    sb.stop()
    e.check(same_list(drain(sb.mk_reader()), [it for it, _ in window]),
            'the buffer changed when the stream stopped')
    r = sb.mk_reader()
    if window:
        e.check(same(r.head(), window[0][0]) if mode == 'plain' else
                r.head() is window[0][0], 'wrong head')
        e.check(r.tail() is window[-1][0] if mode != 'plain' else
                same(r.tail(), window[-1][0]), 'wrong tail')


def ended(e, rt, n, window, wait=(0, 0.4)):
    """Everything that was read is buffered, however and whenever the stream ends"""
    ks = increasing(e, n)
    plan = []
    for i, k in enumerate(ks):
        t = e.pick(f'wait{i}', wait)
        plan.append(('wait', t, k) if t else k)
    fails = e.flag('fails')
    if fails:
        plan.append(Boom)
    src = Probe.make(e, rt, [plan], sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=window)
    sb.start()
    r0 = sb.mk_reader()
    rt.sleep(e.pick('stop after', [0, 0.3, 0.5, 2]))
    sb.stop()
    rt.sleep(3)
    want = src.reads[0] if window is None else src.reads[0][-window:]
    for r in (r0, sb.mk_reader()):
        e.check(same_list(drain(r), want), 'an item that was read is not buffered',
                f'{want}')
    if len(src.reads[0]) < n:
        e.cover('stopped early')
    audit(e, src)
    e.cover('failed' if src.log[-2] == 'read!' else 'stopped')


def live(e, rt, n, window):
    """A consumer that keeps up sees every item once, in order, whatever the window"""
    ks = increasing(e, n)
    gaps = [e.pick(f'gap{i}', [0, 1, 2]) for i in range(n)]
    plan = []
    for k, g in zip(ks, gaps):
        plan += [None] * g + [k]
    src = Probe.make(e, rt, [plan], sleep=0.3)
    sb = rt.StreamBuffer(src, maxlen=window)
    # items never arrive more than `window` at a time between two polls
    run = 1
    for g in gaps[1:]:
        run = run + 1 if g == 0 else 1
        if window is not None and run > window:
            e.assume(False)
    got = []
    sb.start()
    it = iter(sb.mk_reader())
    for _ in range(n):
        got.append(next(it))
    e.check(same_list(got, ks), 'a consumer missed or repeated items', f'{got} of {ks}')
    sb.stop()
    e.cover('consumed')


def many(e, rt):
    """More items than the default window of 100"""
    k = e.int('k')
    n = 130
    src = Probe.make(e, rt, [[k + i for i in range(n)]], points=False)
    w = e.pick('window', ('default', None, 120, 'source'))
    sb = rt.StreamBuffer(src) if w == 'default' else src.stream_buffer(110) \
        if w == 'source' else rt.StreamBuffer(src, maxlen=w)
    with sb:
        rt.sleep(1)
        got = drain(sb.mk_reader(), 200)
        want = {'default': 100, None: n, 'source': 110}.get(w, w)
        e.check(len(got) == want, 'wrong window', f'{len(got)} items, window {w}')
        e.check(same(got[0], k + (n - want)), 'wrong items')
    e.cover('done')


def huge(e, rt, n):
    """An unbounded window, or one larger than any default, keeps everything"""
    w = e.pick('window', (None, n - 7))
    k = e.int('k')
    src = Probe.make(e, rt, [[k + i for i in range(n)]], points=False)
    with rt.StreamBuffer(src, maxlen=w) as sb:
        rt.sleep(1)
        got = sb.mk_reader().range(k, k + n)
        e.check(len(got) == (w or n) and same(got[0], k + (n - (w or n))), 'wrong window',
                f'{len(got)} items of {n}, window {w}')
    e.cover('done')


def two(e, rt, nops):
    """Two streams run side by side: each buffer holds what its own source delivered"""
    sb, src, live, want = [], [], [False] * 2, [[], []]
    for i, window in enumerate((2, None)):
        ks = increasing(e, 3, pre='ab'[i])
        items = [Rec(Key(k), 'same', 10 * i + j) for j, k in enumerate(ks)] if i else ks
        src.append(Probe.make(e, rt, [items[:2], items[1:]], sleep=0.1,
                              base=(None, object)[i],
                              key=(lambda x: x.k) if i else None))
        sb.append(rt.StreamBuffer(src[i], maxlen=window, auto_drop=not i,
                                  sleep_time_on_read_none_s=(0.1, 0.2)[i]))
    for n in range(nops):
        i = e.pick(f'stream{n}', [0, 1])
        if live[i] and e.flag(f'stop{n}'):
            sb[i].stop()
            live[i] = False
            e.cover('stopped')
        else:
            sb[i].start()
            live[i] = True
            e.cover('started')
        rt.sleep(0.5)
        for j in (0, 1):
            e.check(sb[j].is_running == live[j], 'a stream follows another one',
                    f'{live} {n}')
            if not src[j].opens:
                continue
            e.check(len(src[j].reads) == src[j].opens, 'opened too often')
            got = drain(sb[j].mk_reader())
            e.check(same_list(got, src[j].reads[-1]) and len(got) == 2,
                    'the buffer is not what its source delivered',
                    f'{got} {src[j].reads[-1]}')
            e.check(sb[j].source_reader_info == dict(session=src[j].session,
                                                     opens=src[j].opens),
                    'the info of another stream')
        if all(s.opens for s in src):
            e.check(not sb[0].mk_reader().is_same_buffer(sb[1].mk_reader()),
                    'readers of different streams are told the same')
    for i in (0, 1):
        if live[i]:
            sb[i].stop()
    rt.sleep(1)
    for s in src:
        audit(e, s)


TASKS = [
    Task('plain', faithful, dict(n=4, mode='plain', windows=(1, 2, 3, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}),
    Task('records', faithful, dict(n=4, mode='rec', windows=(2, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}),
    Task('stream source', faithful, dict(n=3, mode='rec', windows=(2,),
                                         base='StreamSource'),
         {'no data', 'out of order', 'evicted', 'all kept'}),
    Task('tuple', faithful, dict(n=3, mode='tuple', windows=(2, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}),
    Task('naive keys', faithful, dict(n=3, mode='naive', windows=(2, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}),
    Task('any source', faithful, dict(n=3, mode='rec', windows=(2,), base='object'),
         {'evicted'}),
    Task('huge', huge, dict(n=10050), {'done'}, max_steps=10**8),
    Task('many', many, {}, {'done'}, max_steps=10**6),
    Task('two streams', two, dict(nops=4), {'stopped', 'started'}),
    Task('two streams deep', two, dict(nops=6), {'stopped', 'started'}, preempt=1,
         tier='thorough', limit=3000),
    Task('pre-empted', faithful, dict(n=2, mode='plain', windows=(1,)),
         {'no data', 'out of order', 'evicted', 'all kept'}, preempt=2),
    Task('increasing', faithful, dict(n=6, mode='plain', windows=(0, 1, 4, 6, None),
                                      order=False),
         {'no data', 'evicted', 'all kept'}),
    Task('ended', ended, dict(n=3, window=None), {'stopped', 'failed', 'stopped early'}),
    Task('ended, pre-empted', ended, dict(n=2, window=1, wait=(0.4,)),
         {'stopped', 'failed', 'stopped early'}, preempt=1),
    Task('ended deep', ended, dict(n=3, window=2, wait=(0, 0.4)),
         {'stopped', 'failed', 'stopped early'}, preempt=1, tier='thorough', limit=3000,
         shards=4),
    Task('live', live, dict(n=3, window=2), {'consumed'}, preempt=1),
    Task('live unbounded', live, dict(n=3, window=None), {'consumed'}, preempt=1),
    Task('plain deep', faithful, dict(n=6, mode='plain', windows=(1, 2, 3, 4, 5, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}, tier='thorough', limit=3000),
    Task('records deep', faithful, dict(n=5, mode='rec', windows=(1, 2, 3, None)),
         {'no data', 'out of order', 'evicted', 'all kept'}, tier='thorough', limit=3000),
    Task('pre-empted deep', faithful, dict(n=3, mode='plain', windows=(2,)),
         {'no data', 'out of order', 'evicted', 'all kept'}, preempt=2, tier='thorough',
         limit=3000, shards=4),
    Task('live deep', live, dict(n=4, window=2), {'consumed'}, preempt=2,
         tier='thorough', limit=3000, shards=4),
]
