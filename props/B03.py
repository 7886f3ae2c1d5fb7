"""Without auto-drop nothing is lost and the buffer stays within its bound."""
from props.streams import *

BOUNDS = ('windows of 0..3 (or unbounded), sources with 1..5 items in bursts or with '
          'gaps, every sequence of up to 3 drops of 0..2 items with reads by a reader or from the stream itself between them; '
          ''
          'windows of 100 and 256; two streams side by side; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with sleeps']


def nexts(sb, called=False):
    """What the stream itself gives next, as long as there is something"""
    out = []
    while True:
        x = sb() if called else next(sb)
        if x is None:
            return out
        out.append(x)


def lossless(e, rt, n, windows, drops, ways=('reader',), nones=False, counts=(1, 2)):
    w = e.pick('window', windows)
    ks = increasing(e, n)
    plan = []
    for i, k in enumerate(ks):
        if nones and e.flag(f'none{i}'):
            plan.append(None)
        plan.append(k)
    src = Probe.make(e, rt, [plan], sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=w, auto_drop=False)
    sb.start()
    r = sb.mk_reader()
    way = e.pick('way', ways)
    take = dict(reader=lambda: drain(r), next=lambda: nexts(sb), call=lambda: nexts(sb, True))[way]
    got = []
    base = 0  # items dropped so far
    rt.sleep(0.75)
    for i in range(drops + 1):
        rd = sum(len(x) for x in src.reads)
        held = rd - base
        e.check(w is None or held <= w, 'read from the source while the buffer was full',
                f'{rd} read, {base} dropped, window {w}')
        want = min(n, base + w) if w is not None else n
        e.check(rd == want, 'reading did not go on although there was room',
                f'{rd} read, {base} dropped, window {w}')
        now = drain(sb.mk_reader())
        e.check(same_list(now, ks[base:rd]), 'an item was lost or the buffer is wrong',
                f'{now} expected {ks[base:rd]}')
        if w is not None and held == w:
            e.cover('full')
        got += take()
        e.cover(way)
        e.check(same_list(got, ks[:rd]), 'the consumer missed or repeated an item',
                f'{got} expected {ks[:rd]}')
        if i == drops:
            break
        if not w and w is not None:
            counts = (0,)
            e.cover('no room at all')
        c = e.pick(f'drop{i}', counts)
        if c > held:
            e.assume(False)
        expect_ok(e, call(sb.drop, c) if c != 1 or e.flag('default') else call(sb.drop),
                  'drop raised')
        base += c
        e.cover('dropped')
        rt.sleep(0.75)
    e.check(sb.is_running, 'the stream stopped')
    sb.stop()


def race(e, rt, n, w, way='reader'):
    """Drops that race with the thread that fills the buffer"""
    ks = increasing(e, n)
    src = Probe.make(e, rt, [ks], sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=w, auto_drop=False)
    sb.start()
    r = sb.mk_reader()
    got = []
    for _ in range(60):
        x = r.read(ignore_no_item_found=True) if way == 'reader' else next(sb)
        if x is None:
            rt.sleep(0.05)
        else:
            got.append(x)
            e.check(len(src.reads[0]) - len(got) + 1 <= w,
                    'read from the source while the buffer was full',
                    f'{len(src.reads[0])} read, {len(got) - 1} dropped')
            sb.drop()
            if len(got) == n:
                break
    e.check(same_list(got, ks), 'the consumer missed or repeated an item', f'{got} of {ks}')
    sb.stop()
    audit(e, src)
    e.cover('consumed')


def many(e, rt):
    """Large windows fill and stay full; what is dropped is made up for"""
    k = e.int('k')
    n = 450
    w = e.pick('window', ('default', 100, 256))
    src = Probe.make(e, rt, [[k + i for i in range(n)]], sleep=0.1, points=False)
    sb = rt.StreamBuffer(src, auto_drop=False, **({} if w == 'default' else dict(maxlen=w)))
    w = 100 if w == 'default' else w
    lo = 0
    c = e.pick('drop', (1, 30, w))
    with sb:
        r = sb.mk_reader()
        got = []
        for _ in range(3):
            rt.sleep(0.5)
            hi = min(n, lo + w)
            e.check(len(src.reads[0]) == hi, 'wrong number of reads', f'{len(src.reads[0])}')
            now = drain(sb.mk_reader(), w + 5)
            e.check(same_list(now, [k + i for i in range(lo, hi)]), 'wrong buffer')
            got += drain(r, w + 5)
            e.check(same_list(got, [k + i for i in range(hi)]), 'missed or repeated')
            sb.drop(min(c, hi - lo))
            lo += min(c, hi - lo)
    e.cover('done')


def pair(e, rt, n):
    """Two streams at once, each with its own window and dropping"""
    ws = [e.pick(f'window{i}', (1, 2)) for i in (0, 1)]
    auto = e.flag('auto')  # the second one drops by itself
    kss = [increasing(e, n), increasing(e, n, 'j')]
    srcs = [Probe.make(e, rt, [ks], sleep=s) for ks, s in zip(kss, (0.11, 0.13))]
    if e.flag('same class'):
        srcs[1] = type(srcs[0])()
        srcs[1].plan, srcs[1].sleep = [kss[1]], 0.13
    sbs = [rt.StreamBuffer(s, maxlen=w, auto_drop=a)
           for s, w, a in zip(srcs, ws, (False, auto))]
    rs = []
    for sb in sbs:
        sb.start()
        rs.append(sb.mk_reader())
    rt.sleep(0.75)
    base = [0, n - ws[1] if auto else 0]
    got = [[], []]
    for i in range(3):
        for j in (0, 1):
            rd = len(srcs[j].reads[0])
            e.check(rd == min(n, base[j] + ws[j]), 'wrong number of reads', f'{rd}')
            e.check(same_list(drain(sbs[j].mk_reader()), kss[j][base[j]:rd]),
                    'wrong buffer')
            got[j] += drain(rs[j])
            if not (auto and j):
                e.check(same_list(got[j], kss[j][:rd]), 'missed or repeated')
        if i == 2:
            break
        j = e.choice(f'drops{i}', 2)
        if auto and j:
            expect_raise(e, call(sbs[1].drop), RuntimeError, 'drop was not refused')
        else:
            e.assume(base[j] < n)
            sbs[j].drop()
            base[j] += 1
        rt.sleep(0.75)
    for sb in sbs:
        sb.stop()
    for s in srcs:
        audit(e, s)
    e.cover('done')


def refused(e, rt):
    """With auto-drop, dropping by hand is refused and changes nothing"""
    ks = increasing(e, 2)
    src = Probe.make(e, rt, [ks])
    how = e.choice('how', 3)
    sb = rt.StreamBuffer(src, maxlen=2) if how == 0 else \
        rt.StreamBuffer(src, maxlen=2, auto_drop=True) if how == 1 else \
        src.stream_buffer(2)
    sb.start()
    rt.sleep(0.5)
    expect_raise(e, call(sb.drop), RuntimeError, 'drop was not refused')
    e.check(same_list(drain(sb.mk_reader()), ks), 'a refused drop changed the buffer')
    sb.stop()
    e.cover('refused')


TASKS = [
    Task('lossless', lossless, dict(n=5, windows=(1, 2, 3), drops=2, counts=(1, 2, 0),
                                    ways=('reader', 'next', 'call')),
         {'full', 'dropped', 'reader', 'next', 'call'}),
    Task('three drops', lossless, dict(n=4, windows=(1, 2, 3), drops=3, nones=True),
         {'full', 'dropped'}),
    Task('unbounded', lossless, dict(n=3, windows=(None, 5), drops=1, nones=True),
         {'dropped'}),
    Task('no room', lossless, dict(n=2, windows=(0,), drops=1, nones=True),
         {'no room at all'}),
    Task('pre-empted', lossless, dict(n=3, windows=(1, 2), drops=1), {'full', 'dropped'},
         preempt=1),
    Task('race', race, dict(n=3, w=2), {'consumed'}, preempt=2, shards=3),
    Task('race 1', race, dict(n=3, w=1), {'consumed'}, preempt=2, shards=4),
    Task('race, next', race, dict(n=3, w=2, way='next'), {'consumed'}, preempt=1),
    Task('many', many, {}, {'done'}, max_steps=10**7),
    Task('two streams', pair, dict(n=3), {'done'}),
    Task('refused', refused, {}, {'refused'}),
    Task('lossless deep', lossless, dict(n=7, windows=(1, 2, 3, 4, 5), drops=4,
                                         counts=(1, 2, 3)), {'full', 'dropped'},
         tier='thorough', limit=3000),
    Task('pre-empted deep', lossless, dict(n=3, windows=(1, 2), drops=2),
         {'full', 'dropped'}, preempt=2, tier='thorough', limit=3000, shards=4),
    Task('race deep', race, dict(n=4, w=2), {'consumed'}, preempt=3, tier='thorough',
         limit=3000, shards=8),
]
