"""A stream source is open exactly while it has open readers."""
import contextlib

from props.streams import *

BOUNDS = ('every sequence of up to 6 open / close operations on up to 3 readers (closed '
          'by close(), exit(), context manager, twice, in any order), source failures at '
          'open and read, readers that cannot be made or opened; two threads opening and closing; '
          '70 readers at once, 20 times reopened; configured before, between and after sessions; '
          '10050 items with default and given windows; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with sleeps',
               'one reader is closed by one thread']


def mk(e, rt, plan, sleep=0.1, **k):
    return Probe.make(e, rt, plan, base=rt.pkg.stream_source.StreamSource, sleep=sleep,
                      **k)


def is_open(src):
    return src.log.count('open') > src.log.count('close')


def counting(e, rt, nops, most=2, fails=(None,), slow=False,
             bodies=(KeyError,)):
    ks = increasing(e, 2)
    plan = [[('wait', 2.5, ks[0]) if slow else ks[0], ks[1]]]
    of = e.pick('open fails', fails)
    rt.sched.refuse = (0,) if of == 'thread' else ()
    src = mk(e, rt, plan, open_fails=() if of in (None, 'thread') else (of,))
    live, closed = [], []
    opened = 0
    for i in range(nops):
        ops = []
        if len(live) < most:
            ops.append('open')
        if live:
            ops += ['close', 'exit', 'error']
        if closed:
            ops.append('again')
        op = e.pick(f'op{i}', ops)
        if op == 'open':
            was = len(live)
            out = call(src.open_reader)
            if src.log and src.log[-1] == 'open!':
                expect_raise(e, out, Boom, 'the failure to open was hidden')
                e.check(not was, 'opened while open')
                e.cover('open failed')
            elif of == 'thread' and not opened:
                expect_raise(e, out, RuntimeError, 'the failure to start was hidden')
                opened += 1
                e.cover('no thread')
            else:
                r = expect_ok(e, out, 'open_reader raised')
                if not was:
                    opened += 1
                    if opened > 1:
                        e.cover('reopened')
                live.append(r)
                e.check(r.source_reader_info['session'] == opened - 1,
                        'a reader of an earlier session')
        elif op == 'again':
            out = call(closed[e.choice(f'which{i}', len(closed))].close)
            expect_ok(e, out, 'closing again raised')
            e.cover('closed again')
        else:
            r = live.pop(e.choice(f'which{i}', len(live)))
            if op == 'error':
                kind = e.pick(f'kind{i}', bodies)
                out = attempt(body_raises, r, kind)
                e.check(out[0] == 'raise' and type(out[1]) is kind,
                        'the context manager hid an exception', show(out))
            else:
                expect_ok(e, call(r.close if op == 'close' else r.exit), 'close raised')
            closed.append(r)
            e.cover('closed')
        if not slow:
            rt.sleep(0.25)
            e.check(is_open(src) == bool(live), 'open without readers, or closed with '
                    'readers', f'{len(live)} readers, log {src.log}')
        e.check(src.log.count('open') == opened, 'opened at the wrong time', f'{src.log}')
        for r in live:
            e.check(not r.is_stopped, 'an open reader is stopped')
            e.check(r.is_same_buffer(live[0]), 'readers on different buffers')
        for r in closed:
            if not live:
                e.check(r.is_stopped, 'a closed reader runs although the source closed')
    for r in live:
        r.close()
    rt.sleep(4)
    audit(e, src)
    e.check(src.log.count('open') == opened, 'opened at the wrong time', f'{src.log}')


def body_raises(r, kind):
    with r:
        raise kind('body')


def data(e, rt):
    """Readers read the items; options reach the buffer and the readers"""
    ks = increasing(e, 4)
    src = mk(e, rt, [ks])
    maxlen = e.pick('maxlen', ('default', None, 2, 0))
    auto = e.flag('auto drop')
    if maxlen != 'default':
        e.check(src.configure_buffer(maxlen=maxlen, auto_drop=auto) is src,
                'configure_buffer returns the source')
    drop = maxlen == 'default' or auto
    with src.open_reader() as r:
        rt.sleep(0.75)
        out = call(src.configure_buffer, maxlen=7)
        expect_raise(e, out, ValueError, 'configured after the start')
        want = ks if maxlen in ('default', None) else [] if not maxlen else \
            ks[2:] if drop else ks[:2]
        e.check(same_list(drain(r), want), 'wrong items', f'{want}')
        size = e.pick('read size', (1, 2, 3))
        strict, ignore = e.flag('strict'), e.flag('ignore')
        r2 = src.open_reader(read_size=size, strict_n=strict, ignore_no_item_found=ignore)
        out = call(r2.read)
        if strict and size > len(want) > 0 and size > 1:
            expect_raise(e, out, ValueError, 'strict_n was ignored')
            e.cover('strict')
        elif not want:
            if not ignore:
                expect_raise(e, out, ValueError, 'ignore_no_item_found was ignored')
        else:
            v = expect_ok(e, out, 'read raised')
            e.check(same_list(v if size > 1 else [v], want[:size]), 'wrong read size',
                    f'{v}')
            r2.tail()
            out = call(r2.read)
            if ignore:
                e.check(expect_ok(e, out, 'read raised') is None, 'no item expected')
            else:
                expect_raise(e, out, ValueError, 'ignore_no_item_found was ignored')
            e.cover('read')
        r2.close()
        e.check(not r.is_stopped, 'closed while a reader is open')
    e.check(r.is_stopped, 'the source is open without readers')
    e.check(src.log[-1] == 'close', 'not closed', str(src.log))


def many(e, rt):
    """More items than any default window"""
    k = e.int('k')
    w = e.pick('window', ('default', 'unset', None, 10043))
    n = 10050 if w != 'default' else 130
    src = mk(e, rt, [[k + i for i in range(n)]], points=False)
    if w == 'unset':
        src.configure_buffer(sleep_time_on_read_none_s=0.2)
    elif w != 'default':
        src.configure_buffer(maxlen=w)
    with src.open_reader() as r:
        rt.sleep(1)
        got = r.range(k, k + n)
        want = {'default': 100, 'unset': n, None: n}.get(w, w)
        e.check(len(got) == want, 'wrong window', f'{len(got)} items, window {w}')
        e.check(same(got[0], k + (n - want)), 'wrong items')
    e.cover('done')


def configured(e, rt, nops):
    """What configure_buffer accepts holds from then on, whenever it was called"""
    ks = increasing(e, 3)
    src = mk(e, rt, [ks])
    conf = None
    used = False
    for i in range(nops):
        op = e.pick(f'op{i}', ('session', 1, 2, None))
        if op == 'session':
            with src.open_reader() as r:
                rt.sleep(0.75)
                want = ks if conf is None else ks[-conf:]
                e.check(same_list(drain(r), want), 'wrong window', f'configured {conf}')
            used = True
            e.cover('session')
            continue
        out = call(src.configure_buffer, maxlen=op)
        if out[0] == 'ok':
            conf = op
            e.cover('accepted')
        else:
            expect_raise(e, out, ValueError, 'configuring failed')
            e.check(used, 'refused before the start')
            e.cover('refused')


def crowd(e, rt, n, rounds):
    """Many readers, many times"""
    k = e.int('k')
    src = mk(e, rt, [[k, k + 1, k + 2]], points=False)
    order = e.pick('order', ('first', 'last', 'middle'))
    twice = e.flag('twice')
    for i in range(rounds):
        rs = [src.open_reader() for _ in range(n)]
        rt.sleep(0.75)
        e.check(src.log.count('open') == i + 1 and is_open(src), 'not open once', str(i))
        e.check(all(same_list(drain(r), [k, k + 1, k + 2]) for r in rs), 'wrong items')
        while rs:
            e.check(is_open(src), 'closed with readers', f'{len(rs)} readers')
            r = rs.pop({'first': 0, 'last': -1, 'middle': len(rs) // 2}[order])
            r.close()
            if twice:
                r.close()
        rt.sleep(0.5)
        e.check(not is_open(src), 'open without readers')
    audit(e, src)
    e.cover('done')


def pair(e, rt, nops):
    """Two sources at once: each follows its own readers and configuration"""
    ks, js = increasing(e, 3), increasing(e, 3, 'j')
    # unequal sleeps: the threads of the two sources seldom wake at the same time
    srcs = [mk(e, rt, [ks], sleep=0.11), mk(e, rt, [js], sleep=0.13)]
    if e.flag('same class'):
        srcs[1] = type(srcs[0])()
        srcs[1].plan = [js]
        srcs[1].sleep = 0.13
    wants = [ks, js]
    conf = e.pick('configured', (None, 0, 1))
    if conf is not None:
        srcs[conf].configure_buffer(maxlen=2)
        wants[conf] = wants[conf][1:]
    live = [[], []]
    opened = [0, 0]
    for i in range(nops):
        ops = [(w, op) for w in (0, 1) for op in ('open', 'close')
               if len(live[w]) < 2 and op == 'open' or live[w] and op == 'close']
        w, op = ops[e.choice(f'op{i}', len(ops))]
        if op == 'open':
            opened[w] += not live[w]
            live[w].append(srcs[w].open_reader())
        else:
            r = live[w].pop(e.choice(f'which{i}', len(live[w])))
            r.close()
            e.check(r.is_stopped == (not live[w]), 'stopped with another source')
        rt.sleep(0.5)
        for s, l, o in zip(srcs, live, opened):
            e.check(is_open(s) == bool(l), 'open without readers, or closed with '
                    'readers', f'{len(l)} readers, log {s.log}')
            e.check(s.log.count('open') == o, 'opened at the wrong time', f'{s.log}')
            e.check(not any(r.is_stopped for r in l), 'an open reader is stopped')
    for s, l, want in zip(srcs, live, wants):
        for r in l:
            e.check(same_list(drain(r), want), 'wrong items', f'{want}')
            e.cover('read')
        for r in l:
            r.close()
    rt.sleep(2)
    for s in srcs:
        audit(e, s)
    e.cover('done')


def reader_class(e, rt):
    """The given reader class is used"""
    class Mine(rt.BufferReader):
        pass

    src = mk(e, rt, [[1]])
    given = e.flag('given')
    if given:
        rt.pkg.stream_source.StreamSource.__init__(src, reader_cls=Mine)
    r = src.open_reader()
    e.check(type(r) is (Mine if given else rt.BufferReader), 'wrong reader class',
            str(type(r)))
    r.close()
    e.cover('class')


def refused(e, rt, nops):
    """A reader that cannot be made or opened does not count as open"""
    ks = increasing(e, 2)
    src = mk(e, rt, [ks])
    bad = []

    class Mine(rt.BufferReader):
        def __init__(self, **kw):
            if bad == ['init']:
                raise Boom('init')
            super().__init__(**kw)

        def open(self):
            if bad == ['open']:
                raise Boom('open')
            return super().open()

    rt.pkg.stream_source.StreamSource.__init__(src, reader_cls=Mine)
    live = []
    for i in range(nops):
        op = e.pick(f'op{i}', ('open', 'init', 'open!') + (('close',) if live else ()))
        if op == 'close':
            live.pop(e.choice(f'which{i}', len(live))).close()
        elif op == 'open':
            live.append(src.open_reader())
        else:
            bad[:] = [op.strip('!')]
            expect_raise(e, call(src.open_reader), Boom, 'the failure was hidden')
            bad.clear()
            e.cover(op)
        rt.sleep(0.25)
        e.check(is_open(src) == bool(live), 'open without readers, or closed with readers',
                f'{len(live)} readers, log {src.log}')
        for r in live:
            e.check(not r.is_stopped, 'an open reader is stopped')
    for r in live:
        e.check(same_list(drain(r), ks), 'wrong items')
        r.close()
    rt.sleep(2)
    audit(e, src)


def dies(e, rt, nops):
    """The source fails while readers are open: closed at once, and opened again by the
    first reader after all of them are closed"""
    ks = increasing(e, 2)
    fail = e.pick('fail', FAILS)
    src = mk(e, rt, [[ks[0], fail], ks])
    live = []
    session = -1
    for i in range(nops):
        op = e.pick(f'op{i}', ('open',) + (('close',) if live else ()))
        if op == 'close':
            live.pop(e.choice(f'which{i}', len(live))).close()
        else:
            session += not live
            live.append(src.open_reader())
        rt.sleep(0.45)
        e.check(src.log.count('open') == session + 1, 'opened at the wrong time',
                str(src.log))
        e.check(is_open(src) == (bool(live) and session > 0), 'open without readers, open '
                'after it failed, or closed with readers', f'{session}, log {src.log}')
        for r in live:
            e.check(r.is_stopped == (session == 0), 'stopped state after a failure')
            e.check(r.source_reader_info['session'] == session, 'a reader of an earlier '
                    'session')
    for r in live:
        e.check(same_list(drain(r), ks[:1 + (session > 0)]), 'wrong items')
        r.close()
    if session:
        e.cover('reopened')
    rt.sleep(2)
    audit(e, src)


def threads(e, rt, scripts, read=True):
    """Consumers in several threads, each opening, reading and closing readers"""
    k, = increasing(e, 1)
    src = mk(e, rt, [[k]])
    errors = []

    def consumer(script):
        def run():
            for c in script:
                with src.open_reader() as r:
                    if read:
                        v = r.read(blocking=True)
                        e.check(same(v, k), 'a reader got no data', f'{v}')
                    e.check(not r.is_stopped, 'an open reader is stopped', str(src.log))
                    e.check(is_open(src), 'closed with an open reader', str(src.log))
            e.cover('consumed')
        return run

    ts = [rt.spawn(consumer(s), f'consumer{i}') for i, s in enumerate(scripts)]
    rt.join(*ts)
    for t in ts:
        e.check(t.error is None, 'a consumer failed', repr(t.error))
    rt.sleep(3)
    audit(e, src)


def chain(e, rt, rounds):
    """A source whose items come from a reader of another one, which has a reader of its
    own at times"""
    ks = increasing(e, 3)
    a = mk(e, rt, [ks], sleep=0.1)
    b = mk(e, rt, [[]], sleep=0.1)
    open_, close = b.open, b.close
    inner = []

    def b_open():
        open_()
        inner.append(a.open_reader(ignore_no_item_found=True))

    def b_close():
        close()
        inner[-1].close()

    b.open, b.close, b.read = b_open, b_close, lambda: inner[-1].read()
    direct = None
    for i in range(rounds):
        if direct is None and e.flag(f'direct{i}'):
            direct = a.open_reader()
            e.check(a.log.count('open') == 1 or i, 'opened again')
            e.cover('direct')
        how = e.pick(f'how{i}', ('with', 'close'))
        with contextlib.ExitStack() as st:
            r = expect_ok(e, call(b.open_reader), 'open_reader raised')
            if how == 'with':
                st.enter_context(r)
            e.check(is_open(a) and is_open(b), 'not open')
            rt.sleep(0.95)
            e.check(same_list(drain(r), ks), 'wrong items through a second source')
        if how != 'with':
            r.close()
        if e.flag(f'wait{i}'):
            rt.sleep(1.5)
            e.check(not is_open(b), 'not closed', str(b.log))
            e.check(is_open(a) == (direct is not None), 'the first source is open '
                    'without readers, or closed with some', str(a.log))
            e.cover('waited')
        if direct is not None and e.flag(f'end{i}'):
            direct.close()
            direct = None
    if direct is not None:
        e.check(same_list(drain(direct), ks), 'wrong items of the first source')
        direct.close()
    rt.sleep(3)
    audit(e, a)
    e.check(audit(e, b) == rounds, 'opened at the wrong time', str(b.log))


ALL = {'reopened', 'closed', 'closed again'}
TASKS = [
    Task('configured', configured, dict(nops=4), {'session', 'accepted'}),
    Task('five ops', counting, dict(nops=5), ALL, preempt=1),
    Task('six ops', counting, dict(nops=6, most=1), ALL),
    Task('three readers', counting, dict(nops=4, most=3), {'closed'}),
    Task('open fails', counting, dict(nops=4, fails=(0, 1)), {'open failed', 'closed'},
         preempt=1),
    Task('no thread', counting, dict(nops=3, fails=('thread',)), {'no thread', 'closed'}),
    Task('bodies', counting, dict(nops=3, bodies=BODY), {'closed'}),
    Task('slow reads', counting, dict(nops=4, slow=True), {'closed', 'reopened'}, preempt=1),
    Task('four ops, pre-empted', counting, dict(nops=3, most=1), {'closed', 'reopened'},
         preempt=1),
    Task('data', data, {}, {'strict', 'read'}),
    Task('crowd', crowd, dict(n=70, rounds=2), {'done'}, max_steps=10**7),
    Task('crowds', crowd, dict(n=2, rounds=20), {'done'}, max_steps=10**7),
    Task('many', many, {}, {'done'}, max_steps=10**8),
    Task('two sources', pair, dict(nops=4), {'done', 'read'}),
    Task('two sources, pre-empted', pair, dict(nops=2), {'done', 'read'}, preempt=1,
         tier='thorough', limit=3000, shards=4),
    Task('two sources deep', pair, dict(nops=6), {'done', 'read'}, tier='thorough',
         limit=3000),
    Task('chain', chain, dict(rounds=2), {'direct', 'waited'}, preempt=0),
    Task('chain, pre-empted', chain, dict(rounds=1), {'direct', 'waited'}, preempt=1,
         tier='thorough', limit=3000, shards=4),
    Task('reader class', reader_class, {}, {'class'}),
    Task('refused readers', refused, dict(nops=4), {'init', 'open!'}, preempt=1),
    Task('source fails', dies, dict(nops=5), {'reopened'}, preempt=1),
    Task('two threads', threads, dict(scripts=['a', 'b']), {'consumed'}, preempt=1),
    Task('two threads, reopening', threads, dict(scripts=['aa', 'b'], read=False),
         {'consumed'}, preempt=1),
    Task('two threads, twice', threads, dict(scripts=['a', 'b'], read=False),
         {'consumed'}, preempt=2, shards=4, tier='thorough', limit=3000),
    Task('seven ops', counting, dict(nops=7), ALL, tier='thorough', limit=3000),
    Task('six ops, failing', counting, dict(nops=6, fails=(0, 1, 2), most=3),
         ALL | {'open failed'}, tier='thorough', limit=3000),
    Task('four ops, pre-empted twice', counting, dict(nops=4, most=2),
         {'closed', 'reopened'}, preempt=2, tier='thorough', limit=3000, shards=4),
    Task('two threads, thrice', threads, dict(scripts=['aa', 'b'], read=False),
         {'consumed'}, preempt=3, tier='thorough', limit=4000, shards=8),
    Task('three threads', threads, dict(scripts=['a', 'b', 'c'], read=False),
         {'consumed'}, preempt=2, tier='thorough', limit=4000, shards=8),
]
