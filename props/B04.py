"""A stream reports truthfully whether it runs and what it reads."""
from props.streams import *

BOUNDS = ('every state of a stream (never started, starting, running, idle, in a long read, stopped, '
          'ended by a failing read, failed to open, restarted), queried from the '
          'controlling thread, a second one and the source itself; two streams side by side; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with sleeps',
               'reading the info of an open source does not fail']


def entry_points(rt, sb, reader=None):
    """Every way to get at the data"""
    out = dict(mk_reader=lambda: sb.mk_reader(), next=lambda: next(sb),
               call=lambda: sb(), iter=lambda: next(iter(sb)),
               mk_reader_kwargs=lambda: sb.mk_reader(read_size=2, peek=True))
    if reader is not None:
        out['attach_reader'] = lambda: sb.attach_reader(reader)
    return out


def state(e, rt, sb, running, info, label):
    e.check(sb.is_running is running, f'{label}: is_running is {not running}')
    i = sb.source_reader_info
    e.check(i == info, f'{label}: wrong source info', f'{i} expected {info}')


def not_started(e, rt):
    src = Probe.make(e, rt, [[1, 2]])
    other = rt.StreamBuffer(Probe.make(e, rt, [[7]]), maxlen=2)
    other.start()
    reader = other.mk_reader()
    sb = rt.StreamBuffer(src, maxlen=2) if e.flag('plain') else src.stream_buffer(2)
    state(e, rt, sb, False, None, 'before start')
    if e.flag('stopped'):
        call(sb.stop)  # whatever it says
        state(e, rt, sb, False, None, 'stopped before start')
    ps = entry_points(rt, sb, reader)
    name = e.pick('entry', sorted(ps))
    out = call(ps[name])
    expect_raise(e, out, rt.exceptions.StreamNotStartedError,
                 'no StreamNotStartedError before start', name)
    e.check(isinstance(out[1], rt.exceptions.Stream2PyError), 'not a Stream2PyError')
    e.check(src.log == [], 'the source was used before start')
    state(e, rt, sb, False, None, 'before start')
    # it can still be started
    sb.start()
    rt.sleep(0.5)
    state(e, rt, sb, True, dict(session=0, opens=1), 'after start')
    e.check(drain(sb.mk_reader()) == [1, 2], 'items of the started stream')
    sb.stop()
    state(e, rt, sb, False, dict(session=0, opens=1), 'after stop')
    other.stop()
    e.cover(name)


def lifecycle(e, rt, nops, restart=True):
    """Any sequence of start / stop / end by failure; state is exact after each"""
    k = e.int('k')
    fail = e.pick('fails at', (None, 0, 1, 'slow'))
    slow = fail == 'slow'  # no failure, but long reads
    if slow:
        fail = None
        e.cover('slow')
    src = Probe.make(e, rt, [[k] + [('wait', 2.5, None)] * 9 if slow else
                             [k, None] if fail is None else [Boom] if fail == 0 else
                             [k, Boom]], open_fails=(1,) if e.flag('2nd open fails') else ())
    sb = rt.StreamBuffer(src, maxlen=2)
    sb.start()
    e.check(fail is not None or sb.is_running, 'not running after start')
    session, running = 0, True
    readers = [sb.mk_reader()]
    for i in range(nops):
        rt.sleep(0.65)
        if fail is not None:
            running = False
        state(e, rt, sb, running, dict(session=session, opens=src.opens)
              if session is not None else None, f'step {i}')
        for r in readers[:-1]:
            e.check(r.is_stopped, 'a reader of an earlier session is not stopped')
        e.check(readers[-1].is_stopped == (not running or session is None),
                'a reader reports the wrong state')
        if session is not None:
            e.check(readers[-1].source_reader_info == dict(session=session,
                                                           opens=src.opens),
                    'a reader has the wrong source info')
        op = e.pick(f'op{i}', ('start', 'stop'))
        if op == 'stop':
            sb.stop()
            running = False
            e.check(not sb.is_running, 'running after stop')
            e.check(readers[-1].is_stopped, 'a reader runs after stop')
            e.cover('stopped')
        else:
            out = call(sb.start)
            if src.log[-1] == 'open!' or 'open!' in src.log[-1:]:
                expect_raise(e, out, Boom, 'start hid the failure to open')
                e.check(not sb.is_running, 'running after a failed open')
                running = False
                session = None
                e.cover('open failed')
                out = call(sb.mk_reader)
                expect_raise(e, out, rt.exceptions.StreamNotStartedError,
                             'a reader of a stream that failed to start')
                return
            expect_ok(e, out, 'start raised')
            session = src.session
            running = True
            readers.append(sb.mk_reader())
            e.check(readers[-1].source_reader_info['session'] == session,
                    'a reader has the info of another session')
            e.cover('restarted')
    rt.sleep(0.65)
    sb.stop()


def pair(e, rt, nops):
    """Two streams at once: each reports its own state and source info"""
    k = e.int('k')
    ends = e.flag('fails')
    srcs = [Probe.make(e, rt, [[k], [k, k + 1]], sleep=0.11),
            Probe.make(e, rt, [[k + 5] + [Boom] * ends], sleep=0.13)]
    if e.flag('same class'):
        srcs[1] = type(srcs[0])()
        srcs[1].plan, srcs[1].sleep = [[k + 5] + [Boom] * ends], 0.13
    sbs = [rt.StreamBuffer(s, maxlen=2) for s in srcs]
    readers = [[], []]
    running = [False, False]
    for i in range(nops):
        j = e.choice(f'stream{i}', 2)
        op = e.pick(f'op{i}', ('start', 'stop') if running[j] else ('start',))
        if op == 'start':
            sbs[j].start()
            readers[j].append(sbs[j].mk_reader())
            running[j] = True
        else:
            sbs[j].stop()
            running[j] = False
        rt.sleep(0.45)
        if ends:
            running[1] = False
        for sb, src, run, rs in zip(sbs, srcs, running, readers):
            state(e, rt, sb, run, dict(session=src.session, opens=src.opens) if rs
                  else None, f'step {i}')
            for n, r in enumerate(rs):
                e.check(r.is_stopped == (not run or n < len(rs) - 1),
                        'a reader reports the wrong state')
                e.check(r.source_reader_info == dict(session=n, opens=n + 1),
                        'a reader has the wrong source info')
            if not rs:
                expect_raise(e, call(sb.mk_reader), rt.exceptions.StreamNotStartedError,
                             'no StreamNotStartedError before start')
                e.cover('only one')
    for sb, rs in zip(sbs, readers):
        if rs:
            sb.stop()
    e.cover('done')


def starting(e, rt, entry):
    """While another thread is starting the stream"""
    src = Probe.make(e, rt, [[1, 2]])
    orig = src.open
    slow = e.pick('opening takes', (0, 1.0))

    def open_():
        if slow:
            rt.sleep(slow)
        orig()

    src.open = open_
    sb = rt.StreamBuffer(src, maxlen=2)
    t = rt.spawn(sb.start, 'starter')
    if slow:
        rt.sleep(0.5)
    if entry == 'is_running':
        out = call(lambda: sb.is_running)
        v = expect_ok(e, out, 'is_running raised')
        if v:
            e.check(src.log[:1] == ['open'], 'running before the source is open')
            e.cover('ready')
        else:
            e.check(slow == 0, 'not running while starting')
            e.cover('early')
    else:
        out = call(entry_points(rt, sb)[entry])
        if out[0] == 'raise':
            e.check(isinstance(out[1], rt.exceptions.StreamNotStartedError) and
                    slow == 0, 'a reader made while starting', show(out))
            e.cover('early')
        else:
            e.check(src.log[:1] == ['open'], 'a reader before the source is open')
            if entry == 'mk_reader':
                rt.join(t)
                rt.sleep(0.5)
                e.check(drain(out[1]) == [1, 2], 'the reader misses data')
            e.cover('ready')
    rt.join(t)
    e.check(t.error is None, 'start raised', repr(t.error))
    e.check(sb.is_running, 'not running after start')
    sb.stop()


def restarting(e, rt, entry):
    """While another thread starts a stream again, with or without stopping it first"""
    src = Probe.make(e, rt, [[1, 2], [3, 4]])
    orig, slow = src.open, e.pick('opening takes', (0, 1.0))

    def open_():
        if slow and src.session == 0:
            rt.sleep(slow)
        orig()

    src.open = open_
    sb = rt.StreamBuffer(src, maxlen=2)
    sb.start()
    rt.sleep(0.5)
    infos = [dict(session=i, opens=i + 1) for i in (0, 1)]
    how = e.pick('how', ('start', 'stop start'))

    def again():
        if how != 'start':
            sb.stop()
        sb.start()

    t = rt.spawn(again, 'starter')
    rt.sleep(e.pick('after', (0, 1, 1.5)))
    if entry == 'is_running':
        v = expect_ok(e, call(lambda: sb.is_running), 'is_running raised')
        e.check(v or not slow or how != 'start', 'not running while starting')
    elif entry == 'source_reader_info':
        v = expect_ok(e, call(lambda: sb.source_reader_info), 'source_reader_info raised')
        e.check(v is None or v in infos, 'wrong source info', v)
        e.cover('none' if v is None else f"session {v['session']}")
    elif entry == 'mk_reader':
        r = expect_ok(e, call(sb.mk_reader), 'mk_reader raised')
        rt.join(t)
        rt.sleep(0.5)
        s = infos.index(r.source_reader_info)
        e.check(drain(r) == [[1, 2], [3, 4]][s] and r.is_stopped == (s == 0),
                'a reader of both sessions', f'{s}')
        e.cover(f'session {s}')
    else:
        v = call(next, sb)
        if v[0] == 'raise':
            # what next says of an ended session, if there was nothing in it
            e.check(how != 'start', 'next raised', show(v))
            expect_raise(e, v, StopIteration, 'next raised')
        else:
            e.check(v[1] in (None, 1, 3), 'wrong item', v)
    rt.join(t)
    e.check(t.error is None, 'start raised', repr(t.error))
    state(e, rt, sb, True, infos[1], 'restarted')
    e.cover(how)
    sb.stop()


def asked_by_source(e, rt, what):
    """The source itself asks how its stream is doing, also while another thread starts
    the stream again or stops it"""
    first = [('wait', 0.4, 1), 2]
    if e.flag('fails'):
        first.append(Boom)
    src = Probe.make(e, rt, [first, [3, 4]])
    sb = rt.StreamBuffer(src, maxlen=2)
    asked = []

    def ask(where):
        if what == 'is_running':
            v = expect_ok(e, call(lambda: sb.is_running), f'is_running raised in {where}')
            asked.append((where, src.session, v))
        elif what == 'source_reader_info':
            v = expect_ok(e, call(lambda: sb.source_reader_info), f'info raised in {where}')
            e.check(v == dict(session=src.session, opens=src.opens), 'wrong source info',
                    f'{v} in {where} of session {src.session}')
        else:
            out = call(sb.mk_reader)
            r = expect_ok(e, out, f'mk_reader raised in {where}')
            v = r.source_reader_info['session']
            e.check(v == src.session, "a reader of another session than the source's",
                    f'{v} in {where} of session {src.session}')
        e.cover(where)

    read, close = src.read, src.close

    def read_():
        x = read()
        ask('read')
        return x

    def close_():
        ask('close')
        close()

    src.read, src.close = read_, close_
    sb.start()
    rt.sleep(e.pick('after', (0, 0.2, 0.7)))
    op = e.pick('op', ('start', 'stop start', 'stop'))
    if op != 'start':
        sb.stop()
    if op != 'stop':
        sb.start()
        e.check(sb.is_running, 'not running after start')
    rt.sleep(0.5)
    sb.stop()
    e.cover(op)
    for s in range(src.opens):
        said = [(w, v) for w, t, v in asked if t == s]
        e.check(all(not v for w, v in said if w == 'close'), 'running when closed',
                str(said))
        went = [v for w, v in said if w == 'read']
        e.check(went == sorted(went, reverse=True), 'running again', str(said))


BOTH = {'start', 'stop start'}
TASKS = [
    Task('not started', not_started, {}, {'attach_reader', 'call', 'iter', 'mk_reader',
                                          'mk_reader_kwargs', 'next'}),
    Task('lifecycle', lifecycle, dict(nops=3), {'stopped', 'restarted', 'open failed', 'slow'},
         preempt=1),
    Task('two streams', pair, dict(nops=4), {'only one', 'done'}),
    Task('starting mk_reader', starting, dict(entry='mk_reader'), {'early', 'ready'},
         preempt=2),
    Task('starting next', starting, dict(entry='next'), {'early', 'ready'}, preempt=2),
    Task('starting is_running', starting, dict(entry='is_running'), {'early', 'ready'},
         preempt=2),
    Task('restarting is_running', restarting, dict(entry='is_running'), BOTH, preempt=1),
    Task('restarting source_reader_info', restarting, dict(entry='source_reader_info'),
         BOTH | {'none', 'session 0', 'session 1'}, preempt=1),
    Task('restarting mk_reader', restarting, dict(entry='mk_reader'),
         BOTH | {'session 0', 'session 1'}, preempt=1),
    Task('restarting next', restarting, dict(entry='next'), BOTH, preempt=1),
    Task('restarting deep', restarting, dict(entry='source_reader_info'), BOTH, preempt=2,
         gran='instr', tier='thorough', limit=3000, shards=4),
    Task('asked by the source', asked_by_source, dict(what='is_running'),
         BOTH | {'stop', 'read', 'close'}, preempt=2),
    Task('info asked by the source', asked_by_source, dict(what='source_reader_info'),
         BOTH | {'stop', 'read', 'close'}, preempt=1),
    Task('reader made by the source', asked_by_source, dict(what='mk_reader'),
         BOTH | {'stop', 'read', 'close'}, preempt=1),
    Task('lifecycle deep', lifecycle, dict(nops=4), {'stopped', 'restarted', 'open failed'},
         preempt=2, tier='thorough', limit=3000, shards=4),
    Task('starting mk_reader deep', starting, dict(entry='mk_reader'), {'early', 'ready'},
         preempt=3, tier='thorough', limit=3000, shards=4),
    Task('starting is_running deep', starting, dict(entry='is_running'),
         {'early', 'ready'}, preempt=2, gran='instr', tier='thorough', limit=3000),
]
