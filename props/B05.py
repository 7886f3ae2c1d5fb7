"""Sessions of one stream do not mix."""
from props.streams import *

BOUNDS = ('2-3 sessions (or 8) of one stream (started again with or without a stop, or ended by '
          'a failing read), 1-2 items with any keys each, readers made in every session '
          'and read in every later one; a source whose key, info and kind of readers change when '
          'it is opened again; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with sleeps']


def plans(e, sizes, fail=False):
    """Items of each session: increasing within, unrelated across"""
    out = []
    for s, n in enumerate(sizes):
        p = increasing(e, n, f's{s}k')
        if fail and s < len(sizes) - 1 and e.flag(f'ends{s}'):
            p = p + [Boom]
        out.append(p)
    return out


def restart(e, sb, i):
    how = e.pick(f'restart{i}', ('start', 'stop start'))
    if how != 'start':
        sb.stop()
    sb.start()
    e.cover(how)


def sessions(e, rt, sizes, fail=False):
    ps = plans(e, sizes, fail)
    items = [[x for x in p if x is not Boom] for p in ps]
    src = Probe.make(e, rt, ps, sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=5)
    sb.start()
    rs = []
    late = []  # readers read only after the next session began
    for s in range(len(sizes)):
        if s:
            restart(e, sb, s)
        rs.append((sb.mk_reader(), sb.mk_reader()))
        late.append(sb.mk_reader())
        rt.sleep(0.65)
        for t in range(s + 1):
            a, b = rs[t]
            for u in range(s + 1):
                e.check(a.is_same_buffer(rs[u][1]) == (t == u),
                        'is_same_buffer is wrong', f'sessions {t} and {u}')
            e.check(a.is_stopped == (t < s or Boom in ps[t]), 'wrong is_stopped')
            e.check(a.source_reader_info['session'] == t, 'info of another session')
            if t == s:
                e.check(same_list(drain(a), items[t]), 'a reader sees other items',
                        f'session {t}')
            else:
                e.check(a.read(ignore_no_item_found=True) is None,
                        'an old reader sees new items')
                out = call(next, a)
                e.check(out[0] == 'raise' and isinstance(out[1], StopIteration),
                        'an old reader does not end', show(out))
                e.check(same_list(b.range(items[t][0], items[t][-1], peek=True), items[t]),
                        'an old reader lost its items')
    for t, r in enumerate(late[:-1]):
        e.check(same_list(list(r), items[t]), 'the items of an ended session changed',
                f'session {t}: {items[t]}')
    sb.stop()
    e.check(same_list(list(late[-1]), items[-1]), 'items lost at the end')


def nexts(e, rt, sizes, via):
    """next(stream) and calling the stream follow the current session"""
    ps = plans(e, sizes)
    src = Probe.make(e, rt, ps, sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=5)
    get = {'next': lambda: next(sb), 'call': lambda: sb()}[via]
    for s, p in enumerate(ps):
        if s:
            restart(e, sb, s)
        else:
            sb.start()
        rt.sleep(0.65)
        take = e.choice(f'take{s}', len(p) + 1)
        for i in range(take):
            out = call(get)
            v = expect_ok(e, out, 'next raised')
            e.check(same(v, p[i]), 'next returned an item of another session or place',
                    f'{v} expected {p[i]} of {p}')
        if take == len(p):
            e.check(expect_ok(e, call(get), 'next raised') is None,
                    'next on a running stream without new items')
            e.cover('all')
    sb.stop()


def attach(e, rt, which):
    """A reader attached to another session or stream reads that one"""
    ps = plans(e, (2, 2))
    other = plans(e, (0, 0, 1))[2]
    src = Probe.make(e, rt, ps, sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=5)
    sb.start()
    rt.sleep(0.65)
    r = sb.mk_reader()
    if e.flag('used'):
        e.check(same(r.read(), ps[0][0]), 'first item')
        del r.last_item
    if which == 'session':
        restart(e, sb, 1)
        target, want = sb, ps[1]
    else:
        target = rt.StreamBuffer(Probe.make(e, rt, [other], sleep=0.1), maxlen=5)
        target.start()
        want = other
    rt.sleep(0.65)
    target.attach_reader(r)
    mate = target.mk_reader()
    e.check(r.is_same_buffer(mate), 'an attached reader is not on the buffer')
    e.check(not r.is_stopped, 'an attached reader is stopped')
    e.check(r.source_reader_info == mate.source_reader_info == target.source_reader_info,
            'an attached reader has the info of another session')
    e.check(same_list(drain(r), want), 'an attached reader sees other items')
    if which != 'session':
        sb.stop()
        e.check(not r.is_stopped, 'the reader still belongs to its old stream')
    target.stop()
    e.check(r.is_stopped, 'the reader does not stop with its stream')
    sb.stop()
    e.cover('attached')


def overlap(e, rt):
    """A consumer of the first session while the stream is restarted"""
    ps = plans(e, (1, 2))
    src = Probe.make(e, rt, ps, sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=5)
    sb.start()
    rt.sleep(0.35)
    r = sb.mk_reader()
    got = []

    def consume():
        for x in r:
            got.append(x)

    c = rt.spawn(consume, 'consumer')
    restart(e, sb, 1)
    r2 = sb.mk_reader()
    rt.sleep(1)
    e.check(c.done, 'the consumer of an ended session goes on')
    e.check(same_list(got, ps[0]), 'the consumer saw another session', f'{got}')
    e.check(same_list(drain(r2), ps[1]), 'the new session is incomplete')
    sb.stop()
    audit(e, src) if rt.sleep(2) is None else None
    e.cover('overlap')


def next_overlap(e, rt, via, begins=(0, 1)):
    """next(stream) in another thread while the stream is restarted"""
    ps = plans(e, (2, 2))
    src = Probe.make(e, rt, ps, sleep=0.1)
    sb = rt.StreamBuffer(src, maxlen=5)
    sb.start()
    begin = e.pick('begin', begins)
    if e.flag('late'):
        rt.sleep(0.35)
    got, over, ends = [], [], [0]
    get = {'next': lambda: next(sb), 'call': lambda: sb()}[via]

    def consume():
        rt.sleep(begin)
        while not over:
            out = call(get)
            if out[0] == 'raise':
                e.check(isinstance(out[1], StopIteration), 'next failed', repr(out[1]))
                ends[0] += 1
            elif out[1] is not None:
                got.append(out[1])
            rt.sleep(0.25)  # also at the very moment when stop is done

    c = rt.spawn(consume, 'consumer')
    restart(e, sb, 1)
    rt.sleep(1)
    ended = ends[0]
    rt.sleep(0.5)
    e.check(ends[0] == ended, 'next on a running stream says it is over')
    over.append(1)
    rt.join(c)
    e.check(c.error is None, 'next failed', repr(c.error))
    e.check(same_list(got[-2:], ps[1]), 'the new session is incomplete', f'{got}')
    old = got[:-2]
    e.check(same_list(old, ps[0][:len(old)]), 'not the items of the old session',
            f'{got} {ps}')
    sb.stop()
    e.cover('overlap')


def first_next(e, rt):
    """The first next(stream) at the very moment the stream is restarted"""
    ps = plans(e, (1, 1))
    src = Probe.make(e, rt, ps, sleep=0.1, points=False)
    sb = rt.StreamBuffer(src, maxlen=5)
    sb.start()
    got = []

    def first():
        rt.sleep(1)
        out = call(next, sb)
        if out[0] == 'raise':
            expect_raise(e, out, StopIteration, 'next failed')
        else:
            got.append(out[1])

    c = rt.spawn(first, 'consumer')
    sb.stop()
    sb.start()
    rt.join(c)
    rt.sleep(0.35)
    e.check(not got or (got[0] is None or same(got[0], ps[0][0]) or
                               same(got[0], ps[1][0])), 'wrong item', f'{got}')
    x = expect_ok(e, call(next, sb), 'next after the start raised')
    # the item of the new session, unless the other thread had it already
    e.check(x is None or same(x, ps[1][0]), 'next does not follow the session', f'{x}')
    e.check(x is not None or got and same(got[0], ps[1][0]), 'an item was lost', f'{got}')
    sb.stop()
    e.cover('overlap')


def changes(e, rt, sizes):
    """A source that comes up differently in each session: key, info and readers"""
    ps = plans(e, sizes)
    down = [e.flag(f'down{s}') for s in range(len(ps))]
    own = [e.flag(f'own readers{s}') for s in range(len(ps))]
    for s, d in enumerate(down):
        if d:
            ps[s] = ps[s][::-1]

    class Mine(rt.BufferReader):
        pass

    class Src(rt.SourceReader):
        session = -1
        sleep_time_on_read_none_s = 0.1

        def open(self):
            self.session += 1
            s = self.session
            self.it = iter(ps[s])
            self.key = (lambda x: -x) if down[s] else (lambda x: x)
            self.buffer_reader_class = Mine if own[s] else rt.BufferReader

        def read(self):
            return next(self.it, None)

        def close(self):
            pass

        @property
        def info(self):
            return dict(session=self.session)

        def key(self, x):
            raise Boom

    src = Src()
    sb = rt.StreamBuffer(src, maxlen=5)
    rs = []
    for s, p in enumerate(ps):
        if s:
            restart(e, sb, s)
        else:
            sb.start()
        rt.sleep(0.35)
        rs.append(sb.mk_reader())
        e.check(type(rs[-1]) is (Mine if own[s] else rt.BufferReader),
                'readers of the kind of another session')
        for t in range(s + 1):
            r, sign = rs[t], -1 if down[t] else 1
            del r.last_item
            e.check(r.source_reader_info == dict(session=t), 'info of another session')
            got = r.range(sign * ps[t][0], sign * ps[t][-1])
            e.check(same_list(got, ps[t]), 'the items of a session changed', f'{got}')
            e.check(r.last_key == sign * ps[t][-1], 'the key of another session')
            del r.last_item
            got = [r.read() for _ in ps[t]]
            e.check(same_list(got, ps[t]), 'a reader sees other items', f'{got} {ps[t]}')
        if down[s]:
            e.cover('down')
    sb.stop()
    e.cover('changes')


BOTH = {'start', 'stop start'}
TASKS = [
    Task('three sessions', sessions, dict(sizes=(2, 1, 2)), BOTH),
    Task('eight sessions', sessions, dict(sizes=(1,) * 8), BOTH,
         max_steps=10**6),
    Task('two sessions', sessions, dict(sizes=(1, 2), fail=True), BOTH, preempt=1),
    Task('next', nexts, dict(sizes=(2, 1), via='next'), {'all'} | BOTH, preempt=1),
    Task('next three', nexts, dict(sizes=(2, 2, 2), via='next'), {'all'} | BOTH),
    Task('call', nexts, dict(sizes=(1, 2), via='call'), {'all'} | BOTH),
    Task('changes', changes, dict(sizes=(2, 2)), {'down', 'changes'} | BOTH),
    Task('changes deep', changes, dict(sizes=(2, 3, 2)), {'down', 'changes'} | BOTH,
         preempt=1, tier='thorough', limit=3000),
    Task('attach session', attach, dict(which='session'), {'attached'}, preempt=1),
    Task('attach stream', attach, dict(which='stream'), {'attached'}),
    Task('overlap', overlap, {}, {'overlap'} | BOTH, preempt=2),
    Task('next, overlap', next_overlap, dict(via='next'), {'overlap'} | BOTH, preempt=1,
         shards=2),
    Task('first next', first_next, {}, {'overlap'}, preempt=1, gran='instr'),
    Task('first next deep', first_next, {}, {'overlap'}, preempt=2, gran='instr',
         tier='thorough', limit=3000, shards=8),
    Task('call, overlap', next_overlap, dict(via='call'), {'overlap'} | BOTH),
    Task('next, overlap deep', next_overlap, dict(via='next'), {'overlap'} | BOTH,
         preempt=2, tier='thorough', limit=3000, shards=8),
    Task('four sessions', sessions, dict(sizes=(2, 1, 3, 1), fail=True), BOTH,
         tier='thorough', limit=3000, preempt=1),
    Task('two sessions deep', sessions, dict(sizes=(1, 2), fail=True), BOTH, preempt=2,
         tier='thorough', limit=3000, shards=4),
    Task('next deep', nexts, dict(sizes=(2, 2), via='next'), {'all'} | BOTH, preempt=2,
         tier='thorough', limit=3000, shards=4),
    Task('overlap deep', overlap, {}, {'overlap'} | BOTH, preempt=3, tier='thorough',
         limit=3000, shards=8),
]
