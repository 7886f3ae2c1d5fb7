"""The source is opened, read and closed in order, whatever happens."""
from props.streams import *

BOUNDS = ('1-3 sessions of one stream; every sequence of up to 3 further start / stop / '
          'pause operations (and a second controlling thread); reads that return items, '
          'nothing, or fail at any of the first 3 reads, or take up to 3 s; failing '
          'open, close and key; threads that cannot be started; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with sleeps',
               'the source itself follows its documented interface']


def begun(src):
    return src.log.count('read') + src.log.count('read!')


def operate(e, rt, sb, src, op, body=KeyError):
    stopped(e, src)
    src.stopped_at = None
    if op == 'start':
        out = attempt(sb.start)
        if out[0] == 'raise' and rt.sched.refuse and 'thread' in str(out[1]):
            e.check(not sb.is_running, 'running without a thread')
            e.check(src.log[-2:] == ['open', 'close'], 'not closed although it cannot be '
                    'read', str(src.log))
            e.cover('no thread')
        elif out[0] == 'raise':
            e.check(isinstance(out[1], FAILS) and str(out[1]) in ('open', 'info'),
                    'start raised something else than the failure to open', show(out))
            e.check(not sb.is_running, 'running after a failed open')
            e.cover(str(out[1]) + ' failed')
    elif op == 'stop':
        expect_ok(e, call(sb.stop), 'stop raised')
        src.stopped_at = begun(src)
        e.cover('stopped')
    elif op == 'pause':
        rt.sleep(0.7)
    elif op == 'with':
        out = attempt(with_body, rt, sb, body)
        e.check(out[0] == 'raise' and (
            isinstance(out[1], FAILS) or type(out[1]) is body or
            rt.sched.refuse and 'thread' in str(out[1])),
                'the context manager hid an exception', show(out))


def stopped(e, src):
    n = getattr(src, 'stopped_at', None)
    e.check(n is None or begun(src) <= n + 1, 'reads went on after the stop', str(src.log))


def with_body(rt, sb, kind):
    with sb:
        rt.sleep(0.35)
        raise kind('body')


def finish(e, rt, sb, src):
    operate(e, rt, sb, src, 'stop')
    rt.sleep(5)
    stopped(e, src)
    audit(e, src)
    e.check(not sb.is_running, 'running after stop')
    if src.log.count('read!'):
        e.cover('read failed')
    if src.log.count('open') > 1:
        e.cover('reopened')


def lives(e, rt, nops, ops=('start', 'stop', 'pause', 'with'), reads=None, opens=(None,),
          closes=(False,), keyfail=False, infos=(None,), base=None, kinds=(Boom,),
          threads=(None,), bodies=(KeyError,)):
    """start, then any operations, then stop"""
    k0 = e.int('k0')
    k1 = e.int('k1')
    if keyfail:
        e.assume(k0 != k1)
    plan = [e.pick('reads', reads)]
    plan = [[k0 if x == 'a' else k1 if x == 'b' else x for x in plan[0]]]
    of = e.pick('open fails', opens)
    cf = e.pick('close fails', closes)
    nf = e.pick('info fails', infos)
    tf = e.pick('thread cannot start', threads)
    rt.sched.refuse = () if tf is None else (tf,)

    kind = e.pick('kind of failure', kinds)
    body = e.pick('kind of failure of the body', bodies)

    def key(x):
        if x is k1:
            e.cover('key failed')
            raise kind('key')
        return x

    src = Probe.make(e, rt, plan, base=base, kind=kind, open_fails=() if of is None else (of,),
                     info_fails=() if nf is None else (nf,),
                     close_fails=(0, 1, 2, 3) if cf else (), key=key if keyfail else None)
    sb = rt.StreamBuffer(src, maxlen=3)
    operate(e, rt, sb, src, 'start')
    for i in range(nops):
        operate(e, rt, sb, src, e.pick(f'op{i}', ops), body)
    finish(e, rt, sb, src)


def two_threads(e, rt, a, b, reads):
    """Two threads control the stream"""
    k0, = increasing(e, 1)
    plan = [[k0 if x == 'a' else x for x in e.pick('reads', reads)]]
    src = Probe.make(e, rt, plan)
    sb = rt.StreamBuffer(src, maxlen=3)
    if e.flag('started before'):
        sb.start()
    else:
        a = [x for x in a if x != 'stop'] or ['start']
        b = [x for x in b if x != 'stop'] or ['start']
    errors = []

    def other():
        for op in b:
            out = call(getattr(sb, op))
            if out[0] == 'raise':
                errors.append(out)

    t = rt.spawn(other, 'other')
    for op in a:
        expect_ok(e, call(getattr(sb, op)), op + ' raised')
    rt.join(t)
    e.check(not errors, 'start or stop raised', str(errors))
    finish(e, rt, sb, src)
    e.cover('two threads')


def joined(e, rt):
    """join() returns when the source is closed"""
    src = Probe.make(e, rt, [[1, ('wait', e.pick('length', [0, 2.5]), 2)]])
    sb = rt.StreamBuffer(src, maxlen=3)
    sb.start()
    rt.sleep(0.1)
    sb.stop()
    sb.join()
    audit(e, src)
    e.cover('joined')


SLOW = ('wait', 3.0, 'a')
READS = [['a', None], ['a', Boom], [Boom], [('wait', 3.0, None), 'a']]
TASKS = [
    Task('two ops', lives, dict(nops=2, reads=READS),
         {'reopened', 'stopped', 'read failed'}, preempt=2),
    Task('three ops', lives, dict(nops=3, reads=[['a', None], ['a', Boom], [
        ('wait', 3.0, None), 'a']]), {'reopened', 'stopped', 'read failed'}, preempt=1),
    Task('one op', lives, dict(nops=1, reads=READS[:2]),
         {'reopened', 'stopped', 'read failed'}, preempt=3),
    Task('one op, instructions', lives, dict(nops=1, reads=READS[:2]),
         {'reopened', 'stopped', 'read failed'}, preempt=1, gran='instr'),
    Task('out of order', lives, dict(nops=1, reads=[['a', 'b', None]]), {'reopened'},
         preempt=2),
    Task('any source', lives, dict(nops=2, reads=READS[:2], base=object),
         {'reopened', 'stopped', 'read failed'}),
    Task('slow', lives, dict(nops=2, reads=READS[3:], ops=('start', 'stop')),
         {'reopened', 'stopped'}, preempt=2),
    Task('bodies', lives, dict(nops=2, reads=READS[:2], ops=('stop', 'with'), bodies=BODY),
         {'stopped'}),
    Task('open fails', lives, dict(nops=2, reads=READS[:2], opens=(0, 1, 2)),
         {'open failed', 'reopened', 'stopped'}, preempt=1),
    Task('open fails, pre-empted', lives, dict(nops=1, ops=('start', 'with'),
                                               reads=READS[:2], opens=(0, 1)),
         {'open failed'}, preempt=2),
    Task('info fails', lives, dict(nops=2, reads=READS[:1], infos=(0, 1, 2)),
         {'info failed', 'reopened', 'stopped'}, preempt=1),
    Task('no thread', lives, dict(nops=2, reads=READS[:2], threads=(0, 1, 2)),
         {'no thread', 'reopened', 'stopped'}, preempt=1),
    Task('other failures to open', lives, dict(
        nops=2, reads=READS[:1], opens=(None, 0, 1), infos=(None, 0, 1), kinds=FAILS[1:],
        ops=('start', 'with')), {'open failed', 'info failed', 'reopened', 'stopped'}),
    Task('other failures to close', lives, dict(
        nops=2, reads=READS[:2], closes=(True,), kinds=(Odd, Done)),
        {'reopened', 'stopped'}),
    Task('other failures of the key', lives, dict(
        nops=1, reads=[['a', 'b'], ['b']], keyfail=True, kinds=FAILS[1:]),
        {'key failed', 'reopened'}),
    Task('other failures', lives, dict(nops=1, reads=[['a', Odd], [Quit], ['a', Quit],
                                                      ['a', Done]]),
         {'reopened', 'stopped', 'read failed'}, preempt=1),
    Task('close fails', lives, dict(nops=2, reads=READS[:2], closes=(True,)),
         {'reopened', 'stopped'}, preempt=1),
    Task('key fails', lives, dict(nops=1, reads=[['a', 'b'], ['b']], keyfail=True),
         {'key failed', 'reopened'}, preempt=2),
    Task('start start', two_threads, dict(a=['start'], b=['start'], reads=READS[:2]),
         {'two threads', 'reopened'}, preempt=1),
    Task('stop start', two_threads, dict(a=['stop'], b=['start'], reads=READS[:2]),
         {'two threads', 'reopened'}, preempt=1),
    Task('stop stop', two_threads, dict(a=['stop', 'start'], b=['stop'],
                                        reads=READS[:1]),
         {'two threads', 'reopened'}, preempt=1),
    Task('start start, twice', two_threads, dict(a=['start'], b=['start'],
                                                 reads=READS[1:2]),
         {'two threads', 'reopened'}, preempt=2, shards=4),
    Task('join', joined, {}, {'joined'}, preempt=2),
    Task('four ops', lives, dict(nops=4, reads=READS),
         {'reopened', 'stopped', 'read failed'}, preempt=1, tier='thorough', limit=3000),
    Task('three ops, pre-empted twice', lives, dict(nops=3, reads=READS),
         {'reopened', 'stopped', 'read failed'}, preempt=2, tier='thorough', limit=3000,
         shards=2),
    Task('one op, pre-empted often', lives, dict(nops=1, reads=READS[:2]),
         {'reopened', 'stopped'}, preempt=4, tier='thorough', limit=3000, shards=4),
    Task('two ops, instructions', lives, dict(nops=2, reads=READS[:2]),
         {'reopened', 'stopped', 'read failed'}, preempt=2, gran='instr',
         tier='thorough', limit=3000, shards=4),
    Task('stop start, twice', two_threads, dict(a=['stop', 'start'], b=['start', 'stop'],
                                                reads=READS[:2]),
         {'two threads', 'reopened'}, preempt=2, tier='thorough', limit=4000, shards=8),
]
