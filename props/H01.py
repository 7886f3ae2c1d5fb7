"""mk_stream_buffer: the one-call stream follows the given functions."""
from props.streams import *

BOUNDS = ('up to 4 reads of any keys, no data at any of them, a failure at any of the '
          'functions, a body that ends early or raises; with and without each optional '
          'function, enumeration on and off, windows of 2 or unbounded; 3 sessions in one body; '
          'two helpers at once; '
          '10050 items with default and given windows; 1 pre-emption')
ASSUMPTIONS = ['keys are totally ordered', 'code takes no time compared with sleeps']


class Inst:
    """What open_stream returns"""

    def __len__(self):
        return 0

    def __str__(self):
        return 'the instance'


def helper(e, rt, n, enum, opts=True, fault=(None,), maxlens=(10,), nones=True,
           kinds=(Boom,), falsy=False, bodies=(KeyError,)):
    mk = rt.m('stream2py.simply').mk_stream_buffer
    ks = increasing(e, n)
    plan = []
    for i, k in enumerate(ks):
        if nones and e.flag(f'none{i}'):
            plan.append(None)
            e.cover('no data')
        plan.append(k)
    fault = e.pick('fault', fault)
    Fail = e.pick('kind of failure', kinds) if fault else Boom
    body = e.pick('kind of failure of the body', bodies) if fault == 'body' else KeyError
    infos = e.pick('info value', ({}, dict(mine=1))) if falsy else dict(mine=1)
    if fault == 'read':
        plan = plan[:-1] + [Fail]
        ks = ks[:-1]
    maxlen = e.pick('maxlen', maxlens)
    log, inst = [], Inst()
    pos = [0]
    has = {f: (not opts) or e.flag('with ' + f) for f in ('open', 'close', 'info', 'key')}

    def check_inst(i, what):
        e.check(i is (inst if has['open'] else None), 'wrong instance', what)

    def read_stream(i):
        check_inst(i, 'read')
        log.append('read')
        pos[0] += 1
        v = plan[pos[0] - 1] if pos[0] <= len(plan) else None
        if v is Fail:
            raise Fail('read')
        return v

    def open_stream():
        log.append('open')
        if fault == 'open':
            raise Fail('open')
        return inst

    def close_stream(i):
        check_inst(i, 'close')
        log.append('close')
        if fault == 'close':
            raise Fail('close')

    def info(i):
        check_inst(i, 'info')
        return infos

    def key(x):
        # reverse of what the item is, so that the default key would not do
        e.cover('key')
        return (x[1] if enum else x) + 5

    kw = dict(read_stream=read_stream, maxlen=maxlen, enumerate_data=enum,
              sleep_time_on_read_none_seconds=0.1)
    if has['open']:
        kw['open_stream'] = open_stream
    if has['close']:
        kw['close_stream'] = close_stream
    if has['info']:
        kw['info'] = info
    if has['key']:
        kw['key'] = key
    if falsy:
        kw.update({k: Falsy(v) for k, v in kw.items() if callable(v)})
    if enum and e.flag('default enumerate'):
        del kw['enumerate_data']
    body_ran = []

    def use():
        with mk(**kw) as sb:
            body_ran.append(1)
            e.check(isinstance(sb, rt.StreamBuffer), 'not a StreamBuffer')
            r = sb.mk_reader()
            if has['info']:
                e.check(r.source_reader_info == infos, 'wrong info')
            else:
                i = r.source_reader_info
                e.check(i['open_instance'] == ('the instance' if has['open'] else 'None')
                        and isinstance(i['open_time'], int), 'wrong default info', str(i))
            rt.sleep(0.1 * len(plan) + 0.35)
            got = drain(r)
            window = ks if maxlen is None else ks[max(0, len(ks) - maxlen):]
            if enum:
                e.check(all(isinstance(g, tuple) and len(g) == 2 for g in got),
                        'items are not enumerated', f'{got}')
                e.check(same_list([g[1] for g in got], window), 'wrong items',
                        f'{got} expected {window}')
                ns = [g[0] for g in got]
                e.check(all(type(i) is int for i in ns) and ns == sorted(set(ns)),
                        'numbers do not increase', f'{ns}')
                if not any(p is None for p in plan):
                    e.check(ns == list(range(len(ks)))[-len(window):] if window else True,
                            'wrong numbers', f'{ns}')
            else:
                e.check(same_list(got, window), 'wrong items', f'{got} expected {window}')
            if got:
                k = got[-1]
                want = key(k) if has['key'] else k
                if isinstance(want, tuple):
                    e.check(r.last_key[0] == want[0] and same(r.last_key[1], want[1]),
                            'wrong key')
                else:
                    e.check(same(r.last_key, want), 'wrong key', f'{r.last_key} {want}')
            if fault == 'read':
                e.check(not sb.is_running, 'running after a failed read')
                e.check(log[-1] == ('close' if has['close'] else 'read'),
                        'not closed after a failed read', str(log))
            else:
                e.check(sb.is_running, 'not running in the body')
            if fault == 'body':
                raise body('body')
        return sb

    out = attempt(use)
    rt.sleep(3)
    if fault == 'open' and has['open']:
        # a StopIteration cannot pass through a generator: Python makes it RuntimeError
        e.check(out[0] == 'raise' and isinstance(out[1], (Fail, RuntimeError)) and
                Fail in (type(out[1]), type(out[1].__cause__)),
                'a failure to open was hidden', show(out))
        e.check(not body_ran and 'read' not in log, 'used without being open')
        e.cover('open failed')
        return
    if fault == 'body':
        expect_raise(e, out, body, 'an exception of the body was hidden')
        e.cover('body failed')
    else:
        sb = expect_ok(e, out, 'mk_stream_buffer raised')
        e.check(not sb.is_running, 'running after the body')
        e.cover('done')
    e.check(log.count('open') == (1 if has['open'] else 0), 'open calls', str(log))
    e.check(log.count('close') == (1 if has['close'] else 0), 'close calls', str(log))
    if has['open']:
        e.check(log[0] == 'open', 'not opened first', str(log))
    if has['close']:
        e.check(log[-1] == 'close', 'not closed last', str(log))


def manual(e, rt, n):
    """auto_drop=False: bounded and lossless through the helper too"""
    mk = rt.m('stream2py.simply').mk_stream_buffer
    ks = increasing(e, n)
    it = iter(ks)
    got = []
    with mk(lambda i: next(it, None), maxlen=1, auto_drop=False,
            sleep_time_on_read_none_seconds=0.1) as sb:
        for x in sb:
            got.append(x[1])
            sb.drop()
            if len(got) == n:
                break
    e.check(same_list(got, ks), 'items lost', f'{got} of {ks}')
    e.cover('done')


def restarted(e, rt, n):
    """Started again in the body: a new instance, new numbers, its own info"""
    mk = rt.m('stream2py.simply').mk_stream_buffer
    ks = increasing(e, n)
    log, left = [], {}

    def open_stream():
        i = f'instance {len(left)}'
        left[i] = list(ks)
        log.append('open')
        return i

    def read_stream(i):
        e.check(i == f'instance {len(left) - 1}', 'an earlier instance is read')
        return left[i].pop(0) if left[i] else None

    def close_stream(i):
        e.check(i == f'instance {len(left) - 1}', 'another instance is closed')
        log.append('close')

    enum, own = e.flag('enumerate'), e.flag('info')
    kw = dict(info=lambda i: dict(of=i)) if own else {}
    with mk(read_stream, open_stream, close_stream, enumerate_data=enum,
            sleep_time_on_read_none_seconds=0.1, **kw) as sb:
        for s in range(3):
            rt.sleep(0.35)
            r = sb.mk_reader()
            got = drain(r)
            if enum:
                e.check([g[0] for g in got] == list(range(n)), 'wrong numbers', f'{got}')
                got = [g[1] for g in got]
            e.check(same_list(got, ks), 'wrong items', f'{got}')
            i = r.source_reader_info
            if own:
                e.check(i == dict(of=f'instance {s}'), 'info of another instance', str(i))
            else:
                e.check(i['open_instance'] == f'instance {s}', 'info of another instance',
                        str(i))
                if s:
                    e.check(i['open_time'] > t, 'open time', str(i))
                t = i['open_time']
            if s < 2:
                if e.flag(f'stop{s}'):
                    sb.stop()
                sb.start()
    rt.sleep(1)
    e.check(log == ['open', 'close'] * 3, 'open and close calls', str(log))
    e.cover('done')


def pair(e, rt, n):
    """Two helpers at once, also of the same functions: each has its own instances,
    numbers, window and info"""
    mk = rt.m('stream2py.simply').mk_stream_buffer
    ks = increasing(e, n)
    same_fns = e.flag('same functions')
    log, left = [], {}

    def fns(which):
        def open_stream():
            i = f'{which} {len(left)}'
            left[i] = list(ks)
            log.append(('open', i))
            return i

        def read_stream(i):
            e.check(same_fns or i.startswith(which), 'the instance of another helper')
            return left[i].pop(0) if left[i] else None

        def close_stream(i):
            log.append(('close', i))

        return [read_stream, open_stream, close_stream]

    a = fns('first')
    b = a if same_fns else fns('second')
    enums = [e.flag(f'enumerate{i}') for i in (0, 1)]
    info = e.pick('info of', (None, 0, 1))
    confs = [dict(enumerate_data=x, sleep_time_on_read_none_seconds=p)
             for x, p in zip(enums, (0.11, 0.13))]
    if info is not None:
        confs[info]['info'] = lambda i: dict(of=i)
    short = e.pick('short', (0, 1))
    confs[short]['maxlen'] = 1

    def check(sb, j, name, rd):
        i = rd.source_reader_info
        e.check((i['of'] if info == j else i['open_instance']) == name,
                'info of another instance', str(i))
        got = drain(rd)
        at = n - 1 if j == short else 0
        if enums[j]:
            e.check([g[0] for g in got] == list(range(at, n)), 'wrong numbers', f'{got}')
            got = [g[1] for g in got]
        e.check(same_list(got, ks[at:]), 'wrong items', f'{got}')

    order = e.pick('order', ('nested', 'crossed', 'in turn'))
    names = ['first 0', ('first' if same_fns else 'second') + ' 1']
    cms = [mk(*f, **c) for f, c in zip((a, b), confs)]
    sbs = [cms[0].__enter__()]
    if order == 'in turn':
        rt.sleep(0.35)
        check(sbs[0], 0, names[0], sbs[0].mk_reader())
        cms[0].__exit__(None, None, None)
    sbs.append(cms[1].__enter__())
    rt.sleep(0.35)
    for j in (0, 1):
        if j or order != 'in turn':
            e.check(sbs[j].is_running, 'not running in the body')
            check(sbs[j], j, names[j], sbs[j].mk_reader())
    if order != 'in turn':
        out = 1 if order == 'nested' else 0
        r = sbs[1 - out].mk_reader()
        cms[out].__exit__(None, None, None)
        rt.sleep(0.35)
        e.check(not sbs[out].is_running and sbs[1 - out].is_running,
                'stopped with another helper')
        e.check([x for x in log if x[0] == 'close'] == [('close', names[out])],
                'close calls', str(log))
        check(sbs[1 - out], 1 - out, names[1 - out], r)
        cms[1 - out].__exit__(None, None, None)
    else:
        cms[1].__exit__(None, None, None)
    rt.sleep(1)
    e.check(sorted(log) == sorted([('open', x) for x in names] +
                                  [('close', x) for x in names]), 'open and close calls',
            str(log))
    e.cover(order)


def many(e, rt, windows):
    """More items than the default window of 100"""
    mk = rt.m('stream2py.simply').mk_stream_buffer
    w = e.pick('window', windows)
    k = e.int('k')
    n = 10050 if w != 'default' else 130
    it = iter([k + i for i in range(n)])
    enum = e.flag('enumerate')
    with mk(lambda i: next(it, None), enumerate_data=enum,
            **(dict(key=lambda x: x[1]) if enum else {}),
            **({} if w == 'default' else dict(maxlen=w))) as sb:
        rt.sleep(1)
        r = sb.mk_reader()
        got = [g[1] if enum else g for g in r.range(k, k + n)]
        want = {'default': 100, None: n}.get(w, w)
        e.check(len(got) == want, 'wrong window', f'{len(got)} items, window {w}')
        e.check(same(got[0], k + (n - want)), 'wrong items')
    e.cover('done')


TASKS = [
    Task('raw', helper, dict(n=2, enum=False), {'done', 'no data', 'key'}),
    Task('enumerated', helper, dict(n=2, enum=True), {'done', 'no data', 'key'}),
    Task('windows', helper, dict(n=4, enum=True, opts=False, maxlens=(0, 1, 2, None)),
         {'done', 'no data'}),
    Task('windows raw', helper, dict(n=4, enum=False, opts=False, maxlens=(0, 1, 2, None)),
         {'done', 'no data'}),
    Task('faults', helper, dict(n=2, enum=False, nones=False,
                                fault=('open', 'read', 'close', 'body')),
         {'done', 'open failed', 'body failed'}),
    Task('falsy functions', helper, dict(n=2, enum=False, falsy=True),
         {'done', 'no data', 'key'}),
    Task('falsy functions, enumerated', helper, dict(n=1, enum=True, falsy=True),
         {'done', 'no data', 'key'}),
    Task('other faults', helper, dict(n=2, enum=False, nones=False, kinds=FAILS[1:],
                                      opts=False, fault=('open', 'read', 'close')),
         {'done', 'open failed'}),
    Task('faults, pre-empted', helper, dict(n=1, enum=True, nones=False, opts=False,
                                            fault=('open', 'read', 'close', 'body')),
         {'done', 'open failed', 'body failed'}, preempt=2),
    Task('bodies', helper, dict(n=1, enum=False, nones=False, opts=False, fault=('body',),
                                bodies=BODY), {'body failed'}),
    Task('restarted', restarted, dict(n=2), {'done'}),
    Task('two helpers', pair, dict(n=2), {'nested', 'crossed', 'in turn'}),
    Task('many', many, dict(windows=('default', None, 10043)), {'done'}, max_steps=10**8),
    Task('manual drop', manual, dict(n=3), {'done'}, preempt=1),
    Task('raw deep', helper, dict(n=3, enum=False, fault=(None, 'open', 'read', 'close',
                                                          'body')),
         {'done', 'no data', 'key'}, tier='thorough', limit=3000, preempt=1, shards=4),
    Task('enumerated deep', helper, dict(n=3, enum=True, fault=(None, 'read', 'body')),
         {'done', 'no data', 'key'}, tier='thorough', limit=3000, preempt=1, shards=4),
    Task('manual drop deep', manual, dict(n=4), {'done'}, preempt=2, tier='thorough',
         limit=3000, shards=4),
]
