"""Operations of readers are atomic with respect to appends and drops by other threads."""
from props.readers import *
from props.sources import ListSource
from props.streams import drain

BOUNDS = ('1-2 items buffered, then 1-3 appends / drops by another thread while one or '
          'two readers each do one or two operations (every reading operation); windows '
          'of 2 or unbounded; any keys and cursors, also two readers and no writer; up to 2 pre-emptions at any line')
ASSUMPTIONS = ['code takes no time compared with the polling sleeps']


class Model(Setup):
    """A state of the buffer, for the reading model"""

    def __init__(self, e, mode, items, ks, cur):
        self.e, self.mode, self.items, self.ks, self.cur = e, mode, items, ks, cur


def do(r, m, op, args):
    """Call operation `op` of reader r"""
    a, b = args
    if op == 'read':
        return call(r.read, ignore_no_item_found=True)
    if op == 'read 2':
        return call(r.read, 2, ignore_no_item_found=True)
    if op == 'read 2 strict':
        return call(r.read, 2, strict_n=True)
    if op == 'next':
        return call(next, r)
    if op == 'range':
        return call(r.range, m.k(a), m.k(b), peek=True)
    if op == 'range new':
        return call(r.range, m.k(a), m.k(b), only_new_items=True,
                    ignore_no_item_found=True)
    if op == 'range le ge':
        return call(r.range, m.k(a), m.k(b), start_le=True, stop_ge=True,
                    ignore_no_item_found=True)
    if op == 'tail':
        return call(r.tail, ignore_no_item_found=True)
    if op == 'tail new':
        return call(r.tail, only_new_items=True, ignore_no_item_found=True)
    if op == 'head':
        return call(r.head)


def model(m, op, args):
    a, b = args
    if op in ('read', 'next'):
        return m.m_read(1, False, True, False)
    if op == 'read 2':
        return m.m_read(2, False, True, False)
    if op == 'read 2 strict':
        return m.m_read(2, False, False, True)
    if op == 'range':
        return m.m_range(a, b, None, True, False, False, False, False)
    if op == 'range new':
        return m.m_range(a, b, None, False, True, True, False, False)
    if op == 'range le ge':
        return m.m_range(a, b, None, False, True, False, True, True)
    if op == 'tail':
        return m.m_tail(False, True, False)
    if op == 'tail new':
        return m.m_tail(False, True, True)
    if op == 'head':
        return m.m_head(False)


def agrees(out, want):
    if want[0] == 'raise':
        return out[0] == 'raise'
    if out[0] != 'ok':
        return False
    if want[1] is None or isinstance(want[1], list):
        return (out[1] is None) if want[1] is None else same_list(out[1], want[1])
    return same(out[1], want[1])


class Watch:
    """States of the buffer and which of them an operation may have seen"""

    def __init__(self, maxlen, items, ks):
        self.maxlen = maxlen
        self.states = [(list(items), list(ks))]
        self.begun = self.done = 0

    def plan(self, what):
        items, ks = map(list, self.states[-1])
        if what == 'drop':
            del items[0], ks[0]
        else:
            items.append(what[0])
            ks.append(what[1])
            if self.maxlen is not None:
                items, ks = items[-self.maxlen:], ks[-self.maxlen:]
        self.states.append((items, ks))


def operate(e, w, r, mode, op, args, cur, name):
    """One operation; its outcome must be the model's on one of the possible states.
    Returns the model's cursor."""
    m = Model(e, mode, [], [], cur)
    lo = w.done
    out = do(r, m, op, args)
    hi = w.begun
    alts = []
    for v in range(lo, hi + 1):
        m = Model(e, mode, *w.states[v], cur)
        want, new = model(m, op, args)
        ok = agrees(out, want)
        if new is None:
            ok = conj([ok, r.last_item is None])
        else:
            ok = conj([ok, r.last_item is not None and same(r.last_item, new[0])])
        alts.append((ok, new))
    e.check(disj(a for a, _ in alts), f'{op} is not atomic',
            f'{name} got {show(out)} cursor {r.last_item}; was {cur}; args {args}; states '
            f'{w.states[lo:hi + 1]}')
    if hi > lo:
        e.cover('concurrent')
    for ok, new in alts:
        if ok:
            return new
    return cur


def mutate(e, w, s, mode, script, name='w'):
    """Prepare the states that the writer goes through"""
    keys = []
    last = s.ks[-1] if s.ks else None
    out = []
    for i, c in enumerate(script):
        if c == 'd':
            w.plan('drop')
            out.append(None)
        else:
            it, k = s.new_item(f'{name}{i}', 100 + i)
            if last is not None:
                e.assume(k > last)
            last = k
            w.plan((it, k))
            out.append(it)
    return out


def direct(e, rt, mode, pre, script, ops, maxlen=None, readers=1, second=(None,)):
    s = Setup(e, rt, mode, pre, cursor='any', maxlen=maxlen)
    w = Watch(maxlen, s.items, s.ks)
    todo = mutate(e, w, s, mode, script)
    args = (e.int('a'), e.int('b'))
    op = e.pick('op', ops)
    op2 = e.pick('op2', second)
    cur2 = None
    if readers == 2 and not script:
        cur2 = s.new_item('c2', 901)
        s.other.last_item = cur2[0]

    def produce():
        for it in todo:
            with s.buf.writer_lock() as d:
                w.begun += 1
                if it is None:
                    d.drop(1)
                else:
                    d.append(it)
            w.done += 1

    def consume(r, cur, o, name):
        cur = operate(e, w, r, mode, o, args, cur, name)
        if readers == 1 and op2:
            operate(e, w, r, mode, op2, args, cur, name)

    p = rt.spawn(produce, 'producer')
    if readers == 2:
        c2 = rt.spawn(lambda: consume(s.other, cur2, op2, 'reader 2'), 'reader 2')
    consume(s.r, s.cur, op, 'reader 1')
    rt.join(p)
    e.check(p.error is None, 'append or drop raised', repr(p.error))
    if readers == 2:
        rt.join(c2)
        e.check(c2.error is None, 'reader raised', repr(c2.error))
    with s.buf.reader_lock() as d:
        e.check(same_list(list(d), w.states[-1][0]), 'items lost',
                f'{list(d)} expected {w.states[-1][0]}')
    e.check(len(s.buf) == len(w.states[-1][0]), 'wrong length')
    e.cover(op)


def stack(e, rt, n, ops, maxlen=None):
    """The whole stack: items come from a source read by the stream's own thread"""
    ks = [e.int(f'k{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    w = Watch(maxlen, [], [])
    for k in ks:
        w.plan((k, k))
    src = ListSource.source_reader(rt, ks)
    orig = src.read

    def read():
        w.done = src.pos  # the next read starts when the append is over
        x = orig()
        w.begun = src.pos
        return x

    src.read = read
    sb = rt.StreamBuffer(src, maxlen=maxlen)
    args = (e.int('a'), e.int('b'))
    op = e.pick('op', ops)
    sb.start()
    r = sb.mk_reader()
    cur = operate(e, w, r, 'plain', op, args, None, 'reader')
    rt.sleep(0.1)
    operate(e, w, r, 'plain', op, args, cur, 'reader, later')
    sb.stop()
    e.cover(op)


def stack_drop(e, rt, n, ops, drops):
    """The whole stack: another thread drops by hand while a reader reads"""
    ks = [e.int(f'k{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    w = Watch(None, ks, ks)
    for _ in range(drops):
        w.plan('drop')
    src = ListSource.source_reader(rt, ks)
    sb = rt.StreamBuffer(src, maxlen=n, auto_drop=False, sleep_time_on_read_none_s=30)
    args = (e.int('a'), e.int('b'))
    op = e.pick('op', ops)
    sb.start()
    rt.sleep(1)
    r = sb.mk_reader()
    cur = None
    for _ in range(e.choice('read before', n)):
        cur = operate(e, w, r, 'plain', 'read', args, cur, 'reader, before')

    def dropper():
        for _ in range(drops):
            w.begun += 1
            sb.drop()
            w.done += 1

    d = rt.spawn(dropper, 'dropper')
    operate(e, w, r, 'plain', op, args, cur, 'reader')
    rt.join(d)
    e.check(d.error is None, 'drop raised', repr(d.error))
    e.check(same_list(drain(sb.mk_reader()), ks[drops:]), 'dropping dropped others')
    sb.stop()
    e.cover(op)


OPS = ('read', 'read 2', 'read 2 strict', 'next', 'range', 'range new', 'range le ge',
       'tail', 'tail new', 'head')
TASKS = []
for i in range(3):
    ops = OPS[i::3]
    TASKS.append(Task(f'append-{i}', direct, dict(mode='plain', pre=1, script='aa', ops=ops),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'evict-{i}', direct, dict(mode='rec', pre=2, script='a', ops=ops,
                                                 maxlen=2),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'evict-deep-{i}', direct, dict(mode='rec', pre=2, script='a',
                                                      ops=ops, maxlen=2),
                      {'concurrent', *ops}, preempt=2, tier='thorough', limit=3000))
    TASKS.append(Task(f'drop-{i}', direct, dict(mode='plain', pre=2, script='da', ops=ops),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'two-ops-{i}', direct,
                      dict(mode='plain', pre=1, script='aa', ops=ops, maxlen=2,
                           second=('read',)),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'two-readers-{i}', direct,
                      dict(mode='plain', pre=1, script='a', ops=ops, readers=2,
                           second=('read',)),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'stack-{i}', stack, dict(n=2, ops=[o for o in ops if o != 'head']),
                      {'concurrent'}, preempt=1))
    TASKS.append(Task(f'stack-drop-{i}', stack_drop, dict(n=3, drops=1, ops=ops),
                      {'concurrent', *ops}, preempt=1))
    TASKS.append(Task(f'stack-drop-deep-{i}', stack_drop, dict(n=4, drops=2, ops=ops),
                      {'concurrent', *ops}, preempt=2, tier='thorough', limit=3000,
                      shards=4))
    TASKS.append(Task(f'deep-{i}', direct, dict(mode='plain', pre=2, script='aad', ops=ops,
                                                maxlen=3),
                      {'concurrent', *ops}, preempt=2, tier='thorough', limit=3000,
                      shards=4))
    TASKS.append(Task(f'two-readers-deep-{i}', direct,
                      dict(mode='plain', pre=1, script='aa', ops=ops, readers=2,
                           second=('read', 'range new', 'tail')),
                      {'concurrent', *ops}, preempt=2, tier='thorough', limit=3000,
                      shards=4))
TASKS.append(Task('side by side', direct,
                  dict(mode='plain', pre=2, script='', ops=('read', 'read 2', 'tail new'),
                       readers=2, second=('read', 'tail new')),
                  {'read'}, preempt=1))
TASKS.append(Task('side by side, range', direct,
                  dict(mode='plain', pre=2, script='', ops=('range new',), readers=2,
                       second=('read',)), {'range new'}, preempt=1, shards=2))
TASKS.append(Task('side by side, deep', direct,
                  dict(mode='plain', pre=2, script='', ops=OPS, readers=2,
                       second=('read', 'read 2', 'range new', 'tail new')),
                  {*OPS}, preempt=1, shards=4, tier='thorough', limit=3000))
TASKS.append(Task('side by side, instructions', direct,
                  dict(mode='plain', pre=2, script='', ops=('read', 'range new'),
                       readers=2, second=('read', 'read 2')),
                  {'read'}, preempt=1, gran='instr', tier='thorough', limit=3000, shards=4))
TASKS.append(Task('window-2', direct, dict(mode='plain', pre=2, script='a',
                                           ops=('range new',), maxlen=2),
                  {'concurrent'}, preempt=2, shards=4))
