"""Cursor discipline over sequences of reading operations by two readers."""
from props.readers import *
from props.sources import ListSource

BOUNDS = ('every sequence of 2 operations (3 with a reduced set) out of read, peek, '
          'strict read, range (new, stepped, failing), head, tail, setting and clearing '
          'last_item (also to what has no key), by either of two readers on buffers of 0..3 items, all '
          'keys, streams that are over; loops over a stream beside next() and readers')
ASSUMPTIONS = []

OPS = ('read', 'read peek', 'read 2', 'read 2 strict', 'read 3 peek', 'range',
       'range peek', 'range new', 'range ge', 'head', 'head peek', 'tail', 'tail new',
       'tail peek', 'set', 'clear')
RECOPS = OPS + ('set bad',)


class View:
    """The two readers of a Setup, each with its model cursor"""

    def __init__(self, s):
        self.s = s
        self.readers = [s.r, s.other]
        self.cursors = [None, None]


def step(e, v, name, ops, sym=False):
    s = v.s
    w = 0 if sym else e.choice(name + ' reader', 2)  # the readers start out alike
    op = e.pick(name + ' op', ops)
    s.r, s.cur = v.readers[w], v.cursors[w]
    r = s.r
    ign = e.flag(name + ' ignore') if op.split()[0] in ('read', 'range') or \
        op == 'tail new' else False
    kw = dict(ignore_no_item_found=ign)
    if op == 'read':
        out, m = call(r.read, **kw), s.m_read(1, False, ign, False)
    elif op == 'read peek':
        out, m = call(r.read, peek=True, **kw), s.m_read(1, True, ign, False)
    elif op == 'read 2':
        out, m = call(r.read, 2, **kw), s.m_read(2, False, ign, False)
    elif op == 'read 2 strict':
        out, m = call(r.read, 2, strict_n=True, **kw), s.m_read(2, False, ign, True)
    elif op == 'read 3 peek':
        out, m = call(r.read, 3, peek=True, **kw), s.m_read(3, True, ign, False)
    elif op.startswith('range'):
        a, b = e.int(name + ' a'), e.int(name + ' b')
        new, peek, ge = 'new' in op, 'peek' in op, 'ge' in op
        out = call(r.range, s.k(a), s.k(b), peek=peek, only_new_items=new, stop_ge=ge, **kw)
        m = s.m_range(a, b, None, peek, ign, new, False, ge)
    elif op.startswith('head'):
        out, m = call(r.head, peek='peek' in op), s.m_head('peek' in op)
    elif op.startswith('tail'):
        new, peek = 'new' in op, 'peek' in op
        out = call(r.tail, peek=peek, only_new_items=new, **kw)
        m = s.m_tail(peek, ign, new)
    elif op == 'set':
        it, k = s.new_item(name + ' cur', 700)

        def do():
            r.last_item = it
        out, m = call(do), (('ok', None), (it, k))
    elif op == 'set bad':  # something that has no key: refused
        def do():
            r.last_item = object()
        out, m = call(do), (('raise',), s.cur)
    else:
        def do():
            del r.last_item
        out, m = call(do), (('ok', None), None)
    want, cur = m
    e.cover(op)
    # compare; the bystander's cursor is checked by hand
    s.unchanged = lambda label: None
    s.finish(op, out, want, cur)
    v.cursors[w] = cur
    s.r, s.cur = v.readers[1 - w], v.cursors[1 - w]
    s.cursor_is(op + ' moved another reader', v.cursors[1 - w])
    with s.buf.reader_lock() as d:
        got = list(d)
    e.check(same_list(got, s.items), op + ' changed the buffer')


def sequence(e, rt, mode, sizes, nops, ops, first=None):
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, cursor=None, stopped='any')
    v = View(s)
    for i in range(nops):
        step(e, v, f's{i}', first if first and i == 0 else ops, i == 0)


def gone(e, rt, mode, n, rounds):
    """A reader begins with an unset cursor, also where one was forgotten before, and
    whatever readers of another buffer have read"""
    s = Setup(e, rt, mode, n, cursor=None, stopped='any')
    s.set_cursor('o')  # a reader that has read
    t = Setup(e, rt, mode, n, cursor=None, pre='j', stopped='any')  # an independent buffer
    t.keep = []
    for i in range(rounds):
        b = s if e.flag(f'buffer{i}') else t
        r = b.mk()
        e.check(r.last_item is None and r.last_key is None, 'a new reader has a cursor')
        op = e.pick(f'op{i}', ('read', 'tail', 'range', 'none'))
        if op == 'read':
            e.check(same(r.read(), b.items[0]), 'a new reader misses items')
        elif op == 'tail':
            r.tail()
        elif op == 'range':
            r.range(b.k(b.ks[0]), b.k(b.ks[-1]))
        e.check(t.r.last_item is None and t.other.last_item is None and
                s.other.last_item is None, 'moved another reader')
        s.cursor_is('moved another reader', s.cur)
        if e.flag(f'forget{i}'):
            del r
            e.cover('forgotten')
        else:
            t.keep.append(r)
    e.cover('gone')


def iterators(e, rt, n, rounds):
    """Loops over a stream, its next item, and readers do not move each other"""
    ks = [e.int(f'k{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    sb = rt.StreamBuffer(ListSource.source_reader(rt, ks), maxlen=10)
    sb.start()
    rt.sleep(0.01)
    over = e.flag('over')
    if over:
        sb.stop()
    things = [('stream', sb, [0])]
    for i in range(rounds):
        op = e.pick(f'op{i}', ('iterator', 'reader') + tuple(range(len(things))))
        if op == 'iterator':
            things.append(('iterator', iter(sb), [0]))
        elif op == 'reader':
            things.append(('reader', sb.mk_reader(), [0]))
        else:
            kind, x, at = things[op]
            if kind == 'reader' and e.flag(f'attach{i}'):
                sb.attach_reader(x)  # to the stream it reads anyway
                e.cover('attach')
            if at[0] < n:
                out = call(x if kind == 'stream' and e.flag(f'call{i}') else lambda: next(x))
                e.check(same(expect_ok(e, out, f'{kind} raised'), ks[at[0]]),
                        f'a {kind} was moved by another', f'{show(out)}')
                at[0] += 1
                e.cover(kind)
            elif over:
                try:
                    out = next(x)
                except StopIteration:
                    e.cover('end')
                else:
                    e.check(False, f'a {kind} was moved by another', f'{out} at the end')
    for kind, x, at in things:  # each goes on where it was
        if at[0] < n:
            e.check(same(next(x), ks[at[0]]), f'a {kind} was moved by another')
    if not over:
        sb.stop()


SMALL = ('read', 'read 2 strict', 'range new', 'tail new', 'head peek', 'set', 'clear')
TASKS = []
for i in range(4):
    TASKS.append(Task(f'two-rec-{i}', sequence,
                      dict(mode='rec', sizes=(2,), nops=2, ops=RECOPS, first=RECOPS[i::4]),
                      set(RECOPS)))
    TASKS.append(Task(f'two-3-{i}', sequence,
                      dict(mode='rec', sizes=(3, 4), nops=2, ops=RECOPS, first=RECOPS[i::4]),
                      set(RECOPS), tier='thorough', limit=3000))
TASKS += [
    Task('two-plain', sequence, dict(mode='plain', sizes=(1,), nops=2, ops=OPS), set(OPS)),
    Task('two-empty', sequence, dict(mode='rec', sizes=(0,), nops=2, ops=RECOPS), set(RECOPS)),
    Task('iterators', iterators, dict(n=2, rounds=5),
         {'stream', 'iterator', 'reader', 'end', 'attach'}, max_steps=10**5),
    Task('iterators deep', iterators, dict(n=3, rounds=7),
         {'stream', 'iterator', 'reader', 'end', 'attach'}, max_steps=10**5, tier='thorough',
         limit=3000),
    Task('three', sequence, dict(mode='rec', sizes=(1,), nops=3,
                                 ops=('read', 'range new', 'head peek')),
         {'read', 'range new', 'head peek'}),
    Task('three-strict', sequence, dict(mode='rec', sizes=(3,), nops=3,
                                        ops=('read', 'read 2 strict', 'tail new')),
         {'read', 'read 2 strict', 'tail new'}),
    Task('three-set', sequence, dict(mode='plain', sizes=(2,), nops=3,
                                     ops=('read', 'set', 'clear', 'tail')),
         {'read', 'set', 'clear', 'tail'}),
    Task('gone', gone, dict(mode='rec', n=2, rounds=3), {'forgotten', 'gone'}),
    Task('gone-plain', gone, dict(mode='plain', n=1, rounds=3), {'forgotten', 'gone'}),
    Task('three-3', sequence, dict(mode='plain', sizes=(3,), nops=3, ops=SMALL),
         set(SMALL), tier='thorough', limit=3000),
]
