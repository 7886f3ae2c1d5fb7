"""head() and tail()"""
from props.readers import *

BOUNDS = ('buffers of 0..6 items, cursor unset or on any key, every combination of peek, '
          'ignore_no_item_found, only_new_items; windows that have slid; '
          'keys that are tuples, or that fail or answer anything when compared with None; streams that are over')
ASSUMPTIONS = []


def ends(e, rt, mode, sizes, op, maxlen=None, prefix=0):
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, maxlen=maxlen, prefix=prefix, stopped='any')
    peek = e.flag('peek')
    if op == 'head':
        out = call(s.r.head, peek=peek)
        want, cur = s.m_head(peek)
    else:
        ignore, new = e.flag('ignore'), e.flag('only_new')
        out = call(s.r.tail, peek=peek, ignore_no_item_found=ignore, only_new_items=new)
        want, cur = s.m_tail(peek, ignore, new)
        if new:
            e.cover('only new')
    s.finish(op, out, want, cur)
    want, cur = s.m_read(1, False, True, False)
    s.finish('following read', call(s.r.read, 1, ignore_no_item_found=True), want, cur)


def tail_loop(e, rt, mode, n):
    """Polling tail for new items while items are appended"""
    s = Setup(e, rt, mode, 0, cursor=None, stopped='any')
    last = None
    for i in range(n):
        if e.flag(f'append{i}'):
            it, k = s.new_item(f'a{i}', i)
            if last is not None:
                e.assume(k > last)
            last = k
            with s.buf.writer_lock() as w:
                w.append(it)
            s.items.append(it)
            s.ks.append(k)
        want, cur = s.m_tail(False, True, True)
        s.finish('tail', call(s.r.tail, only_new_items=True, ignore_no_item_found=True),
                 want, cur)


TASKS = [
    Task('tail', ends, dict(mode='plain', sizes=range(6), op='tail'),
         {'raise', 'none', 'item', 'only new'}),
    Task('tail-rec', ends, dict(mode='rec', sizes=range(6), op='tail'),
         {'raise', 'none', 'item', 'only new'}),
    Task('tail-tuple', ends, dict(mode='tuple', sizes=range(4), op='tail'),
         {'raise', 'none', 'item', 'only new'}),
    Task('naive keys', ends, dict(mode='naive', sizes=(0, 1, 3), op='tail'),
         {'raise', 'none', 'item', 'only new'}),
    Task('lax keys', ends, dict(mode='lax', sizes=(0, 1, 3), op='tail'),
         {'raise', 'none', 'item', 'only new'}),
    Task('head', ends, dict(mode='rec', sizes=range(6), op='head'), {'raise', 'item'}),
    Task('head-plain', ends, dict(mode='plain', sizes=range(6), op='head'),
         {'raise', 'item'}),
    Task('window', ends, dict(mode='rec', sizes=(3, 6), op='tail', maxlen=3),
         {'none', 'item', 'only new'}),
    Task('window-head', ends, dict(mode='rec', sizes=(3, 6), op='head', maxlen=3), {'item'}),
    Task('dropped', ends, dict(mode='rec', sizes=(0, 2), op='tail', prefix=2),
         {'raise', 'none', 'item', 'only new'}),
    Task('dropped-head', ends, dict(mode='plain', sizes=(0, 2), op='head', prefix=2),
         {'raise', 'item'}),
    Task('tail-loop', tail_loop, dict(mode='rec', n=5), {'none', 'item'}),
    Task('deep', ends, dict(mode='rec', sizes=(12, 20), op='tail'),
         {'none', 'item', 'only new'}, tier='thorough', max_steps=10**6),
    Task('loop-deep', tail_loop, dict(mode='plain', n=8), {'none', 'item'},
         tier='thorough'),
]
