"""read(n)"""
from props.readers import *

BOUNDS = ('buffers of 0..6 items (every key value), cursor unset or on any key at all, '
          'n 1..8, every combination of peek / strict_n / ignore_no_item_found; buffers '
          'that have evicted or dropped; keys that are tuples, or that fail or answer anything when compared with None; streams that are over; sizes 12, 24 and 10050')
ASSUMPTIONS = ['n >= 1']


def one_read(e, rt, mode, sizes, ns, maxlen=None, prefix=0, via='read'):
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, maxlen=maxlen, prefix=prefix, stopped='any')
    cnt = e.pick('n', ns)
    peek, ignore, strict = e.flag('peek'), e.flag('ignore'), e.flag('strict')
    want, cur = s.m_read(cnt or 1, peek, ignore, strict)
    f = s.r.read if via == 'read' else s.r.next
    kw = dict(peek=peek, ignore_no_item_found=ignore, strict_n=strict)
    if cnt is None:
        out = call(f, **kw)
    else:
        out = call(f, cnt, **kw)
    s.finish(via, out, want, cur, ValueError)
    # what is read next follows from where the cursor is
    want, cur = s.m_read(1, False, True, False)
    s.finish('following read', call(s.r.read, 1, ignore_no_item_found=True), want, cur)


def two_reads(e, rt, mode, sizes, ns):
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, stopped='any')
    for i in range(2):
        cnt = e.pick(f'n{i}', ns)
        strict = e.flag(f'strict{i}')
        peek = e.flag(f'peek{i}')
        want, cur = s.m_read(cnt, peek, False, strict)
        s.finish('read', call(s.r.read, cnt, strict_n=strict, peek=peek), want, cur,
                 ValueError)


def sym_n(e, rt, mode, sizes):
    """n is a solver variable"""
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, stopped='any')
    cnt = e.int('count', 1, n + 3)
    strict = e.flag('strict')
    out = call(s.r.read, cnt, strict_n=strict)
    want, cur = s.m_read(int(cnt), False, False, strict)
    s.finish('read', out, want, cur, ValueError)


def many(e, rt):
    """Reads of more items than any default"""
    k = e.int('k')
    N = 10050
    buf = rt.RWLockSortedDeque()
    with buf.writer_lock() as w:
        for i in range(N):
            w.append(k + i)
    n = e.pick('n', (101, 1025, 10001, N, N + 1))
    strict = e.flag('strict')
    r = rt.BufferReader(buffer=buf, source_reader_info={}, stop_event=rt.Event())
    at = 0
    while at < N:
        out = call(r.read, n, strict_n=strict)
        if strict and n > N - at:
            expect_raise(e, out, ValueError, 'not n items, but no error')
            break
        v = expect_ok(e, out, 'read raised')
        end = min(N, at + n)
        e.check(len(v) == end - at, 'wrong number of items', f'{len(v)}')
        e.check(conj([same(v[0], k + at), same(v[-1], k + end - 1),
                      same(v[len(v) // 2], k + at + len(v) // 2)]), 'wrong items')
        at = end
        e.check(same(r.last_item, k + at - 1), 'wrong cursor')
    e.cover('done')


ALL = {'raise', 'none', 'list', 'item'}
TASKS = [
    Task('plain', one_read, dict(mode='plain', sizes=range(6), ns=[None, 1, 2, 3, 5]), ALL),
    Task('rec', one_read, dict(mode='rec', sizes=range(6), ns=[None, 1, 2, 4, 6]), ALL),
    Task('tuple', one_read, dict(mode='tuple', sizes=range(4), ns=[None, 1, 2, 4]), ALL),
    Task('naive keys', one_read, dict(mode='naive', sizes=(0, 1, 3), ns=[None, 1, 2, 4]), ALL),
    Task('lax keys', one_read, dict(mode='lax', sizes=(0, 1, 3), ns=[None, 1, 2, 4]), ALL),
    Task('window', one_read, dict(mode='rec', sizes=(3, 6), ns=[1, 2, 3, 4], maxlen=3), ALL),
    Task('dropped', one_read, dict(mode='plain', sizes=(0, 3), ns=[1, 2, 3, 4], prefix=2),
         ALL),
    Task('next', one_read, dict(mode='rec', sizes=(0, 1, 3), ns=[None, 1, 2, 4], via='next'),
         ALL),
    Task('two', two_reads, dict(mode='rec', sizes=(2, 4), ns=[1, 2, 3]),
         ALL - {'none'}),
    Task('symbolic-n', sym_n, dict(mode='plain', sizes=(1, 4, 7)), {'raise', 'list', 'item'}),
    Task('large', one_read, dict(mode='rec', sizes=(12, 24), ns=[1, 11, 12, 13, 24]),
         ALL, max_steps=10**6),
    Task('many', many, {}, {'done'}, max_steps=10**8),
    Task('deep', one_read, dict(mode='rec', sizes=(8, 9, 10), ns=range(1, 13)), ALL,
         tier='thorough'),
    Task('two-deep', two_reads, dict(mode='rec', sizes=(3, 5, 6), ns=[1, 2, 3, 4, 5]),
         ALL - {'none'}, tier='thorough'),
    Task('huge', one_read, dict(mode='plain', sizes=(64, 100), ns=[1, 2, 63, 64, 65]),
         ALL, max_steps=10**6, tier='thorough'),
]
