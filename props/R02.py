"""Defaults given when a reader is made; overrides given per call."""
import warnings

from props.readers import *
from props.sources import ListSource

BOUNDS = ('every combination of read_size (1, 2, 3), peek, strict_n, '
          'ignore_no_item_found as default, each argument omitted or given per call; '
          'buffers of 0..4 items, any cursor; read, blocking read, next(), the deprecated next method, range, and '
          'readers made by a started StreamBuffer or StreamSource; '
          'an earlier call with options of its own')
ASSUMPTIONS = ['read sizes >= 1']

NAMES = ('peek', 'ignore_no_item_found', 'strict_n')


def defaults(e, rt, mode, sizes, op, given, earlier=0):
    n = e.pick('size', sizes)
    d = dict(read_size=e.pick('default read_size', [1, 2, 3]))
    for x in NAMES:
        if e.flag('default ' + x):
            d[x] = True
    s = Setup(e, rt, mode, n, stopped='any' if 'next' != op != 'blocking' else None, **d)
    eff = dict(n=d['read_size'], **{x: d.get(x, False) for x in NAMES})
    if earlier:  # other calls with options of their own leave no trace
        for i in range(earlier):
            o = dict(peek=True, ignore_no_item_found=True)
            if e.flag(f'earlier n{i}'):
                o['n'] = 2
            if e.flag(f'earlier strict{i}'):
                o['strict_n'] = not d.get('strict_n', False)
            call(s.r.read, **o)
            if e.flag(f'range{i}'):
                call(s.r.range, s.k(0), s.k(0), peek=True, ignore_no_item_found=True)
    kw = {}
    for x in given:
        c = e.choice('given ' + x, 3)
        if c:
            kw[x] = (c == 1) if x != 'n' else c
            eff[x] = kw[x]
    e.cover('omitted' if not kw else 'given')
    if op == 'old next':
        # the deprecated method has defaults of its own
        eff = dict(dict(n=1, peek=False, ignore_no_item_found=False, strict_n=False), **kw)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = call(s.r.next, **kw)
    elif op == 'read':
        out = call(s.r.read, **kw)
    elif op == 'blocking':
        s.stop.set()
        out = call(s.r.read, blocking=True, **kw)
        eff['ignore_no_item_found'] = True
    else:
        out = call(next, s.r)
        eff['ignore_no_item_found'] = True
    want, cur = s.m_read(eff['n'], eff['peek'], eff['ignore_no_item_found'],
                         eff['strict_n'])
    s.finish(op, out, want, cur, ValueError)


def range_default(e, rt, mode, sizes):
    n = e.pick('size', sizes)
    dflt = e.flag('default ignore')
    s = Setup(e, rt, mode, n, ignore_no_item_found=dflt, read_size=e.pick('size', [1, 3]),
              strict_n=e.flag('strict'), peek=e.flag('default peek'), stopped='any')
    a, b = e.int('start'), e.int('stop')
    new = e.flag('only_new_items')
    ge = e.flag('stop_ge')
    kw = {}
    g = e.choice('given', 3)
    ignore = dflt
    if g:
        kw['ignore_no_item_found'] = ignore = (g == 1)
    out = call(s.r.range, s.k(a), s.k(b), only_new_items=new, stop_ge=ge, **kw)
    want, cur = s.m_range(a, b, None, False, ignore, new, False, ge)
    s.finish('range', out, want, cur)


def made_by(e, rt, how):
    """The defaults reach readers made by a stream buffer or a stream source"""
    n = e.pick('size', [0, 1, 3])
    d = dict(read_size=e.pick('read_size', [1, 2, 3]))
    names = ('strict_n', 'ignore_no_item_found') + (('peek',) if how != 'source' else ())
    for x in names:
        d[x] = e.flag(x)
    ks = [e.int(f'k{i}') for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        e.assume(a < b)
    if how == 'source':
        src = ListSource.stream_source(rt, ks)
        r = src.open_reader(**d)
    else:
        sb = rt.StreamBuffer(ListSource.source_reader(rt, ks), maxlen=10)
        sb.start()
        r = sb.mk_reader(**d)
    rt.sleep(0.01)
    strict, ignore = d['strict_n'], d['ignore_no_item_found']
    rs, peek = d['read_size'], d.get('peek', False)
    for i in range(2):
        pos = 0 if i == 0 or peek else min(rs, n)
        left = n - pos
        out = call(r.read)
        if left == 0:
            if ignore:
                e.check(out == ('ok', None), 'read with nothing left', show(out))
                e.cover('none')
            else:
                expect_raise(e, out, ValueError, 'read with nothing left')
                e.cover('raise')
        elif rs > 1 and strict and left < rs:
            expect_raise(e, out, ValueError, 'strict read with too few items')
            e.cover('raise')
            break
        else:
            got = expect_ok(e, out, 'read raised')
            want = ks[pos:pos + rs]
            if rs == 1:
                e.check(same(got, want[0]), 'wrong item', show(out))
                e.cover('item')
            else:
                e.check(same_list(got, want), 'wrong items', show(out))
                e.cover('list')


ALL = {'raise', 'none', 'list', 'item', 'omitted', 'given'}
TASKS = [
    Task('read', defaults, dict(mode='plain', sizes=(0, 1, 3), op='read',
                                given=('n', 'peek', 'strict_n')), ALL),
    Task('read-ignore', defaults, dict(mode='rec', sizes=(0, 2), op='read',
                                       given=('ignore_no_item_found', 'peek')), ALL),
    Task('read again', defaults, dict(mode='rec', sizes=(1, 3), op='read', given=(),
                                      earlier=1), ALL - {'given', 'none'}),
    Task('next again', defaults, dict(mode='plain', sizes=(0, 2), op='next', given=(),
                                      earlier=1), ALL - {'given'}),
    Task('read again, twice', defaults, dict(mode='rec', sizes=(1, 3), op='read', given=(),
                                             earlier=2), ALL - {'given', 'none'},
         tier='thorough', limit=3000),
    Task('blocking', defaults, dict(mode='rec', sizes=(0, 1, 3), op='blocking',
                                    given=('n', 'peek', 'strict_n')), ALL),
    Task('next', defaults, dict(mode='rec', sizes=(1, 2, 3), op='next', given=()),
         ALL - {'given'}),
    Task('old next', defaults, dict(mode='rec', sizes=(0, 1, 3), op='old next',
                                    given=('n', 'peek', 'ignore_no_item_found',
                                           'strict_n')), ALL),
    Task('range', range_default, dict(mode='rec', sizes=(0, 2)), {'raise', 'none', 'list'}),
    Task('mk_reader', made_by, dict(how='buffer'), {'raise', 'none', 'list', 'item'}),
    Task('open_reader', made_by, dict(how='source'), {'raise', 'none', 'list', 'item'}),
    Task('read-deep', defaults, dict(mode='rec', sizes=(0, 2, 4), op='read',
                                     given=('n',) + NAMES), ALL, tier='thorough'),
]
