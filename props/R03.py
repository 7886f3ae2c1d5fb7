"""range() of a reader"""
from props.readers import *

BOUNDS = ('buffers of 0..5 items, any start/stop, cursor unset or on any key, every '
          'combination of only_new_items, start_le, stop_ge, peek, ignore_no_item_found '
          'and step none/1..3; 12 items with symbolic bounds; keys that are tuples; streams that are over')
ASSUMPTIONS = ['step >= 1']


def one_range(e, rt, mode, sizes, steps, flags, maxlen=None):
    n = e.pick('size', sizes)
    s = Setup(e, rt, mode, n, cursor='any' if 'only_new_items' in flags else None,
              maxlen=maxlen, stopped='any')
    a, b = e.int('start'), e.int('stop')
    step = e.pick('step', steps)
    f = {x: (e.flag(x) if x in flags else False)
         for x in ('peek', 'ignore_no_item_found', 'only_new_items', 'start_le', 'stop_ge')}
    kw = dict(f)
    if not f['ignore_no_item_found']:
        kw.pop('ignore_no_item_found')  # the default
    out = call(s.r.range, s.k(a), s.k(b), *([] if step is None else [step]), **kw)
    want, cur = s.m_range(a, b, step, f['peek'], f['ignore_no_item_found'],
                          f['only_new_items'], f['start_le'], f['stop_ge'])
    s.finish('range', out, want, cur)
    for x in flags:
        if f[x] and want[0] == 'ok' and want[1]:
            e.cover(x)


FL = ['peek', 'ignore_no_item_found', 'only_new_items', 'start_le', 'stop_ge']
TASKS = [
    Task('new', one_range, dict(mode='rec', sizes=range(5), steps=[None],
                                flags=['only_new_items', 'ignore_no_item_found']),
         {'raise', 'none', 'list', 'only_new_items'}),
    Task('le', one_range, dict(mode='plain', sizes=range(5), steps=[None],
                               flags=['start_le', 'ignore_no_item_found']),
         {'raise', 'none', 'list', 'start_le'}),
    Task('ge', one_range, dict(mode='rec', sizes=range(5), steps=[None],
                               flags=['stop_ge', 'ignore_no_item_found']),
         {'raise', 'none', 'list', 'stop_ge'}),
    Task('new, tuple', one_range, dict(mode='tuple', sizes=range(4), steps=[None],
                                       flags=['only_new_items', 'ignore_no_item_found']),
         {'raise', 'none', 'list', 'only_new_items'}),
    Task('le-ge, tuple', one_range, dict(mode='tuple', sizes=range(3), steps=[None],
                                         flags=['stop_ge', 'start_le',
                                                'ignore_no_item_found']),
         {'raise', 'list', 'stop_ge', 'start_le', 'none'}),
    Task('le-ge', one_range, dict(mode='rec', sizes=range(4), steps=[None, 2],
                                  flags=['stop_ge', 'start_le', 'peek']),
         {'raise', 'list', 'stop_ge', 'start_le', 'peek'}),
    Task('all', one_range, dict(mode='plain', sizes=(1, 2, 3), steps=[None], flags=FL),
         {'raise', 'list', 'none', *FL}),
    Task('step', one_range, dict(mode='rec', sizes=(3, 4), steps=[1, 2, 3],
                                 flags=['peek', 'only_new_items']),
         {'raise', 'list', 'peek'}),
    Task('large', one_range, dict(mode='rec', sizes=(12,), steps=[None], flags=['stop_ge']),
         {'raise', 'list', 'stop_ge'}, max_steps=10**6),
    Task('window', one_range, dict(mode='rec', sizes=(5,), steps=[None], maxlen=3,
                                   flags=['only_new_items', 'start_le']),
         {'raise', 'list', 'only_new_items', 'start_le'}),
    Task('deep', one_range, dict(mode='rec', sizes=(4, 5), steps=[None, 2, 3], flags=FL),
         {'raise', 'list', 'none', *FL}, tier='thorough', limit=3000),
]
