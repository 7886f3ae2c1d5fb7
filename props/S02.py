"""Key-range and index-range selection."""
from props.common import *
from props.S01 import build

BOUNDS = ('deques of 0..6 items and every pair of bounds (inside, between, outside, '
          'reversed), every step 1..n+1 or none; every index pair 0..n+2; 16 and 33 items '
          'with symbolic bounds; the same range asked before and after one or two changes, and of two deques; '
          'keys that are tuples')
ASSUMPTIONS = ['keys strictly increase (as append enforces)']


def key_range(e, rt, mode, sizes, how, steps):
    n = e.pick('n', sizes)
    d, items, ks = build(e, rt, 'SortedDeque', mode, n, True, how)
    lo, a = mk_probe(e, mode, 'start')
    hi, b = mk_probe(e, mode, 'stop')
    step = None
    if steps and e.flag('with step'):
        step = e.int('step', 1, len(items) + 1)
    out = call(d.range, lo, hi) if step is None else call(d.range, lo, hi, step)
    got = expect_ok(e, out, 'range raised', f'keys={ks} [{a},{b}] step={step}')
    e.check(isinstance(got, list), 'range does not return a list', got)
    check_selection(e, items, ks, a, b, 1 if step is None else int(step), got)


def check_selection(e, items, ks, a, b, step, got):
    """got is exactly every step-th item of those with a <= key <= b, in order"""
    pos = [index_of(items, x) for x in got]
    if any(p is None for p in pos):  # equal values instead of the same objects
        pos = [next((i for i, it in enumerate(items) if same(it, x) is True), None)
               for x in got]
        e.check(all(p is not None for p in pos), 'range returns foreign items', got)
    e.check(all(q - p == step for p, q in zip(pos, pos[1:])),
            'range skips, repeats or reorders', f'{pos} step={step}')
    if not pos:
        e.check(conj(disj([k < a, k > b]) for k in ks), 'range misses items',
                f'keys={ks} [{a},{b}]')
        e.cover('empty')
        return
    first, last = pos[0], pos[-1]
    e.check(conj([ks[first] >= a, ks[last] <= b]
                 + [k < a for k in ks[:first]]
                 + [k > b for k in ks[last + step:][:1]]),
            'range has the wrong bounds', f'keys={ks} [{a},{b}] step={step} -> {pos}')
    e.cover('some' if len(pos) < len(items) else 'all')
    if step > 1 and len(pos) > 1:
        e.cover('stepped')


def index_range(e, rt, mode, sizes, how):
    n = e.pick('n', sizes)
    d, items, ks = build(e, rt, 'SortedDeque', mode, n, True, how)
    n = len(items)
    i = e.int('i', 0, n + 2)
    j = e.int('j', 0, n + 2)
    if e.flag('with step'):
        s = e.int('step', 1, n + 1)
        out = call(d.range_by_index, i, j, s)
    else:
        s = 1
        out = call(d.range_by_index, i, j)
    got = expect_ok(e, out, 'range_by_index raised')
    want = items[int(i):int(j):int(s)]
    e.check(isinstance(got, list), 'range_by_index does not return a list')
    e.check(same_list(got, want), 'range_by_index returns the wrong items',
            f'{i}:{j}:{s} of {items} -> {got}')
    e.check(same_list(list(d), items), 'a selection changed the deque')
    e.cover('empty' if not want else 'some')


def change(e, d, items, ks, mode, m, s):
    """Some mutation of the deque; the items and keys it should have then"""
    op = e.pick(f'op{s}', ['append', 'append 2', 'drop', 'drop append', 'clear append'])
    if op.startswith('clear'):
        d.clear()
        items, ks = [], []
    if op.startswith('drop') and items:
        d.drop(1)
        items, ks = items[1:], ks[1:]
    for i in range(dict(drop=0).get(op, 2 if '2' in op else 1)):
        k = e.int(f'new{s}{i}')
        if ks:
            e.assume(k > ks[-1])
        it = k if mode == 'plain' else Rec(mk_key(mode, k), 'same', 100 + 10 * s + i)
        d.append(it)
        items, ks = items + [it], ks + [k]
    e.cover(op)
    return items[-m:], ks[-m:]


def again(e, rt, mode, n, maxlens, times=1):
    """The same range asked before and after a change: nothing is remembered"""
    items, ks, key = mk_items(e, mode, n)
    m = e.pick('maxlen', maxlens)
    d = rt.SortedDeque(key=key, maxlen=m)
    for it in items:
        d.append(it)
    items, ks = items[-m:], ks[-m:]
    lo, a = mk_probe(e, mode, 'start')
    hi, b = mk_probe(e, mode, 'stop')
    e.assume(a <= b)
    for s in range(times + 1):
        got = expect_ok(e, call(d.range, lo, hi), 'range raised')
        check_selection(e, items, ks, a, b, 1, got)
        e.check(same_list(d.range_by_index(0, len(items)), items), 'all items')
        if got:
            got.clear()  # the list belongs to the caller
        if s < times:
            items, ks = change(e, d, items, ks, mode, m, s)


def two(e, rt, mode, sizes):
    """Two deques asked for the same range"""
    ds = []
    for i in range(2):
        items, ks, key = mk_items(e, mode, e.pick(f'n{i}', sizes), pre=f'd{i}k')
        d = rt.SortedDeque(key=key)
        for it in items:
            d.append(it)
        ds.append((d, items, ks))
    lo, a = mk_probe(e, mode, 'start')
    hi, b = mk_probe(e, mode, 'stop')
    for i in (0, 1, 0):
        d, items, ks = ds[i]
        got = expect_ok(e, call(d.range, lo, hi), 'range raised')
        check_selection(e, items, ks, a, b, 1, got)
        e.check(same_list(d.range_by_index(0, 9), items), 'the deques mix')


TASKS = [
    Task('two', two, dict(mode='plain', sizes=(0, 2, 3)), {'empty', 'some', 'all'}),
    Task('asked again', again, dict(mode='plain', n=3, maxlens=(2, 3, 9)),
         {'empty', 'some', 'all', 'append', 'drop', 'drop append', 'clear append'}),
    Task('asked again-rec', again, dict(mode='rec', n=2, maxlens=(2,), times=2),
         {'empty', 'some', 'all', 'append', 'drop', 'drop append', 'clear append'}),
    Task('asked again-deep', again, dict(mode='plain', n=4, maxlens=(3, 4), times=3),
         {'empty', 'some', 'all', 'append', 'drop', 'drop append', 'clear append'},
         tier='thorough', limit=3000),
    Task('plain', key_range, dict(mode='plain', sizes=range(7), how='append', steps=True),
         {'empty', 'some', 'all', 'stepped'}),
    Task('rec', key_range, dict(mode='rec', sizes=range(6), how='append', steps=True),
         {'empty', 'some', 'all', 'stepped'}),
    Task('tuple', key_range, dict(mode='tuple', sizes=range(5), how='append', steps=True),
         {'empty', 'some', 'all', 'stepped'}),
    Task('evict', key_range, dict(mode='rec', sizes=(5, 8, 11), how='evict', steps=False),
         {'empty', 'some', 'all'}),
    Task('drop', key_range, dict(mode='plain', sizes=(4, 7), how='drop', steps=False),
         {'empty', 'some', 'all'}),
    Task('large', key_range, dict(mode='rec', sizes=(16, 33), how='append', steps=False),
         {'empty', 'some', 'all'}, max_steps=10**6),
    Task('index', index_range, dict(mode='rec', sizes=range(6), how='append'),
         {'empty', 'some'}),
    Task('index-evict', index_range, dict(mode='plain', sizes=(5, 8), how='evict'),
         {'empty', 'some'}),
    Task('plain-deep', key_range,
         dict(mode='plain', sizes=(8, 10, 12), how='append', steps=True),
         {'empty', 'some', 'all', 'stepped'}, tier='thorough'),
    Task('large-deep', key_range, dict(mode='rec', sizes=(64, 100), how='append', steps=False),
         {'empty', 'some', 'all'}, max_steps=10**6, tier='thorough'),
]
