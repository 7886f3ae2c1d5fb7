"""Neighbour lookups by key."""
from props.common import *

BOUNDS = ('collections of 0..7 items (0..5 with duplicate keys), every key and probe '
          'value; plus sizes 8..129 with a symbolic probe; integer items and opaque-key '
          'records; deques that have evicted, dropped or been extended before; keys that are tuples '
          '(to 4 items); the same question before '
          'and after changes, and of two collections')
ASSUMPTIONS = ['keys are totally ordered', 'key function is deterministic']


def lookup_ok(op, items, ks, q, out):
    """The formula that says `out` is the right answer of op(q)."""
    rel = {'find': lambda k: k == q, 'find_le': lambda k: k <= q,
           'find_lt': lambda k: k < q, 'find_ge': lambda k: k >= q,
           'find_gt': lambda k: k > q, 'find_last_gt': lambda k: k > q}[op]
    first = op in ('find', 'find_ge', 'find_gt')
    if out[0] == 'raise':
        if not isinstance(out[1], ValueError):
            return False
        if op == 'find_last_gt':
            return neg(rel(ks[-1])) if ks else True
        return conj(neg(rel(k)) for k in ks)
    if isinstance(out[1], (int, SymInt)):  # plain integers: compare values
        return disj(conj([it == out[1], good(g, rel, ks, first, op)])
                    for g, it in enumerate(items))
    g = index_of(items, out[1])
    return False if g is None else good(g, rel, ks, first, op)


def good(g, rel, ks, first, op):
    if op == 'find_last_gt':
        return rel(ks[g]) if g == len(ks) - 1 else False
    others = ks[:g] if first else ks[g + 1:]
    return conj([rel(ks[g])] + [neg(rel(k)) for k in others])


def build(e, rt, cls, mode, n, strict, how):
    items, ks, key = mk_items(e, mode, n, strict)
    if cls == 'SortedCollection':
        return rt.SortedCollection(items, key), items, ks
    if how == 'ctor':
        return rt.SortedDeque(items, key), items, ks
    if how == 'evict':  # a window that has already slid: only the newest half remains
        m = max(1, (n + 1) // 2)
        d = rt.SortedDeque(key=key, maxlen=m)
        for it in items:
            d.append(it)
        return d, items[-m:] if n else [], ks[-m:] if n else []
    if how == 'drop':
        d = rt.SortedDeque(key=key)
        for it in items[:-1]:
            d.append(it)
        m = n // 2
        if m and m <= n - 1:
            d.drop(m)
        else:
            m = 0
        for it in items[n - 1:] if n else []:
            d.append(it)
        return d, items[m:], ks[m:]
    d = rt.SortedDeque(key=key)
    for it in items:
        d.append(it)
    return d, items, ks


def lookup(e, rt, cls, mode, sizes, strict=True, how='append'):
    n = e.pick('n', sizes)
    ops = ['find', 'find_le', 'find_lt', 'find_ge', 'find_gt']
    if cls == 'SortedDeque':
        ops.append('find_last_gt')
    c, items, ks = build(e, rt, cls, mode, n, strict, how)
    op = e.pick('op', ops)
    probe, q = mk_probe(e, mode)
    out = call(getattr(c, op), probe)
    e.check(lookup_ok(op, items, ks, q, out), f'{op} returns the wrong neighbour',
            f'keys={ks} probe={q} -> {show(out)}')
    e.check(len(c) == len(items), 'a lookup changed the collection')
    e.cover(op + ('/none' if out[0] == 'raise' else '/found'))


def again(e, rt, mode, n, maxlens, times=1):
    """The same question asked before and after a change: nothing is remembered"""
    from props.S02 import change
    items, ks, key = mk_items(e, mode, n)
    m = e.pick('maxlen', maxlens)
    d = rt.SortedDeque(key=key, maxlen=m)
    for it in items:
        d.append(it)
    items, ks = items[-m:], ks[-m:]
    op = e.pick('op', ['find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt'])
    probe, q = mk_probe(e, mode)
    for s in range(times + 1):
        out = call(getattr(d, op), probe)
        e.check(lookup_ok(op, items, ks, q, out), f'{op} wrong when asked again',
                f'keys={ks} probe={q} -> {show(out)}')
        if s < times:
            items, ks = change(e, d, items, ks, mode, m, s)


def two(e, rt, cls, mode, sizes):
    """Two collections asked the same question, and one of them once more"""
    cs = []
    for i in range(2):
        n = e.pick(f'n{i}', sizes)
        items, ks, key = mk_items(e, mode, n, pre=f'c{i}k')
        if cls == 'SortedCollection':
            c = rt.SortedCollection(items, key)
        else:
            c = rt.SortedDeque(key=key, maxlen=e.pick('maxlen', (None, 2)))
            for it in items:
                c.append(it)
            if c.maxlen is not None:
                items, ks = items[-c.maxlen:], ks[-c.maxlen:]
        cs.append((c, items, ks))
    op = e.pick('op', ['find', 'find_le', 'find_lt', 'find_ge', 'find_gt'])
    probe, q = mk_probe(e, mode)
    for i in (0, 1, 0):
        c, items, ks = cs[i]
        out = call(getattr(c, op), probe)
        e.check(lookup_ok(op, items, ks, q, out), f'{op} wrong with two collections',
                f'keys={ks} probe={q} -> {show(out)}')
    for c, items, ks in cs:
        e.check(same_list(list(c), items), 'the collections mix')
    e.cover(op)


COV = [f'{op}/{x}' for op in ('find', 'find_le', 'find_lt', 'find_ge', 'find_gt')
       for x in ('none', 'found')]
TASKS = []
for cls in ('SortedDeque', 'SortedCollection'):
    for mode in ('plain', 'rec'):
        TASKS.append(Task(f'{cls}-{mode}', lookup,
                          dict(cls=cls, mode=mode, sizes=range(8)), COV))
    TASKS.append(Task(f'{cls}-dup', lookup,
                      dict(cls=cls, mode='plain', sizes=range(6), strict=False,
                           how='ctor'), COV))
    TASKS.append(Task(f'{cls}-dup-rec', lookup,
                      dict(cls=cls, mode='rec', sizes=range(5), strict=False,
                           how='ctor'), COV))
TASKS.append(Task('SortedDeque-tuple', lookup,
                  dict(cls='SortedDeque', mode='tuple', sizes=range(5)), COV))
TASKS.append(Task('SortedCollection-tuple', lookup,
                  dict(cls='SortedCollection', mode='tuple', sizes=range(5)), COV))
for how in ('evict', 'drop'):
    TASKS.append(Task(f'SortedDeque-{how}', lookup,
                      dict(cls='SortedDeque', mode='rec', sizes=range(1, 8), how=how), COV))
for cls in ('SortedDeque', 'SortedCollection'):
    TASKS.append(Task(f'{cls}-two', two, dict(cls=cls, mode='plain', sizes=(0, 1, 3)),
                      {'find', 'find_le', 'find_lt', 'find_ge', 'find_gt'}))
CH = {'append', 'drop', 'drop append', 'clear append'}
TASKS.append(Task('asked again', again, dict(mode='rec', n=3, maxlens=(2, 3, 9)), CH))
TASKS.append(Task('asked again-deep', again, dict(mode='plain', n=3, maxlens=(2, 3), times=2),
                  CH, tier='thorough', limit=3000))
TASKS.append(Task('SortedDeque-large', lookup,
                  dict(cls='SortedDeque', mode='rec', sizes=(16, 33), how='append'), COV,
                  max_steps=10**6))
TASKS.append(Task('SortedCollection-large', lookup,
                  dict(cls='SortedCollection', mode='plain', sizes=(16, 33)), COV,
                  max_steps=10**6))
TASKS.append(Task('SortedDeque-huge', lookup,
                  dict(cls='SortedDeque', mode='rec', sizes=(65,), how='append'),
                  COV, max_steps=10**6))
TASKS.append(Task('SortedDeque-vast', lookup,
                  dict(cls='SortedDeque', mode='plain', sizes=(64, 100, 129), how='append'),
                  COV, tier='thorough', max_steps=10**6, limit=3000))
TASKS.append(Task('SortedCollection-huge', lookup,
                  dict(cls='SortedCollection', mode='rec', sizes=(64, 65, 100, 129)),
                  COV, tier='thorough', max_steps=10**6))
TASKS.append(Task('SortedDeque-giant', lookup,
                  dict(cls='SortedDeque', mode='plain', sizes=(257, 300), how='append'),
                  COV, tier='thorough', max_steps=10**7, limit=3000))
TASKS.append(Task('SortedCollection-dup7', lookup,
                  dict(cls='SortedCollection', mode='plain', sizes=(6, 7, 8), strict=False),
                  COV, tier='thorough'))
