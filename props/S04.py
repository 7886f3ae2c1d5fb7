"""The sorted containers against a sorted-list model: insertion, removal, membership,
re-keying, resizing, copying, clearing."""
import copy
import pickle

from props.common import *

BOUNDS = ('collections built from up to 4 items in any order (keys equal or not), then '
          'any 2 mutations (insert left, insert right, remove, re-key, reset key, resize, '
          'unbound, clear, copy, pickle, export and import as a dict, drop), then every query; one change of '
          'or question about a collection of 19; all key values')
ASSUMPTIONS = ['keys are totally ordered']


class Two:
    """An item with two keys and a payload; equality by payload only"""

    __slots__ = ('a', 'b', 'p', 'i')

    def __init__(self, a, b, p, i):
        self.a, self.b, self.p, self.i = a, b, p, i

    def __eq__(self, o):
        return isinstance(o, Two) and self.p == o.p

    def __hash__(self):
        return 0

    def __repr__(self):
        return f'T{self.i}({self.a!r},{self.b!r})'


def by_a(t):
    return t.a


class ByB:
    """A key function that is falsy"""

    def __bool__(self):
        return False

    def __call__(self, t):
        return t.b


by_b = ByB()


class M:
    """Model: list of (key, item), stable sorted"""

    def __init__(self, items, key, maxlen=None):
        self.key, self.maxlen = key, maxlen
        self.load(items)

    def load(self, items):
        its = []
        for x in items:
            k = self.key(x)
            i = 0
            while i < len(its) and its[i][0] <= k:
                i += 1
            its.insert(i, (k, x))
        self.its = its if self.maxlen is None else its[len(its) - min(len(its), self.maxlen):]

    @property
    def items(self):
        return [x for _, x in self.its]


def build(e, rt, cls, mode, n, maxlen, sort):
    if mode == 'plain':
        items = [e.int(f'k{i}') for i in range(n)]
        key = None
    else:
        items = [Two(Key(e.int(f'k{i}')), Key(e.int(f'b{i}')), i % 2, i) for i in range(n)]
        key = by_a
    if sort:
        for x, y in zip(items, items[1:]):
            e.assume(x <= y if mode == 'plain' else raw(x.a) <= raw(y.a))
    if cls == 'SortedDeque':
        c = rt.SortedDeque(items, key, maxlen)
    else:
        c = rt.SortedCollection(items, key)
    return c, M(items, key or ident, maxlen)


def ident(x):
    return x


def neg(x):
    return -x


def compare(e, c, m, label, exact=True):
    got = list(c)
    want = m.items
    e.check(len(c) == len(want), label + ': wrong length', f'{got} vs {want}')
    e.check(same_list(got, want), label + ': wrong items', f'{got} vs {want}')
    e.check(same_list(list(reversed(c)), want[::-1]), label + ': wrong reverse order')


def queries(e, c, m, mode, cls):
    want = m.items
    op = e.pick('query', ['getitem', 'index', 'count', 'contains', 'find', 'find_gt',
                          'find_le'])
    if op == 'getitem':
        for i in range(-len(want), len(want)):
            e.check(same(c[i], want[i]), 'wrong item at an index')
        for i in (len(want), -len(want) - 1):
            expect_raise(e, call(lambda: c[i]), IndexError, 'index out of range accepted')
        if cls == 'SortedCollection':
            e.check(same_list(c[1:3], want[1:3]), 'wrong slice')
        return
    if op in ('find', 'find_gt', 'find_le'):
        from props.S01 import lookup_ok
        q = e.int('q')
        out = call(getattr(c, op), q if mode == 'plain' else Key(q))
        e.check(lookup_ok(op, want, [raw(k) for k, _ in m.its], q, out),
                f'{op} wrong after mutations', f'{want} {q} {show(out)}')
        return
    # membership questions about a new or an old item
    if mode == 'plain':
        x = e.int('x')
    else:
        x = Two(Key(e.int('xa')), Key(e.int('xb')), e.pick('xp', [0, 1]), 99)
    kx = m.key(x)
    eqs = [i for i, (k, y) in enumerate(m.its) if k == kx and y == x]
    out = call(getattr(c, '__contains__' if op == 'contains' else op), x)
    if op == 'contains':
        e.check(bool(expect_ok(e, out, 'in raised')) == bool(eqs), 'wrong membership',
                f'{x} in {want}: {show(out)}')
    elif op == 'count':
        e.check(expect_ok(e, out, 'count raised') == len(eqs), 'wrong count',
                f'{x} in {want}: {show(out)}')
    elif eqs:
        e.check(expect_ok(e, out, 'index raised') == eqs[0], 'wrong index',
                f'{x} in {want}: {show(out)}')
        e.cover('index found')
    else:
        expect_raise(e, out, ValueError, 'index of an absent item')
        e.cover('index absent')


def mutate(e, rt, c, m, mode, cls, s, only=None):
    ops = ['insert', 'insert_right', 'remove', 'clear', 'copy', 'copy.copy', 'pickle']
    if mode == 'rec':
        ops += ['rekey']
    else:
        ops += ['rekey neg', 'reset key']
    if cls == 'SortedDeque':
        ops += ['resize', 'unbound', 'drop', 'jdict', 'append']
    op = e.pick(f'op{s}', only or ops)
    e.cover(op)
    if op in ('insert', 'insert_right'):
        if mode == 'plain':
            x = e.int(f'n{s}')
        else:
            x = Two(Key(e.int(f'n{s}')), Key(e.int(f'nb{s}')), s % 2, 50 + s)
        out = call(getattr(c, op), x)
        if m.maxlen is not None and len(m.its) >= m.maxlen:
            e.check(out[0] == 'raise' and isinstance(out[1], IndexError),
                    'insert into a full bounded deque', show(out))
            e.cover('insert full')
        else:
            expect_ok(e, out, op + ' raised')
            k = m.key(x)
            i = 0
            while i < len(m.its) and (m.its[i][0] < k if op == 'insert'
                                      else m.its[i][0] <= k):
                i += 1
            m.its.insert(i, (k, x))
    elif op == 'remove':
        if mode == 'plain':
            x = e.int(f'r{s}')
        elif m.its and e.flag(f'own{s}'):
            x = e.pick(f'which{s}', m.items)
        else:
            x = Two(Key(e.int(f'r{s}')), Key(0), s % 2, 70 + s)
        kx = m.key(x)
        i = next((i for i, (k, y) in enumerate(m.its) if k == kx and y == x), None)
        out = call(c.remove, x)
        if i is None:
            expect_raise(e, out, ValueError, 'remove of an absent item')
            e.cover('remove absent')
        else:
            expect_ok(e, out, 'remove raised')
            del m.its[i]
            e.cover('remove found')
    elif op == 'clear':
        expect_ok(e, call(c.clear), 'clear raised')
        m.its = []
    elif op in ('copy', 'copy.copy', 'pickle', 'jdict'):
        if op == 'copy':
            out = call(c.copy)
        elif op == 'jdict':
            out = call(lambda: type(c).from_jdict(c.to_jdict()))
        elif op == 'copy.copy':
            out = call(copy.copy, c)
        else:
            out = call(lambda: pickle.loads(pickle.dumps(c)))
        d = expect_ok(e, out, op + ' raised')
        if op == 'pickle' and mode == 'rec':
            e.check([t.i for t in d] == [t.i for t in m.items], 'pickling changes the items')
            d = c
        else:
            compare(e, d, m, op)
        if cls == 'SortedDeque':
            e.check(d.maxlen == m.maxlen, op + ' loses maxlen')
        e.check(d is not c or op == 'pickle', 'copy returns the same object')
        if op != 'jdict' and e.flag(f'use copy{s}'):
            return d
        # the copy is independent
        if d is not c:
            if len(d):
                d.remove(d[0])
            d.clear()
    elif op in ('rekey', 'rekey neg', 'reset key'):
        if op == 'reset key':
            def do():
                del c.key
            new = ident
        elif op == 'rekey':
            new = by_b if m.key is by_a else by_a

            def do():
                c.key = new
        else:
            new = neg

            def do():
                c.key = new
        expect_ok(e, call(do), 're-keying raised')
        m.key = new
        m.load(m.items)
        if op != 'reset key':
            e.check(c.key is new, 'key is not the assigned function')
    elif op in ('resize', 'unbound'):
        size = None if op == 'unbound' else e.pick(f'size{s}', [1, 2, 3, 5])

        def do():
            if size is None:
                del c.maxlen
            else:
                c.maxlen = size
        expect_ok(e, call(do), 'changing maxlen raised')
        e.check(c.maxlen == size, 'maxlen is not the assigned value')
        m.maxlen = size
        if size is not None:
            m.its = m.its[-size:]
    elif op == 'append':
        x = e.int(f'a{s}') if mode == 'plain' else \
            Two(Key(e.int(f'a{s}')), Key(e.int(f'ab{s}')), s % 2, 80 + s)
        k = m.key(x)
        out = call(c.append, x)
        if m.its and not k > m.its[-1][0]:
            expect_raise(e, out, ValueError, 'append out of order')
            e.cover('append refused')
        else:
            expect_ok(e, out, 'append raised')
            m.its.append((k, x))
            if m.maxlen is not None:
                m.its = m.its[-m.maxlen:]
            e.cover('appended')
    elif op == 'drop':
        n = e.pick(f'dropn{s}', range(len(m.its) + 1))
        expect_ok(e, call(c.drop, n), 'drop raised')
        m.its = m.its[n:]
    return c


def model_check(e, rt, cls, mode, sizes, nops, maxlens=(None,), query=True, sort=True,
                only=None):
    n = e.pick('n', sizes)
    maxlen = e.pick('maxlen', maxlens)
    c, m = build(e, rt, cls, mode, n, maxlen, sort)
    compare(e, c, m, 'construction')
    its = [5, 3, 9] if mode == 'plain' else \
        [Two(Key(k), Key(-k), 0, 30 + k) for k in (5, 3, 9)]
    args = (its, None if mode == 'plain' else by_a)  # a second one beside it
    c2 = rt.SortedDeque(*args, 3) if cls == 'SortedDeque' else rt.SortedCollection(*args)
    m2 = M(its, args[1] or ident, 3)
    for s in range(nops):
        c = mutate(e, rt, c, m, mode, cls, s, only and only[s])
        compare(e, c, m, 'after a mutation')
        compare(e, c2, m2, 'another collection')
    if query:
        queries(e, c, m, mode, cls)


def large(e, rt, cls, mode, n):
    """One change in the middle of a larger collection"""
    k = e.int('k')
    j = e.int('j', -1, 2 * n)  # at, or next to, any item
    if mode == 'plain':
        items, key, x = [k + 2 * i for i in range(n)], None, k + j
    else:
        items = [Two(Key(k + 2 * i), Key(0), i % 2, i) for i in range(n)]
        key, x = by_a, Two(Key(k + j), Key(0), 1, 99)
    c = rt.SortedDeque(items, key) if cls == 'SortedDeque' else \
        rt.SortedCollection(items, key)
    m = M(items, key or ident)
    op = e.pick('op', ('insert', 'insert_right', 'remove', 'index', 'count', 'contains'))
    kx = m.key(x)
    at = 0
    while at < n and m.its[at][0] < kx:
        at += 1
    here = at < n and bool(m.its[at][0] == kx)
    same_item = here and bool(m.its[at][1] == x)
    if op in ('insert', 'insert_right'):
        expect_ok(e, call(getattr(c, op), x), op + ' raised')
        m.its.insert(at + (here and op == 'insert_right'), (kx, x))
    elif op == 'remove':
        out = call(c.remove, x)
        if same_item:
            expect_ok(e, out, 'remove raised')
            del m.its[at]
        else:
            expect_raise(e, out, ValueError, 'remove of an absent item')
    elif op == 'index':
        out = call(c.index, x)
        if same_item:
            e.check(expect_ok(e, out, 'index raised') == at, 'wrong index')
        else:
            expect_raise(e, out, ValueError, 'index of an absent item')
    elif op == 'count':
        e.check(c.count(x) == int(same_item), 'wrong count')
    else:
        e.check((x in c) == same_item, 'wrong membership')
    compare(e, c, m, 'after a mutation')
    for q in (kx,):
        a = [i for i, (y, _) in enumerate(m.its) if y <= q]
        if a:
            e.check(same(c.find_le(q), m.its[a[-1]][1]), 'find_le wrong after a mutation')
        b = [i for i, (y, _) in enumerate(m.its) if y > q]
        if b:
            e.check(same(c.find_gt(q), m.its[b[0]][1]), 'find_gt wrong after a mutation')
    e.cover(op)


RESIZE = ('resize', 'unbound')
BASE = {'insert', 'insert_right', 'remove found', 'remove absent', 'clear', 'copy',
        'pickle', 'copy.copy'}
TASKS = []
for cls in ('SortedCollection', 'SortedDeque'):
    ml = (None, 3) if cls == 'SortedDeque' else (None,)
    extra = {'resize', 'unbound', 'insert full', 'jdict', 'append refused', 'appended'} if cls == 'SortedDeque' else set()
    TASKS += [
        Task(f'{cls}-plain-0', model_check,
             dict(cls=cls, mode='plain', sizes=range(5), nops=0, maxlens=ml, sort=False,
                  query=False)),
        Task(f'{cls}-rec-0', model_check,
             dict(cls=cls, mode='rec', sizes=range(4), nops=0, maxlens=ml, sort=False),
             {'index found', 'index absent'}),
        Task(f'{cls}-plain-1', model_check,
             dict(cls=cls, mode='plain', sizes=range(4), nops=1, maxlens=ml),
             BASE | extra | {'rekey neg', 'reset key', 'index found', 'index absent'}),
        Task(f'{cls}-rec-1', model_check,
             dict(cls=cls, mode='rec', sizes=range(4), nops=1, maxlens=ml[-1:]),
             BASE | {'rekey', 'index found', 'index absent'}),
        Task(f'{cls}-rec-2', model_check,
             dict(cls=cls, mode='rec', sizes=(0, 2), nops=2, maxlens=ml, query=False),
             BASE | extra),
        Task(f'{cls}-plain-2', model_check,
             dict(cls=cls, mode='plain', sizes=(0, 2), nops=2, maxlens=ml, query=False),
             BASE | extra),
        Task(f'{cls}-unsorted-1', model_check,
             dict(cls=cls, mode='rec', sizes=(2, 3), nops=1, maxlens=ml, sort=False),
             BASE | extra, tier='thorough', limit=3000),
        Task(f'{cls}-plain-2-deep', model_check,
             dict(cls=cls, mode='plain', sizes=(2, 3), nops=2, maxlens=ml, query=True),
             BASE | extra, tier='thorough', limit=3000),
        Task(f'{cls}-rec-3', model_check,
             dict(cls=cls, mode='rec', sizes=(1,), nops=3, maxlens=ml, query=False),
             BASE | extra, tier='thorough', limit=3000),
    ]

for cls in ('SortedCollection', 'SortedDeque'):
    for mode in ('plain', 'rec'):
        TASKS.append(Task(f'{cls}-large-{mode}', large, dict(cls=cls, mode=mode, n=19),
                          {'insert', 'insert_right', 'remove', 'index', 'count', 'contains'}))

# bounds changed before or after appends that reach them
for mode in ('plain', 'rec'):
    TASKS.append(Task(f'SortedDeque-resized-{mode}', model_check, dict(
        cls='SortedDeque', mode=mode, sizes=(1, 2), nops=3, maxlens=(None, 2),
        only=(RESIZE, ('append', 'insert'), ('append',))),
        {'appended', 'append refused', 'resize', 'unbound', 'index found'}))
TASKS.append(Task('SortedDeque-resized-deep', model_check, dict(
    cls='SortedDeque', mode='plain', sizes=(1, 3), nops=4, maxlens=(None, 1, 3),
    only=(('append', 'drop'), RESIZE, ('append', 'insert', 'drop', 'copy'), ('append',))),
    {'appended', 'append refused', 'resize', 'unbound', 'index found'}, tier='thorough',
    limit=3000))
