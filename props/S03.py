"""Appending in key order, the maxlen window, dropping the oldest."""
from props.common import *
from props.S01 import lookup_ok

BOUNDS = ('any sequence of up to 5 appends (any keys, increasing or not) and drops on an '
          'initially empty deque, maxlen none or 0..4; plus 3 such operations after a '
          'prefill of up to 12 increasing items with maxlen up to 8; filled, '
          'cleared or dropped from, then overfilled again; keys that are tuples, NaN or sets')
ASSUMPTIONS = ['drop(n) with n at most the current length']


def history(e, rt, mode, prefill, maxlens, nops, ctor=False):
    m = e.pick('maxlen', maxlens)
    n = e.pick('prefill', prefill)
    items, ks, key = mk_items(e, mode, n)
    if ctor:
        d = rt.SortedDeque(items, key, m)
    else:
        d = rt.SortedDeque(key=key, maxlen=m)
        for it in items:
            d.append(it)
    model = list(zip(items, ks))
    if m is not None:
        model = model[max(0, len(model) - m):]
    check_state(e, d, model, m)
    other, omodel = rt.SortedDeque(key=key, maxlen=2), []  # a second deque beside it
    for s in range(nops):
        oit = s if mode == 'plain' else Rec(mk_key(mode, s), 'other', 200 + s)
        expect_ok(e, call(other.append, oit), 'append refuses an increasing key')
        omodel = [*omodel, (oit, s)][-2:]
        if e.flag('drop'):
            n = e.pick('drop n', [1, 2, 0, 3, 4, 5][:2 + len(model)])
            if n > len(model):
                raise Abort('bound')
            out = call(d.drop) if n == 1 else call(d.drop, n)
            expect_ok(e, out, 'drop raised')
            model = model[n:]
            e.cover('drop')
        else:
            k = e.int(f'a{s}')
            it = k if mode == 'plain' else Rec(mk_key(mode, k), 'same', 100 + s)
            out = call(d.append, it)
            if out[0] == 'ok':
                if model:
                    e.check(k > model[-1][1], 'append accepts a key that does not increase',
                            f'{k} after {model[-1][1]}')
                model.append((it, k))
                if m is not None and len(model) > m:
                    del model[0]
                    e.cover('evict')
                e.cover('append')
            else:
                e.check(isinstance(out[1], ValueError), 'append raised', show(out))
                e.check(k <= model[-1][1] if model else False,
                        'append refuses an increasing key', f'{k} after {model[-1:]}')
                e.cover('reject')
        check_state(e, d, model, m)
        check_state(e, other, omodel, 2)
    probe, q = mk_probe(e, mode)
    out = call(d.find_ge, probe)
    e.check(lookup_ok('find_ge', [x[0] for x in model], [x[1] for x in model], q, out),
            'lookup after the history is wrong', f'{model} {q} {show(out)}')


NAN = float('nan')
ODD_KEYS = dict(
    nan=[1.0, NAN, 2.0, float('inf'), -1.0, NAN],
    sets=[frozenset('a'), frozenset('b'), frozenset('ab'), frozenset('abc'), frozenset()],
    mixed=[1, 1.0, True, 1.5, 2])


def odd(e, rt, n):
    """Keys that need not be comparable both ways: appended exactly when above the last"""
    keys = ODD_KEYS[e.pick('keys', sorted(ODD_KEYS))]
    m = e.pick('maxlen', (None, 2))
    d = rt.SortedDeque(key=rec_key, maxlen=m)
    model = []
    for i in range(n):
        k = keys[e.choice(f'k{i}', len(keys))]
        r = Rec(k, 'same', i)
        out = call(d.append, r)
        if model and not k > model[-1].k:
            expect_raise(e, out, ValueError, 'append accepts a key that does not increase',
                         f'{k} after {model[-1].k}')
            e.cover('reject')
        else:
            expect_ok(e, out, 'append refuses an increasing key')
            model.append(r)
            if m is not None:
                model = model[-m:]
            e.cover('append')
        e.check(same_list(list(d), model), 'wrong items', f'{list(d)} vs {model}')


def refill(e, rt, mode, most):
    """Filled, dropped from, cleared or resized, then filled and overfilled again"""
    m = e.choice('maxlen', most) + 1
    n = e.choice('prefill', most + 2)
    extra = most + 2
    items, ks, key = mk_items(e, mode, n + extra)
    d = rt.SortedDeque(key=key, maxlen=m)
    model = []

    def add(lo, hi):
        for it, k in list(zip(items, ks))[lo:hi]:
            expect_ok(e, call(d.append, it), 'append refuses an increasing key')
            model.append((it, k))
            if len(model) > m:
                del model[0]

    add(0, n)
    if e.flag('clear'):
        d.clear()
        model.clear()
        e.cover('cleared')
    else:
        k = e.choice('drop n', len(model) + 1)
        expect_ok(e, call(d.drop, k), 'drop raised')
        del model[:k]
        e.cover('dropped')
    check_state(e, d, model, m)
    add(n, n + extra)
    check_state(e, d, model, m)
    probe, q = mk_probe(e, mode)
    op = e.pick('op', ('find_ge', 'find_le'))
    out = call(getattr(d, op), probe)
    e.check(lookup_ok(op, [x[0] for x in model], [x[1] for x in model], q, out),
            'lookup after the history is wrong', f'{model} {q} {show(out)}')


def check_state(e, d, model, m):
    e.check(len(d) == len(model), 'wrong number of items', f'{len(d)} vs {len(model)}')
    e.check(m is None or len(d) <= m, 'more items than maxlen')
    want = [x[0] for x in model]
    e.check(same_list(list(d), want), 'wrong items', f'{list(d)} vs {want}')
    if want:
        e.check(conj([same(d[0], want[0]), same(d[-1], want[-1])]), 'wrong end items')


CV = {'append', 'reject', 'drop', 'evict'}
TASKS = [
    Task('plain', history, dict(mode='plain', prefill=[0], maxlens=[None, 0, 1, 2, 3], nops=4),
         CV),
    Task('rec', history, dict(mode='rec', prefill=[0], maxlens=[None, 1, 2, 4], nops=4), CV),
    Task('tuple', history, dict(mode='tuple', prefill=[0, 2], maxlens=[None, 2], nops=3), CV),
    Task('odd keys', odd, dict(n=3), {'append', 'reject'}),
    Task('refilled', refill, dict(mode='rec', most=4), {'cleared', 'dropped'}),
    Task('refilled deep', refill, dict(mode='plain', most=8), {'cleared', 'dropped'},
         tier='thorough', limit=3000),
    Task('prefilled', history,
         dict(mode='rec', prefill=[1, 5, 12], maxlens=[None, 1, 2, 5, 8], nops=2), CV),
    Task('constructed', history,
         dict(mode='plain', prefill=[0, 1, 3, 6], maxlens=[None, 0, 1, 3, 6], nops=2, ctor=True),
         CV),
    Task('deep', history,
         dict(mode='rec', prefill=[0, 3], maxlens=[None, 1, 2, 3, 4], nops=6), CV,
         tier='thorough'),
    Task('prefilled-deep', history,
         dict(mode='plain', prefill=[6, 9, 20], maxlens=[None, 1, 4, 7, 16], nops=4), CV,
         tier='thorough'),
]
