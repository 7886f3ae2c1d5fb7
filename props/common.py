"""Vocabulary shared by the harnesses."""
from symx.engine import Key, SymInt, SymBool, Abort  # noqa
from symx.logic import conj, disj, neg, imp, ite  # noqa
from symx.runtime import call  # noqa
from symx.task import Task  # noqa


class Vague:
    """What comparing an array with something gives"""

    def __bool__(self):
        raise ValueError('The truth value is ambiguous')


class Rec:
    """A stream item as awkward as the API allows: it has no ordering, is falsy, and
    compares equal to every other record with the same payload and, like an array, cannot
    say whether it equals something else."""

    __slots__ = ('k', 'p', 'i')

    def __init__(self, k, p, i):
        self.k, self.p, self.i = k, p, i

    def __eq__(self, o):
        return self.p == o.p if isinstance(o, Rec) else Vague()

    def __ne__(self, o):
        return self.p != o.p if isinstance(o, Rec) else Vague()

    def __hash__(self):
        return 0

    def __bool__(self):
        return False

    def __repr__(self):
        return f'Rec#{self.i}({self.k!r})'


class Falsy:
    """A callable that is falsy: what counts is whether it is given"""

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return False

    def __call__(self, *a, **k):
        return self.f(*a, **k)


rec_key = Falsy(lambda r: r.k)


class NaiveKey(Key):
    """A key whose comparisons take for granted that the other is a key"""

    __slots__ = ()
    __hash__ = Key.__hash__

    def other(self, o):
        return o.v

    def __lt__(self, o):
        return self.v < self.other(o)

    def __le__(self, o):
        return self.v <= self.other(o)

    def __gt__(self, o):
        return self.v > self.other(o)

    def __ge__(self, o):
        return self.v >= self.other(o)

    def __eq__(self, o):
        return self.v == o.v if isinstance(o, Key) else False

    def __ne__(self, o):
        return self.v != o.v if isinstance(o, Key) else True


class LaxKey(NaiveKey):
    """A key that compares with anything, as if what is not a key were zero"""

    __slots__ = ()
    __hash__ = Key.__hash__

    def other(self, o):
        return getattr(o, 'v', 0)


KEYS = dict(rec=Key, naive=NaiveKey, lax=LaxKey)


def raw(k):
    """The number behind a key"""
    if type(k) is tuple:
        k = k[1]
    return k.v if isinstance(k, Key) else k


def mk_key(mode, k):
    """The key with the number k: itself, an object of some kind, or a tuple"""
    if mode in KEYS:
        return KEYS[mode](k)
    return k if mode == 'plain' else ('plc', Key(k))


def mk_items(e, mode, n, strict=True, pre='k', sort=True, payload=None):
    """n items with symbolic keys in increasing (non-decreasing) order.

    mode 'plain': the items are integers and are their own keys (may be 0).
    mode 'rec': records with opaque keys; 'naive' and 'lax': keys that do not expect to be
    compared with anything else; 'tuple': records with tuples as keys.
    Returns (items, keys, key function)."""
    ks = [e.int(f'{pre}{i}') for i in range(n)]
    if sort:
        for a, b in zip(ks, ks[1:]):
            e.assume(a < b if strict else a <= b)
    if mode == 'plain':
        return ks, ks, None
    items = [Rec(mk_key(mode, k), 'same' if payload is None else payload(i), i)
             for i, k in enumerate(ks)]
    return items, ks, rec_key


def mk_probe(e, mode, name='q'):
    q = e.int(name)
    return mk_key(mode, q), q


def same(a, b):
    """The same item (identity for records, value for plain integers)"""
    if a is b:
        return True
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return a == b
    return False


def index_of(items, x):
    """Position of exactly this object, or None"""
    for i, it in enumerate(items):
        if it is x:
            return i
    return None


def same_list(got, want):
    if not isinstance(got, (list, tuple)) or len(got) != len(want):
        return False
    return conj(same(a, b) for a, b in zip(got, want))


def show(out):
    kind, v = out
    return f'{kind}: {v!r}' if kind == 'ok' else f'raised {type(v).__name__}: {v}'


def expect_ok(e, out, label, why=''):
    if out[0] != 'ok':
        e.check(False, label, f'{why} {show(out)}')
    return out[1]


def expect_raise(e, out, types, label, why=''):
    e.check(out[0] == 'raise' and isinstance(out[1], types), label, f'{why} {show(out)}')
