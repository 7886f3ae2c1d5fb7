"""A buffer with readers, and the reference model of every reading operation."""
from props.common import *


class Setup:
    """A buffer holding `items`, one reader under test and one bystander reader."""

    def __init__(self, e, rt, mode, n, cursor='any', maxlen=None, prefix=0, pre='k',
                 stopped=None, **rk):
        self.e, self.rt, self.mode = e, rt, mode
        self.items, self.ks, key = mk_items(e, mode, n + prefix, pre=pre)
        self.buf = rt.RWLockSortedDeque(key=key, maxlen=maxlen)
        self.keyfn = key
        self.items = list(self.items)  # plain items are their own keys
        with self.buf.writer_lock() as w:
            for it in self.items:
                w.append(it)
            if prefix:
                w.drop(prefix)
        if prefix:
            self.items, self.ks = self.items[prefix:], self.ks[prefix:]
        if maxlen is not None:
            self.items, self.ks = self.items[-maxlen:], self.ks[-maxlen:]
        self.stop = rt.Event()
        # the end of the stream changes nothing for what is in the buffer
        if stopped == 'any' and e.flag('stopped ' + pre):
            self.stop.set()
            e.cover('stopped')
        self.info = dict(name='source')
        self.r = self.mk(**rk)
        self.other = self.mk()
        self.cur = None  # (item, raw key) of the cursor
        if cursor == 'any' and e.flag('cursor set'):
            self.set_cursor('c')
        elif cursor == 'set':
            self.set_cursor('c')

    def mk(self, **rk):
        return self.rt.BufferReader(buffer=self.buf, source_reader_info=self.info,
                                    stop_event=self.stop, **rk)

    def new_item(self, name, i=500):
        k = self.e.int(name)
        return (k if self.mode == 'plain' else Rec(mk_key(self.mode, k), 'same', i)), k

    def set_cursor(self, name):
        """The cursor is on any item: a buffered one, an evicted one, or between"""
        it, k = self.new_item(name, 900)
        self.r.last_item = it
        self.cur = (it, k)

    def k(self, raw_key):
        return mk_key(self.mode, raw_key)

    def after_cursor(self, cur=0):
        """Index of the first item the cursor has not passed"""
        cur = self.cur if cur == 0 else cur
        if cur is None:
            return 0
        for i, k in enumerate(self.ks):
            if k > cur[1]:
                return i
        return len(self.ks)

    # ---- checks after an operation
    def unchanged(self, label):
        """The buffer and the bystander reader are as before."""
        with self.buf.reader_lock() as d:
            got = list(d)
        self.e.check(same_list(got, self.items), label + ' changed the buffer')
        self.e.check(self.other.last_item is None and self.other.last_key is None,
                     label + ' moved another reader')

    def cursor_is(self, label, cur):
        e, r = self.e, self.r
        if cur is None:
            e.check(r.last_item is None and r.last_key is None, label, 'cursor was unset')
        else:
            e.check(r.last_key is not None and same(r.last_item, cur[0]), label,
                    f'cursor {r.last_item} expected {cur[0]}')
            e.check(r.last_key == self.k(cur[1]) if self.mode == 'plain' or
                    type(r.last_key) is type(self.k(0)) else False, label + ' (key)',
                    f'cursor key {r.last_key} expected {cur[1]}')

    def finish(self, label, out, want, new_cursor, raises=Exception):
        """Compare an outcome with the model's: want is ('ok', value), ('raise',)"""
        e = self.e
        ctx = f'keys={self.ks} cursor={self.cur} -> {show(out)}; expected {want}'
        if want[0] == 'raise':
            e.check(out[0] == 'raise' and isinstance(out[1], raises),
                    label + ': no error', ctx)
            e.cover('raise')
        else:
            e.check(out[0] == 'ok', label + ': raised', ctx)
            v = want[1]
            if v is None:
                e.check(out[1] is None, label + ': not None', ctx)
                e.cover('none')
            elif isinstance(v, list):
                e.check(isinstance(out[1], list), label + ': not a list', ctx)
                e.check(same_list(out[1], v), label + ': wrong items', ctx)
                e.cover('list')
            else:
                e.check(same(out[1], v), label + ': wrong item', ctx)
                e.cover('item')
        self.cursor_is(label + ': wrong cursor', new_cursor)
        self.unchanged(label)
        self.cur = new_cursor

    # ---- models: (want, new cursor)
    def m_read(self, n, peek, ignore, strict):
        a = self.after_cursor()
        left = len(self.items) - a
        if left == 0:
            return (('ok', None) if ignore else ('raise',)), self.cur
        if n == 1:
            return ('ok', self.items[a]), self.at(a, peek)
        if strict and left < n:
            return ('raise',), self.cur
        b = min(a + n, len(self.items))
        return ('ok', self.items[a:b]), self.at(b - 1, peek)

    def at(self, i, peek):
        return self.cur if peek else (self.items[i], self.ks[i])

    def m_range(self, start, stop, step, peek, ignore, only_new, start_le, stop_ge):
        none = ('ok', None) if ignore else ('raise',)
        ks = self.ks
        lo = start
        if only_new and self.cur is not None:
            a = self.after_cursor()
            if a == len(ks):
                return none, self.cur
            if not lo > ks[a]:
                lo = ks[a]
        if start_le:
            for k in reversed(ks):
                if k <= lo:
                    lo = k
                    break
        hi = stop
        if stop_ge:
            for k in ks:
                if k >= stop:
                    hi = k
                    break
            else:
                return none, self.cur
        idx = [i for i, k in enumerate(ks) if k >= lo and k <= hi]
        idx = idx[::step or 1]
        if not idx:
            return (('ok', []) if peek else none), self.cur
        return ('ok', [self.items[i] for i in idx]), self.at(idx[-1], peek)

    def m_tail(self, peek, ignore, only_new):
        none = ('ok', None) if ignore else ('raise',)
        if not self.items:
            return none, self.cur
        if only_new and self.cur is not None and not self.ks[-1] > self.cur[1]:
            return none, self.cur
        return ('ok', self.items[-1]), self.at(-1, peek)

    def m_head(self, peek):
        if not self.items:
            return ('raise',), self.cur
        return ('ok', self.items[0]), self.at(0, peek)
