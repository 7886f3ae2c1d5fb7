"""Sequential consumption while the window moves."""
from props.readers import *

BOUNDS = ('histories of up to 7 steps (append, drop, read by either of two readers with '
          'sizes 1..3, strict or not, iteration), window none or 1..3, all key values, '
          'keys that cannot be compared with None; '
          'longer histories of up to 12 steps with single-item reads; loops over a '
          'reader left and resumed between reads (5 steps); streams of 300 items')
ASSUMPTIONS = ['keys increase (append refuses others)', 'no concurrency: see R07, R08']


class Consumer:
    def __init__(self, r):
        self.r = r
        self.got = []  # indices into the production order
        self.loop = None


def history(e, rt, mode, maxlens, nsteps, sizes, nreaders=2, drop=True, late=False,
            opts=True, loops=False):
    m = e.pick('maxlen', maxlens)
    s = Setup(e, rt, mode, 0, cursor=None, maxlen=m)
    produced = []  # every item ever appended
    keys = []
    lo = 0  # index of the oldest item still buffered
    cons = [Consumer(s.mk()) for _ in range(1 if late else nreaders)]
    for t in range(nsteps):
        acts = ['append', 'read'] + (['drop'] if drop and len(produced) > lo else []) \
            + (['new reader'] if late and len(cons) < nreaders else [])
        act = e.pick(f't{t}', acts)
        if act == 'new reader':
            cons.append(Consumer(s.mk()))
            e.cover('late')
        elif act == 'append':
            it, k = s.new_item(f'a{t}', t)
            if keys:
                e.assume(k > keys[-1])
            with s.buf.writer_lock() as w:
                w.append(it)
            produced.append(it)
            keys.append(k)
            if m is not None and len(produced) - lo > m:
                lo += 1
                e.cover('evict')
        elif act == 'drop':
            n = e.choice(f'd{t}', len(produced) - lo) + 1
            with s.buf.writer_lock() as w:
                w.drop(n)
            lo += n
            e.cover('drop')
        else:
            c = cons[e.choice(f'who{t}', len(cons))]
            n = e.pick(f'n{t}', sizes)
            strict = opts and n > 1 and e.flag(f'strict{t}')
            it = opts and n == 1 and e.flag(f'iter{t}')
            nxt = max(lo, c.got[-1] + 1 if c.got else 0)
            avail = len(produced) - nxt
            if loops and avail:
                how = e.pick(f'loop{t}', ('read', 'new loop', 'same loop'))
                if how != 'read':
                    if how == 'new loop' or c.loop is None:
                        c.loop = iter(c.r)
                    take = 1 + e.choice(f'take{t}', avail)
                    out = call(lambda: [next(c.loop) for _ in range(take)])
                    got = expect_ok(e, out, 'a loop raised')
                    e.check(same_list(got, produced[nxt:nxt + take]),
                            'items skipped, repeated or out of order',
                            f'step {t} {how} of {c.got} gives {got} in {produced}')
                    c.got += range(nxt, nxt + take)
                    e.cover('loop')
                    continue
            if it:
                out = call(next, c.r)
            else:
                out = call(c.r.read, n, strict_n=strict, ignore_no_item_found=True)
            ctx = f'step {t}: produced={len(produced)} window from {lo} ' \
                f'consumed={c.got} n={n} -> {show(out)}'
            if avail == 0:
                e.check(out == ('ok', None), 'something read when all was consumed', ctx)
                e.cover('none')
                continue
            if strict and avail < n:
                expect_raise(e, out, ValueError, 'strict read of too few', ctx)
                e.cover('strict')
                continue
            got = expect_ok(e, out, 'read raised', ctx)
            take = min(n, avail)
            want = produced[nxt:nxt + take]
            if n == 1:
                e.check(same(got, want[0]), 'item skipped, repeated or out of order', ctx)
            else:
                e.check(same_list(got, want), 'items skipped, repeated or out of order',
                        ctx)
            if nxt > (c.got[-1] + 1 if c.got else 0):
                e.cover('skipped evicted')
            c.got += range(nxt, nxt + take)
            e.cover('read')


def flow(e, rt, most):
    """A long stream read in step with its producer, behind it, or too late"""
    n = 300
    w, burst, take = e.pick('window', (None, 3, 64)), e.pick('burst', (1, 5, 80)), \
        e.pick('take', most)
    s = Setup(e, rt, 'plain', 0, cursor=None, maxlen=w)
    k = e.int('k')
    done = nxt = 0
    while done < n or nxt < n:
        for _ in range(min(burst, n - done)):
            with s.buf.writer_lock() as wr:
                wr.append(k + done)
            done += 1
        lo = max(0, done - w) if w else 0
        if lo > nxt:
            nxt = lo
            e.cover('lost')
        out = call(s.r.read, take, ignore_no_item_found=True)
        got = expect_ok(e, out, 'read raised')
        hi = min(done, nxt + take)
        e.check(same_list(got if take > 1 else [got], [k + i for i in range(nxt, hi)]),
                'items skipped, repeated or out of order', f'{got} at {nxt} of {done}')
        nxt = hi
    e.cover('done')


TASKS = [
    Task('flow', flow, dict(most=(1, 4, 100)), {'lost', 'done'}, max_steps=10**6),
    Task('window', history, dict(mode='rec', maxlens=[1, 2], nsteps=6, sizes=[1],
                                 drop=False, opts=False),
         {'evict', 'none', 'read', 'skipped evicted'}),
    Task('tuple', history, dict(mode='tuple', maxlens=[2], nsteps=5, sizes=[1],
                                drop=False, opts=False),
         {'evict', 'none', 'read', 'skipped evicted'}),
    Task('naive keys', history, dict(mode='naive', maxlens=[2], nsteps=5, sizes=[1],
                                     drop=False, opts=False),
         {'evict', 'none', 'read', 'skipped evicted'}),
    Task('lax keys', history, dict(mode='lax', maxlens=[2], nsteps=5, sizes=[1],
                                   drop=False, opts=False),
         {'evict', 'none', 'read', 'skipped evicted'}),
    Task('iter', history, dict(mode='plain', maxlens=[2], nsteps=5, sizes=[1],
                               drop=False), {'evict', 'none', 'read', 'skipped evicted'}),
    Task('loops', history, dict(mode='plain', maxlens=[None, 2], nsteps=5, sizes=[1],
                                nreaders=1, drop=False, opts=False, loops=True),
         {'loop', 'read', 'none'}),
    Task('loops deep', history, dict(mode='rec', maxlens=[None, 2], nsteps=7, sizes=[1, 2],
                                     loops=True), {'loop', 'read', 'none', 'drop'},
         tier='thorough', limit=3000),
    Task('drop', history, dict(mode='plain', maxlens=[None], nsteps=5, sizes=[1, 2],
                               opts=False), {'drop', 'none', 'read', 'skipped evicted'}),
    Task('chunks', history, dict(mode='rec', maxlens=[None, 3], nsteps=5, sizes=[2, 3],
                                 nreaders=1),
         {'none', 'read', 'strict', 'drop'}),
    Task('late', history, dict(mode='rec', maxlens=[2], nsteps=5, sizes=[1], nreaders=2,
                               drop=False, late=True), {'late', 'evict', 'read'}),
    Task('long', history, dict(mode='plain', maxlens=[3], nsteps=9, sizes=[1], nreaders=1,
                               drop=False, opts=False), {'evict', 'read'}),
    Task('deep', history, dict(mode='rec', maxlens=[None, 2, 3], nsteps=7, sizes=[1, 2]),
         {'evict', 'drop', 'read', 'strict'}, tier='thorough', limit=3000),
    Task('long-deep', history, dict(mode='rec', maxlens=[2, 4], nsteps=12, sizes=[1],
                                    nreaders=1, drop=False), {'evict', 'read'},
         tier='thorough', limit=3000),
]
