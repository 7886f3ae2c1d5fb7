"""Programs over the reader-writer lock, and their queries."""
import z3

from symx import engine as E
from symx import sched as S
from symx import tbmc as B

ASSUMPTIONS = [
    'stand-in threading.Lock has the documented mutual exclusion semantics (a release '
    'may come from another thread)',
    'threads interact only through the lock object; reads and writes of one attribute '
    'are atomic and sequentially consistent (CPython)',
]


def op_R(o, mark):
    o.reader_acquire()
    mark('R')
    mark('out')
    o.reader_release()


def op_W(o, mark):
    o.writer_acquire()
    mark('W')
    mark('out')
    o.writer_release()


def op_r(o, mark):
    with o.reader_lock():
        mark('R')
        mark('out')


def op_w(o, mark):
    with o.writer_lock():
        mark('W')
        mark('out')


class Oops(Exception):
    pass


def op_x(o, mark):
    """A reader whose body raises"""
    try:
        with o.reader_lock():
            mark('R')
            mark('out')
            raise Oops
    except Oops:
        pass


def op_y(o, mark):
    """A writer whose body raises"""
    try:
        with o.writer_lock():
            mark('W')
            mark('out')
            raise Oops
    except Oops:
        pass


class Interrupt(BaseException):
    """Like KeyboardInterrupt: no Exception"""


def op_X(o, mark):
    """A reader whose body is interrupted"""
    try:
        with o.reader_lock():
            mark('R')
            mark('out')
            raise Interrupt
    except Interrupt:
        pass


def op_Y(o, mark):
    """A writer whose body is interrupted"""
    try:
        with o.writer_lock():
            mark('W')
            mark('out')
            raise Interrupt
    except Interrupt:
        pass


def op_g(o, mark):
    """A reader in a generator that is closed half-way"""
    def gen():
        with o.reader_lock():
            yield

    g = gen()
    next(g)
    mark('R')
    mark('out')
    g.close()


OPS = dict(R=op_R, W=op_W, r=op_r, w=op_w, x=op_x, y=op_y, X=op_X, Y=op_Y, g=op_g)


def setup(rt, spec):
    progs = [seq([OPS[c] for c in s]) for s in spec]
    if any(c in 'rwxyXYg' for s in spec for c in s):
        make = lambda: rt.RWLockSortedDeque(())
    else:
        make = rt.RWLock
    return make, progs, (rt.SortedDeque,)


def seq(fs):
    def prog(o, mark):
        for f in fs:
            f(o, mark)

    return prog


def writers(s):
    return any(c in 'WwyY' for c in s)


def readers(s):
    return any(c in 'RrxXg' for c in s)


class Result(dict):
    def __init__(self):
        self.update(paths=0, decisions=0, choices=0, queries=0, asserts=0,
                    solver_asserts=0, solver_s=0.0, validated=0, covers={}, samples=[],
                    incomplete=[], violation=None, notes=[], bound_hits=0)

    def cover(self, *labels):
        for k in labels:
            self['covers'][k] = self['covers'].get(k, 0) + 1


def encode(rt, spec, res):
    make, progs, skip = setup(rt, spec)
    st = {}
    trees, sh = B.extract(make, progs, st, skip)
    enc = B.Encoding(trees, sh)
    q = B.Query(enc)
    res['paths'] += st['paths']
    res['queries'] += st['queries']
    res['solver_s'] += st['solver_s']
    res['decisions'] += len(enc.nodes)
    return enc, q


def ask(res, q, label, *goal, spec=None, info=None):
    """Assert that `goal` is unreachable"""
    if res['violation']:
        return
    res['asserts'] += 1
    res['solver_asserts'] += 1
    script = q.ask(*goal)
    if script is not None:
        res['violation'] = dict(label=label, detail='', spec=list(spec), script=script,
                                info=info or {}, inputs=dict(values={}, choices=[]))


def done(res, q):
    res['queries'] += q.n
    res['solver_s'] = round(res['solver_s'] + q.t, 3)
    return dict(res)


def witness(rt, res, enc, q, spec, label, *goal):
    """A reachable state (non-vacuity), replayed on the real code"""
    script = q.ask(*goal)
    if script is None:
        return
    res.cover(label)
    run = play(rt, spec, script, {})
    if run['diverged'] is None and not run['errors']:
        res['validated'] += 1
        if len(res['samples']) < 2:
            res['samples'].append(dict(spec=list(spec), reached=label, schedule=' '.join(
                f'{t}{k}' for t, k in script[:60])))
    else:
        res['incomplete'].append(f'schedule for {label} not followed by the real code: '
                                 f'{run}')


def fallback(res, why):
    """The lock code is outside the encoding: only the exploration tasks count."""
    res['notes'] = [f'not encoded ({why}); see the exploration tasks']
    res['skipped'] = True
    return dict(res)


def play(rt, spec, script, info):
    """Run the real code along a script.  What happened, as a dict."""
    out = dict(excl=None, order=[], errors=[], diverged=None, stuck=[], left=0, cut=None)

    def main():
        make, progs, skip = setup(rt, spec)
        obj = make()
        sh = B.Shared(obj, skip=skip)
        sc = B.Scripted(sh, script, info.get('freeze', ()))
        inside = {}
        boxes = []

        def marker(i):
            def mark(label):
                sc.turn('mark')
                if label == 'out':
                    inside.pop(i, None)
                else:
                    inside[i] = label
                    out['order'].append(i)
                    if 'W' in inside.values() and len(inside) > 1:
                        out['excl'] = dict(inside)

            def at_out():
                inside.pop(i, None)

            mark.leave = at_out
            return mark

        def body(i):
            def run():
                m = marker(i)
                sc.tids[S.SCHED.cur] = i
                try:
                    progs[i](obj, m)
                finally:
                    m.leave()

            return run

        for i in range(len(progs)):
            boxes.append(rt.spawn(body(i), f't{i}'))
        sh.on = sc
        S.HOOK = sc
        try:
            rt.settle()
            if sc.script and sc.script[0][0] == 'cut':
                out['cut'] = dict(inside=dict(inside), order=list(out['order']),
                                  waiting=[i for i, b in enumerate(boxes)
                                           if sc.waits(i, b.rec)])
                sc.script.pop(0)
                rt.settle()
            out['left'] = len(sc.script)
            out['diverged'] = sc.diverged
            if sc.script:
                out['diverged'] = out['diverged'] or 'script not completed'
            out['stuck'] = [i for i, b in enumerate(boxes) if not b.done
                            and i not in sc.freeze]
            out['errors'] = [f'{type(b.error).__name__}: {b.error}' for b in boxes
                             if b.error is not None]
        finally:
            sh.on = None
            S.HOOK = None

    def harness(e):
        s = S.Sched(e)
        s.run(main)

    prev = E.CUR
    ce = E.ConcreteEngine(dict(values={}, choices=[]))
    ce.run(harness)
    E.CUR = prev
    return out


# ----------------------------------------------------- exploration (also the fallback)
def explore(e, rt, spec, late=None):
    """The same programs under the scheduler: exclusion, no deadlock, no exception."""
    make, progs, _ = setup(rt, spec)
    obj = make()
    inside = {}

    def body(i):
        def mark(label):
            if label == 'out':
                inside.pop(i, None)
            else:
                inside[i] = label
                e.check(not ('W' in inside.values() and len(inside) > 1),
                        'a writer is alone', str(inside))
                e.cover('entered ' + label)
                if list(inside.values()).count('R') > 1:
                    e.cover('readers together')
                rt.point()

        def run():
            try:
                for c in spec[i]:
                    OPS[c](obj, mark)
                    inside.pop(i, None)
            finally:
                inside.pop(i, None)

        return run

    bs = [rt.spawn(body(i), f't{i}') for i in range(len(progs))]
    rt.join(*bs)
    for b in bs:
        e.check(b.error is None, 'lock operations do not raise', repr(b.error))


def crowd(e, rt, n):
    """Many readers together, then a writer when the last of them has left"""
    make, _, _ = setup(rt, ['RW'])
    obj = make()
    for _ in range(2):
        inside, go = set(), set()

        def body(i, op):
            def mark(label):
                if label != 'out':
                    inside.add(i)
                    rt.wait_until(lambda: i in go)
                    inside.discard(i)
            return lambda: OPS[op](obj, mark)

        rs = [rt.spawn(body(i, 'R'), f'r{i}') for i in range(n)]
        rt.settle()
        e.check(len(inside) == n, 'readers do not share', f'{len(inside)} of {n} inside')
        w = rt.spawn(body('w', 'W'), 'w')
        order = list(range(n))
        if e.flag('reversed'):
            order.reverse()
        for i in order:
            rt.settle()
            e.check('w' not in inside, 'a writer is alone', f'{inside}')
            go.add(i)
        rt.settle()
        e.check(inside == {'w'}, 'the writer did not get in', f'{inside}')
        go.add('w')
        rt.join(w, *rs)
        e.check(not any(t.error for t in (w, *rs)), 'lock operations do not raise')
    e.cover('done')


def independent(e, rt, holds, does, early):
    """Two locks do not hinder each other; readers of the same lock do not either"""
    make, _, _ = setup(rt, [holds + does])
    a, b = make(), make()
    hold, do = e.pick('holds', holds), e.pick('does', does)
    if hold in 'RrxXg' and do in 'RrxXg' and e.flag('same lock'):
        b = a
        e.cover('same lock')
    nothing = lambda label: None
    if early and e.flag('used before'):
        OPS[do](a, nothing)
        OPS[hold](b, nothing)

    def mark(label):
        if label == 'out':
            return
        t = rt.spawn(lambda: OPS[do](b, nothing), 'other')
        rt.settle()
        e.check(t.done, 'a thread waits for nothing', f'{hold} held, {do} wanted')
        e.check(t.error is None, 'lock operations do not raise', repr(t.error))
        e.cover('independent')

    OPS[hold](a, mark)


KINDS = (Oops, ValueError, RuntimeError, IndexError, OSError, StopIteration,
         GeneratorExit, KeyboardInterrupt, SystemExit)


def bodies(e, rt, n):
    """Blocks left with an exception, of every kind: it comes out, the lock is free"""
    make, _, _ = setup(rt, ['rw'])
    o = make()
    for i in range(n):
        side = e.pick(f'side{i}', ('reader_lock', 'writer_lock'))
        ex = e.pick(f'raises{i}', (None, *KINDS))
        ex = ex and ex('body')
        how = e.pick(f'how{i}', ('with', 'exit'))
        out = None
        cm = getattr(o, side)()
        try:
            if how == 'with':
                with cm:
                    if ex:
                        raise ex
            else:  # as in an ExitStack
                cm.__enter__()
                try:
                    if ex:
                        raise ex
                except BaseException as x:
                    if not cm.__exit__(type(x), x, x.__traceback__):
                        raise
                else:
                    cm.__exit__(None, None, None)
        except KINDS as x:
            out = x
        e.check(out is ex, 'the exception of a block does not come out',
                f'{side}: {ex!r} raised, {out!r} came out')
        for c in 'rw':
            t = rt.spawn(lambda: OPS[c](o, lambda label: None), f'{c}{i}')
            rt.settle()
            e.check(t.done, 'a thread waits for nothing', f'{side} left with {ex!r}')
            e.check(t.error is None, 'lock operations do not raise', repr(t.error))
        e.cover('left ' + side)
        e.cover('raised' if ex else 'quiet')


def nested(e, rt, ops, others):
    """Threads that hold sides of two locks at once, taken in the same order"""
    make, _, _ = setup(rt, [ops])
    locks = dict(A=make(), B=make())
    inside = dict(A={}, B={})

    def cm(which, op, i):
        """A generator that has the lock at its yield"""
        o, there = locks[which], inside[which]
        if op in 'Rr':
            ctx = o.reader_lock() if op == 'r' else None
        else:
            ctx = o.writer_lock() if op == 'w' else None
        if ctx:
            ctx.__enter__()
        else:
            (o.reader_acquire if op == 'R' else o.writer_acquire)()
        there[i] = op.upper()
        e.check(not ('W' in there.values() and len(there) > 1), 'a writer is alone',
                f'{which} {there}')
        rt.point()

        def leave():
            there.pop(i)
            if ctx:
                ctx.__exit__(None, None, None)
            else:
                (o.reader_release if op == 'R' else o.writer_release)()
        return leave

    def both(i, a, b, crossed):
        def run():
            x = cm('A', a, i)
            y = cm('B', b, i)
            e.cover('both')
            (x if crossed else y)()
            rt.point()
            (y if crossed else x)()
        return run

    def one(i, which, op):
        def run():
            x = cm(which, op, i)
            rt.point()
            x()
        return run

    a, b = e.pick('outer', ops), e.pick('inner', ops)
    bs = [rt.spawn(both(0, a, b, e.flag('crossed')), 'both')]
    for i, w in enumerate(others, 1):
        bs.append(rt.spawn(one(i, w, e.pick(f'other{i}', ops)), f'other{i}'))
    rt.join(*bs)
    for t in bs:
        e.check(t.error is None, 'lock operations do not raise', repr(t.error))
    for which, o in locks.items():
        t = rt.spawn(one(9, which, ops[-1]), 'last')
        rt.settle()
        e.check(t.done, 'the lock is not free afterwards', which)
