"""L02: a waiting writer goes before readers that come later"""
import z3

from symx import engine as E
from symx.task import Task

from . import rw

BOUNDS = ('3-5 threads: a holder (reader or writer), optionally other threads already '
          'waiting, a waiting writer, and one or two readers that start afterwards; every '
          'interleaving (SMT encoding)')
ASSUMPTIONS = rw.ASSUMPTIONS + [
    '"waiting" means: every thread started so far is inside, finished or blocked']


def smt(rt, *a, **k):
    res = rw.Result()
    try:
        return smt_(res, rt, *a, **k)
    except E.Unsupported as u:
        return rw.fallback(res, str(u))


def smt_(res, rt, spec, late, writer=1):
    """Thread 0 holds, `writer` waits; threads in `late` start afterwards."""
    enc, q = rw.encode(rt, spec, res)
    T = z3.Int('T')
    goal = [T >= 0]
    for n in enc.nodes:
        if n.tid in late:
            goal.append(z3.Implies(n.x, n.c > T))
        else:
            goal.append(n.c != T)
    goal.append(z3.Or(enc.inside(0, 'R', T), enc.inside(0, 'W', T)))
    for i in range(1, len(spec)):
        if i not in late:
            goal.append(enc.stuck(i, T))
    w = enc.marks(writer, 'W')
    first = []  # a late reader enters and the writer has not
    for i in late:
        for n in enc.marks(i, 'R'):
            first.append(z3.And(n.x, *[z3.Or(z3.Not(m.x), m.c > n.c) for m in w]))
    base = list(goal)
    # non-vacuity: the scenario happens and everybody finishes
    witness = base + [enc.finished(i) for i in range(len(spec))]
    sc = cut(enc, q, T, witness)
    if sc is not None:
        run = rw.play(rt, spec, sc, {})
        res.cover('writer waits')
        if run['diverged'] is None and run['cut'] and writer in run['cut']['waiting']:
            res['validated'] += 1
            res['samples'].append(dict(spec=spec, cut=str(run['cut']), schedule=' '.join(
                f'{t}{k}' for t, k in sc[:60])))
        else:
            res['incomplete'].append(f'schedule not followed by the real code: {run}')
    res['asserts'] += 1
    res['solver_asserts'] += 1
    sc = cut(enc, q, T, base + [z3.Or(first)])
    if sc is not None:
        res['violation'] = dict(label='a later reader does not pass a waiting writer',
                                detail='', spec=spec, script=sc, writer=writer,
                                late=late, inputs=dict(values={}, choices=[]))
    return rw.done(res, q)


def cut(enc, q, T, goal):
    """The script with the cut inserted"""
    n0 = q.n
    model = {}
    keep = enc.script

    def script(m):
        model['m'] = m
        ev = [n for n in enc.nodes if z3.is_true(m.eval(n.x, True))]
        t = m.eval(T, True).as_long()
        a = [n for n in ev if m.eval(n.c, True).as_long() < t]
        pre = keep(m)
        kinds = ('acq', 'rel', 'rd', 'wr', 'mark', 'held', 'free')
        k = sum(1 for n in a if n.kind in kinds)
        return pre[:k] + [['cut', 'cut']] + pre[k:]

    enc.script = script
    try:
        return q.ask(*goal)
    finally:
        enc.script = keep


def replay(rt, task, v):
    run = rw.play(rt, v['spec'], v['script'], {})
    w, late = v['writer'], v['late']
    o = run['order']
    before = o[:o.index(w)] if w in o else o
    ok = bool(run['cut'] and w in run['cut']['waiting'] and w not in run['cut']['order']
              and not any(i in run['cut']['order'] for i in late)
              and any(i in before for i in late))
    return ok, ('property L02: ' if ok else 'not reproduced: ') + \
        f"{v['label']}; threads {v['spec']}: {run}; schedule " + ' '.join(
            f'{t}:{k}' for t, k in v['script'])


def explore(e, rt, spec, late):
    """Thread 0 holds until the late ones have arrived; others wait."""
    make, progs, _ = rw.setup(rt, spec)
    obj = make()
    order = []
    go = rt.Event()

    def body(i):
        def mark(label):
            if label != 'out':
                order.append(i)
                if i == 0:
                    go.wait()

        return lambda: progs[i](obj, mark)

    bs = [rt.spawn(body(0), 't0')]
    rt.settle()
    for i in range(1, len(spec)):
        if i not in late:
            bs.append(rt.spawn(body(i), f't{i}'))
            rt.settle()
    e.check(order == [0], 'the lock is held', str(order))
    e.cover('writer waits')
    for i in late:
        bs.append(rt.spawn(body(i), f't{i}'))
    if e.choice('late readers block first', 2):
        rt.settle()
        e.check(order == [0], 'a later reader does not pass a waiting writer', str(order))
    go.set()
    rt.join(*bs)
    for i in late:
        e.check(order.index(1) < order.index(i),
                'a later reader does not pass a waiting writer', str(order))


def S(spec, late, tier='quick', **k):
    spec = spec.split()
    return Task('smt ' + ' '.join(spec) + f' late {late}', smt,
                dict(spec=spec, late=late), kind='smt', tier=tier,
                covers=['writer waits'], **k)


def X(spec, late, preempt, tier='quick', **k):
    spec = spec.split()
    return Task('explore ' + ' '.join(spec), explore, dict(spec=spec, late=late),
                preempt=preempt, tier=tier, covers=['writer waits'], **k)


TASKS = [
    S('R W R', [2]), S('W W R', [2]), S('R W W R', [3]), S('W W R R', [2, 3]),
    S('R W R R', [2, 3]), S('W W W R', [3]), S('R W RR', [2]), S('r w r', [2]),
    S('w w r', [2]), S('R WW R', [2]),
    X('R W R', [2], 2), X('W W R R', [2, 3], 1), X('r w r', [2], 2),
    S('R W W RR', [3], tier='thorough'), S('RW WR R', [2], tier='thorough'),
    S('R W R R R', [2, 3, 4], tier='thorough'), S('W W W R R', [3, 4], tier='thorough'),
    S('W W RR RR', [2, 3], tier='thorough'), S('R W W W R', [4], tier='thorough'),
    X('W W R R R', [2, 3, 4], 2, tier='thorough', shards=4, limit=3000),
    X('R W W R R', [3, 4], 3, tier='thorough', shards=8, limit=3000),
]
