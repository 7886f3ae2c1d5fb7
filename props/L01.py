"""L01: many readers or one writer, never stuck"""
import z3

from symx import engine as E
from symx.task import Task

from . import rw

BOUNDS = ('2-4 threads, 1-2 lock cycles each, every interleaving of lock operations and '
          'shared attribute accesses (SMT encoding of the extracted event trees), bodies that '
          'raise (9 kinds of exceptions), are interrupted, or are left by closing a generator; '
          'two locks held at once; exploration tasks: 2-3 threads, 2-3 pre-emptions at '
          'line granularity; 40 readers together, or 60 cycles of each of two, without pre-emption')
ASSUMPTIONS = rw.ASSUMPTIONS


def smt(rt, *a, **k):
    res = rw.Result()
    try:
        return smt_(res, rt, *a, **k)
    except E.Unsupported as u:
        return rw.fallback(res, str(u))


def smt_(res, rt, spec):
    enc, q = rw.encode(rt, spec, res)
    n = len(spec)
    ts = range(n)
    rw.witness(rt, res, enc, q, spec, 'all finish', *[enc.finished(i) for i in ts])
    pairs = []
    for i in ts:
        for j in ts:
            if i != j and rw.writers(spec[i]):
                pairs.append(z3.And(enc.inside(i, 'W'),
                                    z3.Or(enc.inside(j, 'R'), enc.inside(j, 'W'))))
    rr = [z3.And(enc.inside(i, 'R'), enc.inside(j, 'R')) for i in ts for j in range(i)
          if rw.readers(spec[i]) and rw.readers(spec[j])]
    if rr:
        rw.witness(rt, res, enc, q, spec, 'readers together', z3.Or(rr))
    rw.ask(res, q, 'a writer is alone', z3.Or(pairs), spec=spec)
    rw.ask(res, q, 'lock operations do not raise', enc.bad_release(), spec=spec)
    rw.ask(res, q, 'no deadlock', *[z3.Or(enc.finished(i), enc.stuck(i)) for i in ts],
           z3.Or([enc.stuck(i) for i in ts]), spec=spec)
    # a reader inside for ever does not keep readers out when no writer is around
    for i in ts:
        for j in ts:
            if i == j or not spec[i][0] in 'Rr' or spec[j].strip('RrxXg'):
                continue
            # every other thread has finished
            rw.ask(res, q, 'readers do not wait for a reader',
                   enc.inside(i, 'R'), enc.stuck(j),
                   *[z3.Or(enc.finished(k), z3.Not(began(enc, k))) for k in ts
                     if k not in (i, j)], spec=spec, info=dict(freeze=[i], waits=j))
    return rw.done(res, q)


def began(enc, t):
    return z3.Or([k.x for k in enc.trees[t].kids])


def replay(rt, task, v):
    info = dict(v.get('info') or {})
    spec = v['spec']
    if 'waits' in info:
        # threads that have not begun stay out of the way
        info['freeze'] = info['freeze'] + [
            i for i in range(len(spec)) if i != info['waits']
            and not any(t == i for t, _ in v['script'])]
    run = rw.play(rt, spec, v['script'], info)
    lab = v['label']
    if lab == 'a writer is alone':
        ok = run['excl'] is not None
    elif lab == 'lock operations do not raise':
        ok = bool(run['errors'])
    elif lab == 'no deadlock':
        ok = bool(run['stuck']) and not run['left']
    else:
        ok = info['waits'] in run['stuck'] and not run['left']
    return ok, ('property L01: ' if ok else 'not reproduced: ') + \
        f'{lab}; threads {spec}: {run}; schedule ' + ' '.join(
            f'{t}:{k}' for t, k in v['script'])


def S(spec, tier='quick', extra=(), **k):
    spec = spec.split()
    return Task('smt ' + ' '.join(spec), smt, dict(spec=spec), kind='smt', tier=tier,
                covers=['all finish', *extra], **k)


RR = ['readers together']
TASKS = [
    S('R W'), S('W W'), S('R R', extra=RR), S('R R W', extra=RR), S('R W W'),
    S('R R W W', extra=RR), S('RW W'), S('RR WW'), S('RW WR'), S('r w x'), S('w w y'),
    S('r y w'), S('X w'), S('r Y'), S('g w'), S('X Y g'), S('R R R W', extra=RR),
    Task('independent', rw.independent, dict(holds='RW', does='RW', early=True),
         covers=['independent', 'same lock']),
    Task('independent buffers', rw.independent, dict(holds='rwxyXYg', does='rwxyXYg', early=True),
         covers=['independent', 'same lock']),
    Task('bodies', rw.bodies, dict(n=2),
         covers=['left reader_lock', 'left writer_lock', 'raised', 'quiet']),
    Task('nested', rw.nested, dict(ops='RW', others='B'), preempt=1, covers=['both']),
    Task('nested buffers', rw.nested, dict(ops='rw', others='BA'), covers=['both']),
    Task('explore R R W', rw.explore, dict(spec=['R', 'R', 'W']), preempt=1,
         covers=['entered R', 'entered W', 'readers together']),
    Task('explore W R', rw.explore, dict(spec=['W', 'R']), preempt=2,
         covers=['entered R', 'entered W']),
    Task('explore r y wx', rw.explore, dict(spec=['r', 'y', 'wx']), preempt=1,
         covers=['entered R', 'entered W']),
    Task('crowd', rw.crowd, dict(n=40), max_steps=10**6, free_switch=False, covers=['done']),
    Task('cycles', rw.explore, dict(spec=['RW' * 30, 'WR' * 30]), max_steps=10**6,
         covers=['entered R', 'entered W']),
    Task('nested deep', rw.nested, dict(ops='rw', others='ABB'), preempt=2, shards=8,
         covers=['both'], tier='thorough', limit=3000),
    Task('explore R R W preempt 2', rw.explore, dict(spec=['R', 'R', 'W']), preempt=2,
         shards=4, covers=['entered R', 'entered W', 'readers together'],
         tier='thorough', limit=3000),
    Task('explore r y wx preempt 2', rw.explore, dict(spec=['r', 'y', 'wx']), preempt=2,
         shards=4, covers=['entered R', 'entered W'], tier='thorough', limit=3000),
    S('RR RR W', tier='thorough', extra=RR), S('RR WW R', tier='thorough', extra=RR), S('RW WR R', tier='thorough', extra=RR),
    S('RW RW W', tier='thorough', extra=RR), S('R R R W W', tier='thorough', extra=RR),
    S('R R W W W', tier='thorough', extra=RR), S('rw wr x', tier='thorough', extra=RR),
    S('RR RR WW', tier='thorough', extra=RR), S('R R R R W W', tier='thorough', extra=RR),
    S('RRR WWW', tier='thorough'),
    Task('explore RW WR R', rw.explore, dict(spec=['RW', 'WR', 'R']), preempt=3, shards=8,
         covers=['entered R', 'entered W', 'readers together'], tier='thorough',
         limit=3000),
    Task('explore instr R R W', rw.explore, dict(spec=['R', 'R', 'W']), preempt=2,
         gran='instr', shards=8, tier='thorough', limit=3000,
         covers=['entered R', 'entered W', 'readers together']),
]
