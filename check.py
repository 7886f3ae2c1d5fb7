#!/usr/bin/env python3
"""Decide one property of /repo by bounded symbolic execution of the real code.

  python3-vt check.py <ID> [--thorough] [--jobs N]   decide the property
  python3-vt check.py replay <file>                  replay one counterexample
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

VALIDATE = 6  # passing paths per task re-executed on plain values


def load_tasks(pid, tier):
    mod = importlib.import_module('props.' + pid)
    ts = [t for t in mod.TASKS if tier == 'thorough' or t.tier == 'quick']
    names = [t.name for t in ts]
    assert len(set(names)) == len(names), names
    return mod, ts


# ------------------------------------------------------------------ worker side
def make_harness(task, rt, shard=None):
    from symx import engine as E
    from symx import sched as S

    def harness(e):
        rt.snapshot.restore()
        s = S.Sched(e, preempt=task.preempt, shard=shard, max_steps=task.max_steps,
                    tmax=task.tmax, free_switch=task.free_switch)
        try:
            s.run(lambda: task.fn(e, rt, **task.params))
        except Exception as x:
            if e.stopped:
                raise E.Abort('stopped')
            e.check(False, f'unexpected {type(x).__name__}',
                    ''.join(traceback.format_exception(x))[-1500:])
        finally:
            e.log_sched = s.trace[-40:]

    return harness


def worker(pid, tier, name, shard, nshards, out):
    import gc
    t0 = time.perf_counter()
    from symx import engine as E
    from symx import sched as S
    from symx.runtime import Runtime
    mod, tasks = load_tasks(pid, tier)
    task = [t for t in tasks if t.name == name][0]
    rt = Runtime(task.gran)
    res = dict(task=name, shard=shard)
    if task.kind == 'smt':
        try:
            r = task.fn(rt, **task.params)
        except E.Unsupported as u:
            r = dict(error='unsupported: ' + str(u))
        res.update(r)
        res['functions'] = sorted(S.FUNCS)
        res['wall_s'] = round(time.perf_counter() - t0, 3)
        json.dump(res, open(out, 'w'))
        return
    gc.disable()
    left = float(os.environ.get('VERIF_UNTIL', 'inf')) - time.time()
    eng = E.Engine(deadline=time.perf_counter() + min(task.limit, left))
    samples = []
    state = dict(n=0, next=1)
    harness = make_harness(task, rt, (shard, nshards) if nshards > 1 else None)

    def on_path(e):
        state['n'] += 1
        n = state['n']
        if n % 256 == 0:
            gc.collect()
        if n >= state['next'] and eng.stats.validated < VALIDATE:
            state['next'] = max(n + 1, n * 3)
            inputs = e.assignment(e._model())
            ce = E.ConcreteEngine(inputs)
            failed = ce.run(harness)
            E.CUR = e
            bad = failed or [x for x in ce.log if str(x).startswith('abort')]
            if failed:
                e.violation = dict(label=failed['label'],
                                   detail=failed['detail'], inputs=inputs)
            elif bad or set(ce.covers) != set(e.covers):
                e.stats.incomplete.append(
                    f'concrete re-execution differs: {bad} {ce.covers} vs {e.covers}')
            else:
                e.stats.validated += 1
                if len(samples) < 2:
                    samples.append(dict(task=name, inputs=trim(inputs),
                                        reached=sorted(ce.covers)))

    err = None
    try:
        viol = eng.explore(harness, on_path=on_path)
        viol = viol or eng.violation
    except E.Unsupported as u:
        viol, err = None, 'unsupported: ' + str(u)
    except Exception:
        viol, err = None, traceback.format_exc()[-3000:]
    st = eng.stats
    res.update(paths=st.paths, aborted=st.aborted, decisions=st.decisions,
               choices=st.choices, queries=st.queries, asserts=st.asserts,
               solver_asserts=st.solver_asserts, solver_s=round(st.solver_s, 3),
               validated=st.validated, covers=st.covers, samples=samples,
               incomplete=st.incomplete, functions=sorted(S.FUNCS), violation=viol,
               error=err, bound_hits=st.bound_hits,
               wall_s=round(time.perf_counter() - t0, 3))
    json.dump(res, open(out, 'w'))


def trim(inputs):
    c = inputs['choices']
    return dict(values=dict(list(inputs['values'].items())[:24]),
                choices=[x for x in c if x[1]][:24])


def replay(path):
    """Exit 1 if the recorded counterexample fails on the current tree."""
    from symx import engine as E
    from symx.runtime import Runtime
    import gc
    r = json.load(open(path))
    mod, tasks = load_tasks(r['property'], 'thorough')
    task = [t for t in tasks if t.name == r['task']][0]
    rt = Runtime(task.gran)
    if task.kind == 'smt':
        ok, detail = r_smt(mod, task, rt, r)
        print(detail)
        return 1 if ok else 0
    gc.disable()
    sh = tuple(r['shard']) if r.get('shard') else None
    ce = E.ConcreteEngine(r['violation']['inputs'])
    try:
        failed = ce.run(make_harness(task, rt, sh))
    except E.Unsupported as u:
        print('not reproduced:', u)
        return 0
    if failed:
        print(f"property {r['property']}: {failed['label']}")
        print(f"  {failed['detail']}")
        print('  inputs:', json.dumps(trim(r['violation']['inputs'])))
        print('  schedule:', ' '.join(getattr(ce, 'log_sched', [])))
        return 1
    print('not reproduced', ce.log)
    return 0


def r_smt(mod, task, rt, r):
    return mod.replay(rt, task, r['violation'])


# ------------------------------------------------------------------ parent side
def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                if d['property'] == pid:
                    out.append(d)
    return out


def main(argv):
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    if argv and argv[0] == '--worker':
        pid, tier, name, sh, ns, out = argv[1:]
        worker(pid, tier, name, int(sh), int(ns), out)
        return 0
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    jobs = int(argv[argv.index('--jobs') + 1]) if '--jobs' in argv else os.cpu_count()
    only = argv[argv.index('--task') + 1] if '--task' in argv else None
    t0 = time.time()
    mod, tasks = load_tasks(pid, tier)
    if only:
        tasks = [t for t in tasks if only in t.name]
    units = [(t, i) for t in tasks for i in range(t.shards)]
    units.sort(key=lambda u: -getattr(u[0], 'weight', 1))
    tmp = tempfile.mkdtemp(prefix='symx-')
    running, results, errors = {}, [], []
    found = None
    # Tasks end by themselves at `total_limit`: what they did not get to is reported
    # ("truncated"), not guessed.  The unchanged tree needs a fraction of it.
    total_limit = 700 if tier == 'quick' else 5400
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               VERIF_UNTIL=str(t0 + total_limit))
    truncated = []
    again = []
    queue = list(units)
    n = 0
    unreproduced = []
    try:
        while queue or running:
            while queue and len(running) < jobs:
                t, i = queue.pop(0)
                out = os.path.join(tmp, f'{n}.json')
                n += 1
                p = subprocess.Popen(
                    [sys.executable, os.path.join(HERE, 'check.py'), '--worker', pid,
                     tier, t.name, str(i), str(t.shards), out], env=env, cwd=HERE,
                    stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'),
                    start_new_session=True)
                running[p] = (t, i, out, time.time())
            time.sleep(0.01)
            for p in list(running):
                t, i, out, started = running[p]
                rc = p.poll()
                if rc is None:
                    if time.time() - started > t.limit + 60 or \
                            time.time() - t0 > total_limit + 60:
                        kill(p)
                        truncated.append(t.name)
                        del running[p]
                    continue
                del running[p]
                crashed = rc != 0 or not os.path.exists(out)
                if not crashed:
                    r = json.load(open(out))
                if (crashed or 'nondeterministic' in (r.get('error') or '')) and \
                        (t, i) not in again:
                    # the machine, not the code, may be to blame: explore it anew, once
                    again.append((t, i))
                    queue.append((t, i))
                    continue
                if crashed:
                    errors.append(f'{t.name}[{i}]: worker exit {rc}: '
                                  + open(out + '.err').read()[-1500:])
                    continue
                results.append((t, i, r))
                if r.get('error'):
                    errors.append(f"{t.name}[{i}]: {r['error']}")
                if r.get('violation') and found is None:
                    ok, path, text = confirm(pid, t, i, r, env)
                    if ok:
                        found = (path, text)
                    else:
                        unreproduced.append((t, i, r, path))
                        errors.append(f"{t.name}[{i}]: counterexample not reproduced: "
                                      f"{r['violation']['label']} ({path}) {text[-500:]}")
            if found:
                break
            if time.time() - t0 > total_limit and queue:
                truncated += [t.name for t, _ in queue]
                queue = []
    finally:
        for p in running:
            kill(p)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    # vacuity: every required label was reached
    if not found:
        reached = {}
        for t, i, r in results:
            if r.get('skipped'):
                continue
            reached.setdefault(t.name, {})
            for k, v in (r.get('covers') or {}).items():
                reached[t.name][k] = reached[t.name].get(k, 0) + v
            for inc in r.get('incomplete') or []:
                if inc == 'time limit reached':
                    truncated.append(t.name)
                    continue
                errors.append(f'{t.name}[{i}]: incomplete: {inc}')
        for t in tasks:
            missing = t.covers - set(reached.get(t.name, {}))
            if missing and t.name in reached and t.name not in truncated:
                errors.append(f'{t.name}: never reached: {sorted(missing)}')
    truncated = sorted(set(truncated))
    if truncated and not found and not any((r.get('paths') or r.get('queries'))
                                           for _, _, r in results):
        errors.append('nothing was explored in time')
    evidence(pid, tier, mod, tasks, results, errors, found, time.time() - t0, truncated)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if found:
        print(found[1])
        print(f'VIOLATION property={pid} replay={found[0]}')
        return 1
    for x in errors:
        print('ERROR', x)
    if errors:
        return 2
    tot = sum((r.get('paths') or 0) for _, _, r in results)
    print(f'OK property={pid} tier={tier} tasks={len(tasks)} paths={tot} '
          f'wall={time.time() - t0:.1f}s'
          + (f' truncated={truncated}' if truncated else ''))
    return 0


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def confirm(pid, t, i, r, env):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{t.name}-{i}.json'.replace('/', '_').replace(' ', '_'))
    json.dump(dict(property=pid, task=t.name, shard=[i, t.shards] if t.shards > 1 else None,
                   violation=r['violation']), open(path, 'w'), indent=1)
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), 'replay', path],
                           env=env, cwd=HERE, capture_output=True, text=True, timeout=180)
    except subprocess.TimeoutExpired:
        return False, path, 'replay timed out'
    return p.returncode == 1 and p.stdout.startswith('property '), path, \
        p.stdout + p.stderr[-1500:]


def evidence(pid, tier, mod, tasks, results, errors, found, wall, truncated):
    funcs, samples, per = set(), [], {}
    S = lambda k: sum((r.get(k) or 0) for _, _, r in results)
    for t, i, r in results:
        funcs.update(r.get('functions') or [])
        samples += r.get('samples') or []
        d = per.setdefault(t.name, dict(bounds=str(t.params)[:400], paths=0, queries=0,
                                        solver_s=0.0, asserts=0, wall_s=0.0))
        if t.preempt:
            d['preemptions'] = t.preempt
            d['granularity'] = t.gran
        for k in ('paths', 'queries', 'solver_s', 'asserts', 'wall_s'):
            d[k] = round(d[k] + (r.get(k) or 0), 3)
        if r.get('notes'):
            d['notes'] = r['notes']
    cov = dict(
        states=S('paths'), transitions=S('decisions') + S('choices'),
        traces_validated_against_impl=S('validated'),
        samples=samples[:10] or [dict(note='no passing path in this run')],
        meaning='states = feasible symbolic paths completed (each with its own path '
                'condition over all input values); transitions = solver-decided '
                'branches plus finite-domain (schedule, fault, size) forks; '
                'traces_validated = passing paths re-executed on plain values',
        aborted_paths=S('aborted'),
        functions_encoded=sorted(funcs), queries=S('queries'),
        solver_s=round(S('solver_s'), 3), asserts=S('asserts'),
        asserts_decided_by_solver=S('solver_asserts'),
        bounds=getattr(mod, 'BOUNDS', ''), tasks=per, errors=errors[:20],
        truncated=truncated or 'none: every task covered its bounds completely')
    while len(json.dumps(cov)) > 60000:
        if len(cov['samples']) > 1:
            cov['samples'].pop()
        else:
            cov['tasks'] = {k: v['paths'] for k, v in per.items()}
            break
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')),
              level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=1 if found else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
