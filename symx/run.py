"""Check runner: explores every task of a property, replays counterexamples, writes evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
PY = '/opt/venv/bin/python'


class Task:
    """name: unique; harness(s); functions: what is encoded; bounds: text."""

    def __init__(self, name, harness, functions=(), bounds='', max_paths=4000, branch_timeout=1500,
                 prove_timeout=8000, budget=120, expect=(), witnesses=6, thorough_only=False, nice=True):
        self.name = name
        self.harness = harness
        self.functions = list(functions)
        self.bounds = bounds
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.prove_timeout = prove_timeout
        self.budget = budget
        self.expect = list(expect)       # labels that must be reached (vacuity guard)
        self.witnesses = witnesses
        self.nice = nice


def load_check(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module(f'checks.{pid.lower()}')


def replay_external(pid, tier, task, cases):
    """Run concrete cases through the harness on the real code, in a fresh process."""
    req = json.dumps({'property': pid, 'tier': tier, 'task': task, 'cases': cases})
    env = dict(os.environ)
    env['PYTHONPATH'] = os.environ.get('SYMX_REPO', '/repo')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'replay.py'), '-'], input=req, capture_output=True,
                       text=True, env=env, timeout=300, cwd='/tmp')
    for line in p.stdout.splitlines():
        if line.startswith('REPLAY '):
            return json.loads(line[7:])
    return [{'error': (p.stderr or p.stdout)[-2000:], 'failures': [], 'checks': 0} for _ in cases]


def run_task(args):
    pid, tier, idx, deadline = args
    t0 = time.time()
    try:
        from .harness import SymSession
        from . import explore, loader
        from .core import Ctx, z3
        mod = load_check(pid)
        task = mod.tasks(tier)[idx]
        seen = {}

        def replay(case, label):
            r = replay_external(pid, tier, task.name, [case])[0]
            if label == explore.UNREADABLE and r.get('unreadable'):
                return True, r['unreadable']
            if r.get('error'):
                return False, 'replay error: ' + r['error']
            for f in r['failures']:
                if f['label'] == label:
                    return True, f['detail']
            if r['failures']:
                return True, r['failures'][0]['label'] + ': ' + r['failures'][0]['detail']
            return False, 'not reproduced'
        dl = min(deadline, time.time() + task.budget)
        s = SymSession(task.name, replay=replay, branch_timeout=task.branch_timeout,
                       prove_timeout=task.prove_timeout, max_paths=task.max_paths, deadline=dl, nice=task.nice)
        wit = []
        fallback = []

        def harness(s_):
            try:
                task.harness(s_)
            finally:
                if len(wit) < task.witnesses * 4:
                    w = witness(s_)
                    if w is not None and w not in wit:
                        wit.append(w)
        # a path the executor cannot encode still yields solver-chosen concrete runs
        s.explore(harness)
        if s.unsupported and not s.violations:
            fallback = wit
        res = s.result()
        res['functions'] = task.functions
        res['bounds'] = task.bounds
        step = max(1, len(wit) // task.witnesses) if wit else 1
        sel = wit[::step][:task.witnesses]
        res['witness_runs'] = 0
        res['witness_checks'] = 0
        res['witness_diverged'] = 0
        res['replay_errors'] = []
        if sel and not res['violations']:
            rs = replay_external(pid, tier, task.name, sel)
            for c, r in zip(sel, rs):
                if r.get('unreadable'):
                    res['violations'].append({'label': explore.UNREADABLE, 'case': c, 'info': None,
                                              'detail': r['unreadable']})
                    break
                if r.get('error'):
                    res['replay_errors'].append(r['error'][-400:])
                    continue
                res['witness_runs'] += 1
                res['witness_checks'] += r['checks']
                if r['failures']:
                    res['witness_diverged'] += 1
                    if clear(r['failures']):
                        # the real code fails the obligation on this solver-chosen input
                        res['violations'].append({'label': r['failures'][0]['label'], 'case': c, 'info': None,
                                                  'detail': r['failures'][0]['detail']})
                        break
                    res.setdefault('diverged_samples', []).append({'case': c, 'failure': r['failures'][0]})
        missing = [e for e in task.expect if not s.reach.get(e)]
        res['unreached'] = missing
        res['wall_s'] = time.time() - t0
        res['encoded'] = dict(loader.ENCODED)
        res['sample_witness'] = wit[0] if wit else None
        return res
    except BaseException as e:     # noqa
        return {'name': f'{pid}[{idx}]', 'crash': traceback.format_exc()[-3000:], 'wall_s': time.time() - t0}


def clear(failures):
    """Not explainable by floating-point noise."""
    return any(not f.get('noise') for f in failures)


def witness(s):
    """A small-integer model of the current path, if there is one."""
    from .core import z3, _VARS
    from .explore import concretize
    c = s.ctx
    reals = [_VARS[d[1]] for d in c.inputs.values() if d[0] == 'real']
    if len(reals) > 40:
        return concretize(c, c.model) if c.model is not None else None
    sol = z3.Solver()
    sol.set('timeout', 400)
    sol.add(*c.pc)
    sol.add(*[z3.Or(*[v == k for k in (0, 1, 2, 3, 4, 5, 7, 9, -1, -2)]) for v in reals])
    t = time.time()
    r = sol.check()
    c.stats.queries += 1
    c.stats.solver_s += time.time() - t
    if r == z3.sat:
        c.stats.sat += 1
        return concretize(c, sol.model())
    if r == z3.unsat:
        c.stats.unsat += 1
    else:
        c.stats.unknown += 1
    return None


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def child(conn, job):
    try:
        conn.send(run_task(job))
    except BaseException:       # noqa
        conn.send({'name': f'{job[0]}[{job[2]}]', 'crash': traceback.format_exc()[-2000:], 'wall_s': 0})
    conn.close()


def empty_result(task, why):
    from .core import Stats
    return {'name': task.name, 'paths': 0, 'obligations': 0, 'proved': 0, 'complete': False, 'reach': {},
            'violations': [], 'spurious': [], 'n_spurious': 0, 'inconclusive': [{'label': '*', 'why': why}],
            'n_inconclusive': 1, 'unsupported': [], 'n_unsupported': 0, 'stats': Stats().as_dict(),
            'functions': task.functions, 'bounds': '', 'witness_runs': 0, 'witness_checks': 0,
            'witness_diverged': 0, 'replay_errors': [], 'unreached': [], 'wall_s': 0.0, 'encoded': {}}


def schedule(jobs, tasks, width):
    """Each task in its own process, ended when it overruns its budget."""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(jobs)[::-1]
    running = {}
    try:
        yield from _schedule(ctx, wait, todo, running, tasks, width)
    finally:
        for p, *_ in running.values():
            p.kill()
            p.join()


def _schedule(ctx, wait, todo, running, tasks, width):
    while todo or running:
        while todo and len(running) < width:
            job = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, job))
            p.start()
            b.close()
            t = tasks[job[2]]
            now = time.time()
            hard = max(now + 20, min(now + t.budget * 1.5 + 30, job[3] + 45))
            running[a] = (p, job, hard, now)
        for conn in wait(list(running), timeout=0.5):
            p, job, hard, t0 = running.pop(conn)
            try:
                r = conn.recv()
            except EOFError:
                r = empty_result(tasks[job[2]], 'worker ended (memory or crash)')
            p.join()
            yield r
        for conn in list(running):
            p, job, hard, t0 = running[conn]
            if time.time() > hard:
                p.kill()
                p.join()
                del running[conn]
                r = empty_result(tasks[job[2]], 'time budget exhausted inside one solver call')
                r['wall_s'] = time.time() - t0
                yield r


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task', default=None)
    ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--all', action='store_true', help='go on after violations')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.property
    t0 = time.time()
    mod = load_check(pid)
    tasks = mod.tasks(tier)
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), 'duplicate task names'
    total = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)
    deadline = t0 + total
    jobs = [(pid, tier, i, deadline) for i, t in enumerate(tasks) if not a.task or a.task in t.name]
    results = []
    sched = schedule(jobs, tasks, a.j)
    for r in sched:
        results.append(r)
        if a.v >= 2 or 'crash' in r or (a.v and odd(r)):
            show(r)
        if sum(bool(x.get('violations')) for x in results) >= 3 and not a.all:
            break           # replayed counterexamples in hand: the verdict cannot change
    sched.close()
    order = {t.name: i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order.get(r['name'], 10 ** 6))
    code = finish(pid, tier, mod, results, t0, partial=bool(a.task), planned=len(jobs))
    sys.exit(code)


def odd(r):
    return (not r['complete'] or r['n_spurious'] or r['n_inconclusive'] or r['n_unsupported'] or r['violations']
            or r['unreached'] or r['witness_diverged'] or r['replay_errors'] or r['wall_s'] > 15)


def show(r):
    if 'crash' in r:
        print('CRASH', r['name'], r['crash'], flush=True)
        return
    print(f"{r['name']:42s} paths={r['paths']} obl={r['obligations']} proved={r['proved']} spur={r['n_spurious']} "
          f"inc={r['n_inconclusive']} uns={r['n_unsupported']} wit={r['witness_runs']}/{r['witness_diverged']} "
          f"unreached={r['unreached']} {r['wall_s']:.1f}s", flush=True)
    for k in ('violations', 'spurious', 'inconclusive', 'unsupported', 'replay_errors', 'diverged_samples'):
        if r.get(k):
            print('   ', k, json.dumps(r[k][:2], default=str)[:900], flush=True)


def finish(pid, tier, mod, results, t0, partial=False, planned=0):
    from .core import Stats
    st = Stats()
    agg = {'paths': 0, 'obligations': 0, 'proved': 0, 'n_spurious': 0, 'n_inconclusive': 0, 'n_unsupported': 0,
           'witness_runs': 0, 'witness_checks': 0, 'witness_diverged': 0}
    encoded, functions, bounds, viol, crashed, unreached = {}, [], {}, [], [], []
    degraded = []
    for r in results:
        if 'crash' in r:
            crashed.append(r)
            continue
        st.merge({k: v for k, v in r['stats'].items()})
        for k in agg:
            agg[k] += r[k]
        encoded.update(r['encoded'])
        for f in r['functions']:
            if f not in functions:
                functions.append(f)
        if r['bounds']:
            bounds.setdefault(r['bounds'], []).append(r['name'])
        for v in r['violations']:
            viol.append((r['name'], v))
        if r['unreached'] and not r['violations']:
            unreached.append((r['name'], r['unreached']))
        if r['n_unsupported'] or r['n_inconclusive'] or r['n_spurious'] or not r['complete']:
            if not r['violations']:
                degraded.append({'task': r['name'], 'unsupported': r['unsupported'][:2],
                                 'inconclusive': r['inconclusive'][:2], 'spurious': r['spurious'][:1],
                                 'complete': r['complete']})
    samples = [{'task': r['name'], 'path_model': r['sample_witness']} for r in results
               if r.get('sample_witness')][:3]
    lines = []
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    vio_ev = []
    for n, (task, v) in enumerate(viol):
        path = os.path.join(EVID, 'replay', f'{pid}-{n}.json')
        json.dump({'property': pid, 'tier': tier, 'task': task, 'cases': [v['case']], 'label': v['label'],
                   'detail': v['detail'], 'rerun': f'/opt/venv/bin/python {VERIF}/replay.py {path}'},
                  open(path, 'w'), indent=1, default=str)
        lines.append(f'VIOLATION property={pid} replay={path}')
        lines.append(f'  task={task} obligation={v["label"]} inputs={json.dumps(v["case"], default=str)[:600]} '
                     f'-> {str(v["detail"])[:400]}')
        vio_ev.append({'task': task, 'label': v['label'], 'detail': str(v['detail'])[:500], 'replay': path})
    # known findings: still there?
    for k in known_findings(pid):
        if k.get('status') != 'open':
            continue
        rs = replay_external(pid, tier, k['task'], [k['case']])
        r = rs[0]
        if r.get('failures'):
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real source of /repo with SMT (z3): every feasible '
                           'path of each harness within the stated bounds was executed with symbolic inputs and '
                           'every obligation was decided by the solver over all values of those inputs. '
                           'Obligations that become constant once the solver has fixed the path (labels, row '
                           'counts, identities that normalise to true) are counted separately and need no query.',
            'files_encoded': sorted(encoded),
            'functions_encoded': functions,
            'bounds': [{'bounds': b, 'tasks': len(ts)} for b, ts in bounds.items()],
            'tasks': len(results), 'tasks_planned': planned,
            'paths': agg['paths'],
            'obligations': agg['obligations'],
            'obligations_proved': agg['proved'],
            'obligations_constant_on_their_path': st.folded,
            'queries': st.queries, 'queries_sat': st.sat, 'queries_unsat': st.unsat, 'queries_unknown': st.unknown,
            'solver_s': round(st.solver_s, 3),
            'spurious_counterexamples': agg['n_spurious'],
            'inconclusive': agg['n_inconclusive'],
            'unsupported_paths': agg['n_unsupported'],
            'degraded_tasks': degraded[:40],
            'unreached_labels': unreached,
            'crashed_tasks': [c['name'] for c in crashed],
            'path_witnesses_replayed_on_real_code': agg['witness_runs'],
            'witness_obligations_evaluated': agg['witness_checks'],
            'witness_float_divergences': agg['witness_diverged'],
            'samples': samples,
            'violation_details': vio_ev,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(vio_ev),
        'wall_s': round(time.time() - t0, 3),
    }
    if not partial:
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, f'{pid}.json'), 'w'), indent=1, default=str)
    for ln in lines:
        print(ln)
    print(f'{pid} [{tier}] tasks={len(results)} paths={agg["paths"]} obligations={agg["obligations"]} '
          f'proved={agg["proved"]} spurious={agg["n_spurious"]} inconclusive={agg["n_inconclusive"]} '
          f'unsupported={agg["n_unsupported"]} unreached={len(unreached)} crashed={len(crashed)} '
          f'queries={st.queries} solver={st.solver_s:.1f}s wall={time.time() - t0:.1f}s')
    if viol:
        return 1
    if crashed and len(crashed) == len(results):
        return 3
    return 0
