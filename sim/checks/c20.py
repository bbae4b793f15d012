"""C20: the jobs of one parameter sweep do not influence each other."""
import base64
import errno
import itertools
import json
import subprocess
import sys

import numpy as np

from ..core import digest, worker_env, PYTHON, VERIF
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C20'
LEVEL = 'exploration'
RULE = ('A case is one parameter sweep of two to six jobs of the training script in one process; in a part of the cases a file '
        'operation of one job fails. The files of the other jobs are compared with those of runs of single configurations in a '
        'process, or with a copy of the package, of their own. Distinct and non-trivial: distinct (swept values, jobs compared, '
        'place of the failure) with at least two jobs executed.')
COMPONENTS = {'real': ['scripts/train.py with hydra and its sweeper, flax, optax and jax', 'cyjax.ml', 'files',
                       'cyjax sampling and metric (in some cases)'],
              'simulated': ['clocks', 'durations of steps', 'errors of file operations',
                            'points on the variety and accuracy measure (in most cases)', 'plots']}
ASSUMPTIONS = ['the sweep executes its jobs one after another in one process, as it does by default',
               'values are compared to a relative accuracy of 1e-4']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 280

DIMS = {'seed': [0, 1, 7, 123, 99991], 'n_par': [1, 2, 3], 'n_pts': [2, 3, 5], 'buffer': [1, 2, 4], 'log_every': [1, 2, 3],
        'val_count': [1, 2, 3], 'lr': [0.01, 0.05, 0.2], 'degree': [1, 2], 'layers': [[3], [2], [3, 2]], 'powers': [[1], [1, 2]],
        'budget': [0.5, 1.5, 2.5, 3.5], 'grid': [2, 3], 'eval_batch': [1, 4], 'bounds': [[1], [2], [0.5]], 'transition': [5, 20000]}


def gen(rng, i):
    real = i % 12 == 7
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.4, real=real)
    cfg.pop('dropout', None)
    cfg['budget'] = rng.choice([0.5, 1.5, 2.5, 3.5])
    if rng.random() < 0.3:
        cfg['dropout'] = [0.3]
        cfg['layers'] = [3]
    names = [d for d in DIMS if not (d == 'layers' and cfg.get('dropout')) and not (d == 'bounds' and len(cfg['bounds']) > 1)
             and not (d in ('grid', 'eval_batch') and not cfg['eval'])]
    dims = rng.sample(names, 1 if real else rng.choice([1, 1, 2, 2, 3]))
    if 'seed' not in dims and rng.random() < 0.3:
        dims[0] = 'seed'
    lists = [rng.sample(DIMS[d], 2 if len(dims) > 1 else min(len(DIMS[d]), rng.choice([2, 3, 4]))) for d in dims]
    jobs = len(list(itertools.product(*lists)))
    while jobs > 6:
        dims.pop()
        jobs //= len(lists.pop())
    case = {'cfg': cfg, 'dims': dims, 'values': lists, 'wall0': round(rng.uniform(1e9, 2e9), 1), 'faults': [],
            'compare': sorted(rng.sample(range(jobs), min(jobs, rng.choice([2, 2, 3])))), 'elsewhere': rng.random() < 0.25}
    if rng.random() < 0.4:
        case['faults'] = [[rng.randrange(1, 18 * jobs), 'error', rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT])]]
    return case


def plan(rng, tier):
    return [gen(rng, i) for i in range(56 if tier == 'quick' else 900)]


def setup(case):
    trainlib.setup()


def configurations(case):
    """In the order in which the sweeper numbers them, which is that of the arguments."""
    full = [dict(case['cfg'], **dict(zip(case['dims'], v))) for v in itertools.product(*case['values'])]
    args = [trainlib.Run(c, [1.0], 0.5).overrides(c) for c in full]
    first = [list(dict.fromkeys(a)) for a in zip(*args)]
    return sorted(full, key=lambda c: [v.index(a) for v, a in zip(first, args[full.index(c)])])


def forget():
    """Start with a fresh copy of the package."""
    for m in [m for m in sys.modules if m == 'cyjax' or m.startswith('cyjax.')]:
        del sys.modules[m]
    trainlib._classes.clear()


def solo(cfg, wall0):
    r = trainlib.Run(cfg, [1.0], cfg['budget'], wall0=wall0, watch=False).run()
    return {'error': r.error, 'steps': r.steps, 'files': {k: base64.b64encode(v).decode() for k, v in r.files.items()}}


def elsewhere(cfg, wall0):
    p = subprocess.run([PYTHON, '-m', 'sim.checks.c20'], input=json.dumps([cfg, wall0]).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=VERIF, env=worker_env(0), timeout=200)
    if p.returncode:
        raise RuntimeError('process start failed: ' + p.stderr.decode(errors='replace')[-1500:])
    return json.loads(p.stdout.splitlines()[-1])


def contents(name, data):
    out = trainlib.load(name, data)
    return list(out.values()) if isinstance(out, dict) else out if isinstance(out, list) else [out]


def near(a, b):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True))


def run(case):
    ev, viol, sigs = Events(), None, []
    faults = {'file_error_in_a_job': 0, 'other_process': 0}
    stats = {'jobs': 0, 'steps': 0, 'jobs_compared': 0, 'files_compared': 0}
    sim_time = 0
    try:
        jobs = configurations(case)
        forget()
        r = trainlib.Run(case['cfg'], [1.0], 0.5, wall0=case['wall0'], faults=case['faults'], sweep=jobs, max_steps=5000).run()
        sim_time = r.clock.t
        fired = bool(r.disk.fired)
        faults['file_error_in_a_job'] += fired
        failed = r.job_dirs.index(r.fault_dir) if fired and r.fault_dir in r.job_dirs else None
        stats['jobs'] += len(jobs)
        stats['steps'] += r.steps
        ev.add('sweep', r.steps, failed, [sorted(j) for j in r.jobs])
        if r.error and not fired:
            raise Violation('did-not-finish', f'the sweep failed: {r.error[-600:]}')
        want_steps = 0
        for i, c in enumerate(jobs):
            want_steps += int(c['budget'] + 0.5)
        if not fired and r.steps != want_steps:
            raise Violation('steps', f'the {len(jobs)} jobs made {r.steps} steps together, their budgets allow {want_steps}')
        for i in case['compare']:
            if i == failed or i >= len(jobs):
                continue
            if case['elsewhere']:
                faults['other_process'] += 1
                s = elsewhere(jobs[i], case['wall0'])
            else:
                forget()
                s = solo(jobs[i], case['wall0'])
            if s['error']:
                raise Violation('did-not-finish', f'a single run failed: {s["error"][-600:]}')
            stats['jobs_compared'] += 1
            swept = {d: jobs[i][d] for d in case['dims']}
            other = f'; job {failed} failed' if failed is not None else ''
            for f in trainlib.RESULTS:
                a, b = r.jobs[i].get(f), s['files'].get(f)
                if a is None and b is None:
                    continue
                if a is None or b is None:
                    raise Violation('missing', f'{f} of job {i} {swept} is {"missing" if a is None else "written"} in the sweep of '
                                    f'{len(jobs)} jobs and {"written" if a is None else "missing"} by a single run{other}')
                stats['files_compared'] += 1
                try:
                    x, y = contents(f, a), contents(f, base64.b64decode(b))
                except Exception as e:
                    raise Violation('damaged', f'{f} of job {i} cannot be loaded: {e}')
                if len(x) != len(y) or not all(near(np.asarray(u), np.asarray(v)) for u, v in zip(x, y)):
                    raise Violation('differs', f'{f} of job {i} {swept} in a sweep of {len(jobs)} jobs differs from that of a single '
                                    f'run{other}: {[np.asarray(u).ravel()[:4].tolist() for u in x[:2]]} '
                                    f'{[np.asarray(v).ravel()[:4].tolist() for v in y[:2]]}')
        sigs = [digest([case['dims'], case['values'], case['compare'], case['faults'] if fired else None, case['cfg']['n_par']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=round(min(sim_time, 1e8), 3), stats=stats, faults=faults, sigs=sigs,
                  summary=f'{stats["jobs"]} jobs, {stats["jobs_compared"]} compared')


def main():
    import os
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    cfg, wall0 = json.load(sys.stdin)
    trainlib.setup()
    out.write(json.dumps(solo(cfg, wall0)) + '\n')
    out.flush()


if __name__ == '__main__':
    main()
