"""C11: a training run is determined by its seed; time only decides how long it is."""
import base64
import json
import subprocess

import numpy as np

from ..core import digest, worker_env, PYTHON, VERIF
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C11'
LEVEL = 'exploration'
RULE = ('A case runs the training script two or three times with one seed and configuration but different clocks, step '
        'durations, budgets, file latencies and (in some) another process and hash seed; recorded values and checkpoints must '
        'agree up to the shorter run. Distinct and non-trivial: distinct (configuration, time lines) whose runs differ in length '
        'or time line and share at least one step.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'cyjax.ml', 'cyjax sampling and metric (in some cases)', 'files'],
              'simulated': ['clocks', 'durations of steps, set-up and file operations', 'hash seed',
                            'points on the variety and accuracy measure (in most cases)']}
ASSUMPTIONS = ['all runs on one machine; values are compared to a relative accuracy of 1e-4']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 250


def timeline(rng):
    d, budget = trainlib.gen_time(rng, 10)
    jumps = [[rng.randrange(6), rng.choice([3600.0, -3600.0, 5.0, -5.0])] for _ in range(rng.choice([0, 0, 1, 2]))]
    return {'durations': d, 'budget': budget, 'jumps': jumps, 'setup_s': rng.choice([0, 0, 40.0]),
            'latency': rng.choice([None, None, [0.25], [0, 0, 1.5]]), 'wall0': round(rng.uniform(1e9, 2e9), 1),
            'folder': 'x' * rng.randrange(12)}


def gen(rng, i):
    real = i % 16 == 5
    cfg = trainlib.gen_cfg(rng, evaluate=False, real=real)
    runs = [timeline(rng) for _ in range(2 if real else rng.choice([2, 3]))]
    if i % 4 == 1:
        runs[-1]['hash_seed'] = rng.randrange(1, 2 ** 32)
    return {'cfg': cfg, 'runs': runs}


def plan(rng, tier):
    return [gen(rng, i) for i in range(72 if tier == 'quick' else 900)]


def setup(case):
    trainlib.setup()


def execute(cfg, t):
    r = trainlib.Run(cfg, t['durations'], t['budget'], t['jumps'], t['latency'], wall0=t['wall0'], setup_s=t['setup_s'],
                     name=t['folder']).run()
    points = {}
    for step, name, data, _ in r.states:
        if name == 'final.params' and data is not None:
            points[step] = base64.b64encode(data).decode()
    return {'steps': r.steps, 'error': r.error, 'files': {k: base64.b64encode(v).decode() for k, v in r.files.items()},
            'points': points, 'jumped': r.jumped, 'slow': r.slow, 't': min(r.clock.t, 1e8)}


def elsewhere(cfg, t):
    p = subprocess.run([PYTHON, '-m', 'sim.checks.c11'], input=json.dumps([cfg, t]).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=VERIF, env=worker_env(t['hash_seed']), timeout=200)
    if p.returncode:
        raise RuntimeError('process start failed: ' + p.stderr.decode(errors='replace')[-1500:])
    out = json.loads(p.stdout.splitlines()[-1])
    out['points'] = {int(k): v for k, v in out['points'].items()}
    return out


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True))


def load(out, name):
    if name not in out['files']:
        return None
    try:
        return trainlib.load(name, base64.b64decode(out['files'][name]))
    except Exception:
        return None


def run(case):
    ev, viol, sigs = Events(), None, []
    faults = {'clock_jump': 0, 'slow_file_operation': 0, 'slow_setup': 0, 'other_process': 0}
    stats = {'runs': 0, 'steps': 0, 'simulated_s': 0, 'compared_losses': 0, 'compared_checkpoints': 0}
    try:
        outs = []
        for t in case['runs']:
            o = elsewhere(case['cfg'], t) if t.get('hash_seed') else execute(case['cfg'], t)
            faults['other_process'] += bool(t.get('hash_seed'))
            faults['clock_jump'] += o['jumped']
            faults['slow_file_operation'] += o['slow']
            faults['slow_setup'] += t['setup_s'] > 0
            stats['runs'] += 1
            stats['steps'] += o['steps']
            stats['simulated_s'] = round(stats['simulated_s'] + o['t'], 2)
            ev.add('run', o['steps'], sorted(o['points']))
            if o['error']:
                raise Violation('did-not-finish', f'the script failed: {o["error"][-600:]}')
            outs.append(o)
        a = outs[0]
        for k, b in enumerate(outs[1:], 1):
            for name in ('losses.npy', 'validation.npy'):
                x, y = load(a, name), load(b, name)
                if x is None or y is None or x.ndim == 0 or y.ndim == 0:
                    continue
                n = min(len(x), len(y))
                stats['compared_losses'] += n
                if not near(x[:n], y[:n]):
                    i = next(i for i in range(n) if not near(x[i], y[i]))
                    raise Violation('differs', f'{name}: entry {i} is {x[i]} in run 0 ({a["steps"]} steps) and {y[i]} in run {k} '
                                    f'({b["steps"]} steps) of the same seed')
            x, y = load(a, 'validation_params.npy'), load(b, 'validation_params.npy')
            if x is not None and y is not None and not near(x, y):
                raise Violation('differs', f'validation_params.npy differs between runs of the same seed: {x.tolist()} {y.tolist()}')
            for s in sorted(set(a['points']) & set(b['points'])):
                try:
                    p, q = (trainlib.load('final.params', base64.b64decode(o['points'][s])) for o in (a, b))
                except Exception:
                    continue
                stats['compared_checkpoints'] += 1
                if len(p) != len(q) or not all(near(u, v) for u, v in zip(p, q)):
                    raise Violation('differs', f'the parameters saved after step {s} differ between runs of the same seed')
        if min(o['steps'] for o in outs) > 0:
            sigs = [digest([{k: v for k, v in case['cfg'].items() if k != 'seed'}, case['runs']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=stats.pop('simulated_s'), stats=stats, faults=faults, sigs=sigs, summary=f'{stats["runs"]} runs, {stats["steps"]} steps')


def main():
    import os
    import sys
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    cfg, t = json.load(sys.stdin)
    trainlib.setup()
    out.write(json.dumps(execute(cfg, t)) + '\n')
    out.flush()


if __name__ == '__main__':
    main()
