"""C13: the training loop ends when the configured time has elapsed, whatever the wall clock does."""
from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C13'
LEVEL = 'exploration'
RULE = ('A case is one run of the training script under a virtual clock: durations of steps, set-up and file operations, and '
        'jumps of the wall clock, are drawn from the seed. Distinct and non-trivial: distinct (durations, budget, jumps, '
        'latencies) in which at least one step was made and the wall clock or a latency was disturbed.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'cyjax.ml.BatchSampler and network', 'files'],
              'simulated': ['clocks', 'durations of steps and file operations', 'points on the variety and accuracy measure']}
ASSUMPTIONS = ['time passes only in optimiser steps, set-up and file operations',
               'the clock sources of the time module are covered']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200


def gen(rng):
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.1)
    d, budget = trainlib.gen_time(rng)
    if rng.random() < 0.05:
        budget = 0.0
    elif rng.random() < 0.3:
        # a step ends just before or just after the budget has elapsed
        k = rng.choice([1, 2, 3, 5])
        budget = max(0.02, sum(d[i % len(d)] for i in range(k)) + rng.choice([0.02, -0.02, 0.05, -0.05]))
    jumps = []
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2, 4])):
            size = rng.choice([3600.0, 86400.0, budget / 2, budget * 2, 1.0, 0.4, 7200.0])
            jumps.append([rng.randrange(8), size * rng.choice([1, -1])])
    return {'cfg': cfg, 'durations': d, 'budget': budget, 'jumps': jumps, 'setup_s': rng.choice([0, 0, 30.0, budget, 0.5]),
            'latency': rng.choice([None, None, [0.125], [0, 0, 0, 0.5], [0, 1.25, 0, 0, 0, 0, 3.0]]),
            'wall0': rng.choice([1.6e9, 0.0, 1.8e9, 4e9]), 'shrinkable': ['jumps']}


def plan(rng, tier):
    return [gen(rng) for _ in range(180 if tier == 'quick' else 2000)]


def setup(case):
    trainlib.setup()


def run(case):
    ev, viol, sigs = Events(), None, []
    r = trainlib.Run(case['cfg'], case['durations'], case['budget'], case['jumps'], case['latency'], wall0=case['wall0'],
                     setup_s=case['setup_s']).run()
    faults = {'clock_jump': r.jumped, 'slow_file_operation': r.slow, 'slow_setup': int(case['setup_s'] > 0)}
    stats = {'steps': r.steps, 'simulated_s': round(min(r.clock.t, 1e8), 3), 'clock_reads': r.clock.reads}
    ev.add('steps', r.steps, [round(t, 2) for t in r.starts], bool(r.error))
    try:
        if r.error and not r.limit_hit:
            raise Violation('did-not-finish', f'the script failed: {r.error[-600:]}')
        b = case['budget']
        for i, t in enumerate(r.starts):
            if i == 0 and b <= 0 or i and t - r.starts[0] >= b + 0.01:
                raise Violation('prolonged', f'step {i + 1} began {t - r.starts[0]:.3f} s after the start of training, the budget is {b:.3f} s '
                                f'(wall clock jumps: {case["jumps"]})')
        if r.starts and not r.limit_hit:
            # file operations after the last step may belong to the loop or follow it
            end = (r.clock.t if case['latency'] else r.ends[-1]) - r.starts[0]
            if end < b - 0.01:
                raise Violation('ended-early', f'training ended after {r.steps} steps and {end:.3f} s, the budget is {b:.3f} s '
                                f'(wall clock jumps: {case["jumps"]})')
        if not r.starts and b > 0:
            raise Violation('ended-early', f'no step was made although the budget is {b:.3f} s')
        if r.steps and (r.jumped or r.slow or case['setup_s']):
            sigs = [digest([case['durations'], b, case['jumps'], case['latency'], case['setup_s']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=stats.pop('simulated_s'), stats=stats, faults=faults, sigs=sigs, summary=f'{r.steps} steps')
