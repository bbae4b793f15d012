"""C17: training runs started at different instants do not touch each other's results or randomness."""
import os
import shutil
import tempfile

from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C17'
LEVEL = 'exploration'
RULE = ('A case starts the training script two to four times below one working directory, at instants of a virtual clock that lie '
        'between a millisecond and months apart, with or without a configured seed; after every run all results files of the '
        'earlier ones are compared with their contents before. Distinct and non-trivial: distinct (start instants, seeds given, '
        'configuration) in which at least two runs wrote results.')
COMPONENTS = {'real': ['scripts/train.py with hydra (including the choice of the results folder), flax, optax and jax',
                       'cyjax.ml.BatchSampler and network', 'files in a scratch directory'],
              'simulated': ['clocks and calendar', 'durations of steps', 'points on the variety and accuracy measure', 'plots']}
ASSUMPTIONS = ['the clock shows different times, at least a millisecond apart, at the starts of two runs',
               'runs are started from one working directory without naming a results folder']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200
GAPS = [0.001, 0.001, 0.003, 0.05, 0.2, 0.4, 0.999, 1.0, 3.5, 60.0, 3600.0, 43200.0, 86400.0, 7 * 86400.0, 61 * 86400.0,
        365 * 86400.0, 366 * 86400.0,
        67108.864, 2 * 67108.864]        # multiples of 2 ** 32 nanoseconds


def gen(rng, gap=None):
    """If a gap is given, the first two runs have no seed and start that far apart."""
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.2)
    seed = cfg['seed']
    t, runs = 0.0, []
    for i in range(2 if gap else rng.choice([2, 2, 3, 4])):
        runs.append({'at': t, 'seed': seed if not gap and rng.random() < 0.35 else None, 'steps': rng.choice([1, 2, 3])})
        t = round(t + (gap or rng.choice(GAPS)) * rng.choice([1, 1, -1]), 3)
        while any(abs(t - r['at']) < 0.0009 for r in runs):
            t = round(t + 0.001, 3)
    return {'cfg': dict(cfg, seed=None), 'runs': runs, 'wall0': round(rng.uniform(1e9, 2e9), rng.choice([0, 3])),
            'shrinkable': ['runs']}


def plan(rng, tier):
    return [gen(rng, g) for g in dict.fromkeys(GAPS)] + [gen(rng) for _ in range(70 if tier == 'quick' else 1400)]


def setup(case):
    trainlib.setup()


def results(base):
    out = {}
    for d, _, files in os.walk(base):
        for f in files:
            if f in trainlib.RESULTS:
                with open(os.path.join(d, f), 'rb') as fh:
                    out[os.path.relpath(os.path.join(d, f), base)] = fh.read()
    return out


def keys(r):
    """Keys with which the run drew something."""
    out = set()
    for kind, v in r.events:
        if kind in ('moduli', 'points', 'init'):
            for row in v[0].reshape(-1, v[0].shape[-1]):
                out.add(tuple(int(x) for x in row))
    return out


def run(case):
    ev, viol, sigs = Events(), None, []
    stats = {'runs': 0, 'files_compared': 0, 'keys': 0}
    faults = {'start_within_the_same_second': 0, 'clock_set_back': 0}
    base = tempfile.mkdtemp(prefix='verif-runs-')
    wrote = 0
    try:
        before, drawn = {}, []
        for i, t in enumerate(case['runs']):
            cfg = dict(case['cfg'], seed=t['seed'])
            wall = case['wall0'] + t['at']
            r = trainlib.Run(cfg, [1.0], t['steps'] - 0.5, wall0=int(round(wall * 1000)) * 10 ** 6, record=True, watch=False, base=base).run()
            stats['runs'] += 1
            ev.add('run', r.steps, bool(r.error))
            if r.error:
                raise Violation('did-not-finish', f'run {i} failed: {r.error[-600:]}')
            earlier = [case['wall0'] + u['at'] for u in case['runs'][:i]]
            faults['start_within_the_same_second'] += any(int(w) == int(wall) for w in earlier)
            faults['clock_set_back'] += any(w > wall for w in earlier)
            now = results(base)
            for f, data in before.items():
                stats['files_compared'] += 1
                if now.get(f) != data:
                    raise Violation('overwritten', f'run {i}, started at {wall:.3f}, has {"changed" if f in now else "removed"} '
                                    f'{os.path.basename(f)} of a run started at one of {[round(w, 3) for w in earlier]}')
            wrote += len(now) > len(before)
            before = now
            mine = keys(r)
            stats['keys'] += len(mine)
            for j, (seed, other) in enumerate(drawn):
                if (seed is None or t['seed'] is None) and mine & other:
                    raise Violation('same-randomness', f'run {i}, started at {wall:.3f} with seed {t["seed"]}, draws with keys of run {j}, '
                                    f'started at {earlier[j]:.3f} with seed {seed}')
            drawn.append((t['seed'], mine))
        if wrote > 1:
            sigs = [digest([case['runs'], case['wall0'], case['cfg']['n_par'], case['cfg']['buffer']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    span = max(t['at'] for t in case['runs']) - min(t['at'] for t in case['runs'])
    return result(ev, viol, sim_time=round(span, 3), stats=stats, faults=faults, sigs=sigs, summary=f'{stats["runs"]} runs')
