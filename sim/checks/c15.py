"""C15: every random draw of a training run has its own key, every step its own batch."""
import numpy as np

from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result
from .c05 import find, flatten

ID = 'C15'
LEVEL = 'exploration'
RULE = ('A case is one complete run of the training script under a virtual clock; every random key with which moduli, points, '
        'initial weights, dropout masks and accuracies are drawn and every batch a step is computed from enter a ledger. '
        'Distinct and non-trivial: distinct (configuration, number of steps) with at least two steps.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'cyjax.ml.BatchSampler, network and loss'],
              'simulated': ['clocks', 'durations of steps and file operations', 'points on the variety and accuracy measure, which '
                            'report their keys', 'plots']}
ASSUMPTIONS = ['a key counts as derived from another if it is among its children for a split into up to 12 parts or into as many '
               'parts as a configured size, or a child of one of two or three children',
               'without dropout the key passed to the network is not used']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200


def gen(rng, i):
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.6)
    if i % 2:
        cfg['dropout'] = [0.3] * len(cfg['layers'])
    cfg['average'] = rng.random() < 0.4
    d, budget = trainlib.gen_time(rng)
    return {'cfg': cfg, 'durations': d, 'budget': budget, 'latency': rng.choice([None, None, [0, 0, 0.5]]),
            'jumps': [[rng.randrange(6), rng.choice([-3600, 3600])]] if rng.random() < 0.3 else []}


def plan(rng, tier):
    n = 110 if tier == 'quick' else 1600
    return [trainlib.lengthen(rng, gen(rng, 0)) for _ in range(3 if tier == 'quick' else 60)] + [gen(rng, i) for i in range(n)]


def setup(case):
    trainlib.setup()


def group(events, steps):
    """Split the events of one kind by training step; None if they do not come in equal numbers."""
    if not steps or not events or len(events) % steps:
        return None
    n = len(events) // steps
    return [events[k * n:(k + 1) * n] for k in range(steps)]


def batches(r):
    """For every step the (moduli, points) pairs its loss was computed from, or None."""
    etas = []
    for kind, v in r.events:
        if kind == 'eta':
            par, zs = v
            if zs.ndim == 2:
                etas.append((par, zs))
            elif zs.ndim == 3:
                etas.extend(zip(np.broadcast_to(par, zs.shape[:1] + par.shape[-1:]), zs))
    return group(etas, r.steps)


def delivered(r):
    """Points handed out by the variety: {digest of the points: (number of the draw, key, moduli, points, weights)}."""
    out = {}
    for kind, v in r.events:
        if kind == 'points':
            out[v[2].tobytes()] = (len(out), *v)
    return out


def judge_keys(cfg, r):
    seen, sizes = {}, {cfg['n_par'], cfg['n_pts'], cfg['val_count'], cfg['buffer'], cfg['eval_batch']}
    net = {}
    count = {}
    last = None
    for kind, v in r.events:
        before, last = last, (kind, v[0].tobytes())
        if kind == 'accuracy' and len(v) > 1 and before == last:
            continue                         # one estimate for several moduli
        if kind not in ('moduli', 'points', 'init', 'net', 'accuracy'):
            continue
        if kind == 'net':
            if not cfg.get('dropout'):
                continue
            # the same masks may be computed again within one step
            par = b''.join(x.tobytes() for x in v[1:])
            if net.get(v[0].tobytes()) == par:
                continue
            net[v[0].tobytes()] = par
        for row in v[0].reshape(-1, v[0].shape[-1]):
            k = tuple(int(x) for x in row)
            count[kind] = count.get(kind, 0) + 1
            what = f'{ {"net": "dropout", "init": "initial weights"}.get(kind, kind)} draw {count[kind]}'
            if k in seen:
                raise Violation('reused', f'{what} uses the key of {seen[k]}')
            seen[k] = what
    if not seen:
        return 0
    keys = np.array(list(seen), dtype=np.uint32)
    known = {k: i for i, k in enumerate(flatten(keys).tolist())}
    sizes = sorted(set(range(1, 13)) | {s for s in sizes if 1 <= s < 64})
    find(None, seen, keys, keys, known, sizes, '')
    from .c05 import split_all
    for n in (2, 3):
        kids = split_all(keys, n)
        for c in range(n):
            find(None, seen, keys, kids[:, c], known, sizes[:6], f'child {c} of {n} of ')
    return len(seen)


def judge_data(cfg, r):
    steps, got = batches(r), delivered(r)
    if steps is None or not got:
        return 0
    used = {}
    for k, etas in enumerate(steps):
        for par, zs in etas:
            d = got.get(zs.tobytes())
            if d is None:
                raise Violation('data', f'step {k} uses points that were not drawn')
            if not np.allclose(d[2], par, rtol=1e-6, atol=1e-7):
                raise Violation('data', f'step {k} uses points of modulus {d[2].tolist()} with modulus {par.tolist()}')
            if used.setdefault(d[0], k) != k:
                raise Violation('data', f'step {k} uses the points of draw {d[0]} which step {used[d[0]]} has used')
        n = len({zs.tobytes() for _, zs in etas})
        if n != cfg['n_par']:
            raise Violation('data', f'step {k} uses points of {n} moduli, a batch has {cfg["n_par"]}')
    return len(used)


def run(case):
    ev, viol, sigs = Events(), None, []
    stats = {'keys': 0, 'batches': 0, 'undecided': 0}
    r = trainlib.Run(case['cfg'], case['durations'], case['budget'], case['jumps'], case['latency'], record=True).run()
    ev.add('steps', r.steps, bool(r.error))
    try:
        if r.error:
            stats['undecided'] = 1          # C14 reports runs that fail
        else:
            stats['keys'] = judge_keys(case['cfg'], r)
            stats['batches'] = judge_data(case['cfg'], r)
            ev.add(stats['keys'], stats['batches'])
            if r.steps > 1:
                sigs = [digest([{k: v for k, v in case['cfg'].items() if k != 'seed'}, r.steps])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=round(min(r.clock.t, 1e8), 3), stats=dict(stats, steps=r.steps),
                  faults={'clock_jump': r.jumped, 'slow_file_operation': r.slow}, sigs=sigs, summary=f'{r.steps} steps')
