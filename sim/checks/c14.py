"""C14: the files of a finished training run describe the network after its last step."""
import math

import numpy as np

from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C14'
LEVEL = 'exploration'
RULE = ('A case is one complete run of the training script under a virtual clock; its files are compared with the losses and '
        'updates recorded by the simulator at every step. Distinct and non-trivial: distinct (configuration, number of '
        'steps relative to the logging interval) with at least one step.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'cyjax.ml.BatchSampler, network and loss', 'files'],
              'simulated': ['clocks', 'durations of steps and file operations',
                            'points on the variety and accuracy measure (in most cases)', 'plots (in most cases)']}
ASSUMPTIONS = ['float32 training; values are compared to a relative accuracy of 1e-4']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200


def gen(rng, i):
    real = i % 20 == 7
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.75, real=real)
    d, budget = trainlib.gen_time(rng)
    return {'cfg': cfg, 'durations': d, 'budget': budget, 'jumps': [], 'latency': rng.choice([None, None, [0, 0, 0.5]]),
            'plots': i % 30 == 3}


def plan(rng, tier):
    n = 150 if tier == 'quick' else 1600
    return [trainlib.lengthen(rng, gen(rng, 0)) for _ in range(4 if tier == 'quick' else 60)] + [gen(rng, i) for i in range(n)]


def setup(case):
    trainlib.setup()


def network(cfg, r, moduli):
    """Matrices of the network with the given parameters at the given moduli."""
    import cyjax
    import jax
    n = 3 if cfg.get('degree', 1) == 1 else 6
    model = cyjax.ml.HNetMLP(basis_size=n, layer_sizes=cfg['layers'], dropout_rates=cfg.get('dropout'), powers=cfg['powers'],
                             activation=jax.nn.sigmoid)

    def h(leaves):
        par = jax.tree_util.tree_unflatten(r.tree, [np.asarray(x) for x in leaves])
        out = model.apply(par, np.asarray(moduli), deterministic=True)
        return np.asarray(jax.vmap(cyjax.ml.cholesky_from_param)(out))
    return h


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4, atol=1e-5))


def judge(case, r):
    cfg, n = case['cfg'], r.steps
    if r.error:
        raise Violation('did-not-finish', f'the script failed: {r.error[-600:]}')
    if n == 0:
        return
    files = {}
    need = ['losses.npy', 'validation.npy', 'validation_params.npy', 'final.params'] + (['sigma_final.npz'] if cfg['eval'] else [])
    for f in need:
        if f not in r.files:
            raise Violation('file-missing', f'{f} is missing after a finished run of {n} steps')
        try:
            files[f] = trainlib.load(f, r.files[f])
        except Exception as e:
            raise Violation('file-damaged', f'{f} cannot be loaded after a finished run: {e}')
    losses = files['losses.npy']
    if losses.shape != (n,):
        raise Violation('losses', f'losses.npy has shape {losses.shape} after {n} steps (logged every {cfg["log_every"]})')
    if len(r.true_losses) == n and not near(losses, r.true_losses):
        raise Violation('losses', f'losses.npy holds {losses.tolist()}, the steps had {r.true_losses}')
    val, moduli = files['validation.npy'], files['validation_params.npy']
    logged = math.ceil(n / cfg['log_every'])
    if val.shape != (logged, cfg['val_count']) or moduli.shape[0] != cfg['val_count']:
        raise Violation('validation', f'validation.npy has shape {val.shape}, {logged} logged steps of {cfg["val_count"]} moduli expected')
    if not r.params:
        return
    saved = files['final.params']
    if len(saved) != len(r.params[-1]) or not all(near(a, b) for a, b in zip(saved, r.params[-1])):
        which = [i for i, p in enumerate([r.init_params] + r.params) if all(near(a, b) for a, b in zip(saved, p))]
        raise Violation('parameters', f'final.params holds the parameters after step {which or "none"}, training made {n} steps')
    if cfg['real']:
        return
    h = network(cfg, r, moduli)
    for k in range(logged):
        want = trainlib.sigma(h(r.params[k * cfg['log_every']]), moduli, np)
        if not near(val[k], want):
            raise Violation('validation', f'validation entry {k} is {val[k].tolist()}, the network after step '
                            f'{k * cfg["log_every"] + 1} has {want.tolist()}')
    if cfg['eval']:
        grid, sig = files['sigma_final.npz']['moduli_grid'], files['sigma_final.npz']['sigmas']
        k = len(cfg['bounds'])
        if grid.shape != (2 * k,) + (cfg['grid'],) * (2 * k) or sig.shape != grid.shape[1:]:
            raise Violation('grid', f'moduli grid has shape {grid.shape}, accuracies {sig.shape}')
        pts = np.stack([grid[2 * i] + 1j * grid[2 * i + 1] for i in range(k)], -1).reshape(-1, k)
        want = trainlib.sigma(network(cfg, r, pts)(saved), pts, np).reshape(sig.shape)
        if not near(sig, want):
            raise Violation('grid', f'final accuracies {sig.ravel()[:4].tolist()}, the saved network has {want.ravel()[:4].tolist()}')


def run(case):
    ev, viol, sigs = Events(), None, []
    r = trainlib.Run(case['cfg'], case['durations'], case['budget'], case['jumps'], case['latency'], plots=case.get('plots')).run()
    if r.error and not case['cfg']['real']:
        # with stand-ins only what also fails without them counts
        case = dict(case, cfg=dict(case['cfg'], real=True, bounds=case['cfg']['bounds'][:1]), plots=True)
        r = trainlib.Run(case['cfg'], case['durations'], case['budget'], case['jumps'], case['latency'], plots=True).run()
    ev.add('steps', r.steps, bool(r.error), sorted(r.files))
    try:
        judge(case, r)
        if r.steps:
            sigs = [digest([{k: v for k, v in case['cfg'].items() if k != 'seed'}, r.steps])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=round(min(r.clock.t, 1e8), 3), stats={'steps': r.steps},
                  faults={'unlogged_last_step': int(r.steps > 0 and (r.steps - 1) % case['cfg']['log_every'] != 0),
                          'slow_file_operation': r.slow},
                  sigs=sigs, summary=f'{r.steps} steps')
