"""C16: training is gradient descent: one update per step, from the gradient of that step's batch."""
import numpy as np

from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result
from .c15 import batches, delivered, group

ID = 'C16'
LEVEL = 'exploration'
RULE = ('A case is one complete run of the training script under a virtual clock, replayed afterwards step by step by a reference '
        'loop fed with the same initial parameters, batches and dropout keys. Distinct and non-trivial: distinct (configuration, '
        'number of steps) with at least two steps.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'cyjax.ml.BatchSampler, network and loss', 'files'],
              'simulated': ['clocks', 'durations of steps and file operations', 'points on the variety and volume ratio (stand-ins)',
                            'plots'],
              'reference': ['loop over the steps using the network, loss and optimiser']}
ASSUMPTIONS = ['float32; gradients are compared to 2e-3 of their largest component, updates to 1e-3']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200


def gen(rng, i):
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.3)
    cfg['transition'] = rng.choice([1, 2, 3, 20000])
    cfg['average'] = rng.random() < 0.5
    d, budget = trainlib.gen_time(rng)
    return {'cfg': cfg, 'durations': d, 'budget': budget, 'latency': rng.choice([None, None, [0, 0, 0.5]]),
            'jumps': [[rng.randrange(6), rng.choice([-3600, 3600])]] if rng.random() < 0.3 else []}


def plan(rng, tier):
    n = 110 if tier == 'quick' else 1600
    return [trainlib.lengthen(rng, gen(rng, 0)) for _ in range(3 if tier == 'quick' else 60)] + [gen(rng, i) for i in range(n)]


def setup(case):
    trainlib.setup()


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def judge(case, r, stats):
    import cyjax
    import jax
    import jax.numpy as jnp
    cfg, n = case['cfg'], r.steps
    steps, got = batches(r), delivered(r)
    nets = group([v for k, v in r.events if k == 'net'], n)
    grads = [v for k, v in r.events if k == 'grads']
    if not n or r.init_params is None or steps is None or len(grads) != n or not (nets or cfg.get('dropout')):
        stats['undecided'] = int(n > 0)
        return
    no_key = not any(k == 'net' for k, v in r.events)
    if not nets and not no_key:
        stats['undecided'] = 1
        return
    model = cyjax.ml.HNetMLP(basis_size=3, layer_sizes=cfg['layers'], dropout_rates=cfg.get('dropout'), powers=cfg['powers'],
                             activation=jax.nn.sigmoid)
    variety = trainlib.stub_variety(len(cfg['bounds']))
    metric = trainlib.stub_metric(variety, cyjax.donaldson.MonomialBasisFull(2, 1))

    @jax.jit
    def value_grad(params, key, sample):
        def loss(params):
            out = model.apply(params, sample[0], rngs={'dropout': key}, deterministic=no_key)
            hs = jax.vmap(cyjax.ml.cholesky_from_param)(out)
            return jnp.mean(jnp.stack([cyjax.ml.variance_eta_loss(hs[i], tuple(a[i] for a in sample), metric)
                                       for i in range(len(hs))]))
        return jax.value_and_grad(loss)(params)

    losses = trainlib.load('losses.npy', r.files['losses.npy']) if 'losses.npy' in r.files else None
    params, state = r.init_params, None
    state = r.base_opt.init(jax.tree_util.tree_unflatten(r.tree, params))
    for k in range(n):
        seen, parts = set(), []
        for par, zs in steps[k]:
            d = got.get(zs.tobytes())
            if d is None:
                stats['undecided'] = 1       # C15
                return
            if d[0] not in seen:
                seen.add(d[0])
                parts.append((d[0], par, zs, np.zeros(len(zs), int), d[4]))
        parts.sort(key=lambda t: t[0])
        sample = tuple(np.stack(x) for x in list(zip(*parts))[1:])
        for key, *leaves in nets[k] if nets else ():
            if not all(near(a, b, 1e-5 * (1 + np.max(np.abs(b)))) for a, b in zip(leaves, params)):
                raise Violation('parameters', f'the network is evaluated in step {k} with parameters other than those left by step {k - 1}')
        tree = jax.tree_util.tree_unflatten(r.tree, params)
        val, g = value_grad(tree, nets[k][0][0] if nets else jax.random.PRNGKey(0), sample)
        g = [np.asarray(x) for x in jax.tree_util.tree_leaves(g)]
        scale = max(np.max(np.abs(x)) for x in g)
        if no_key:
            if all(near(a, b, 2e-3 * scale + 1e-6) for a, b in zip(grads[k], g)):
                raise Violation('dropout', f'step {k} uses the gradient without the configured dropout')
            stats['undecided'] = 1
            return
        if np.isfinite(scale):
            for a, b in zip(grads[k], g):
                if not near(a, b, 2e-3 * scale + 1e-6):
                    raise Violation('gradient', f'the gradient used in step {k} differs from that of the batch by '
                                    f'{np.max(np.abs(a - b)):.3g} of {scale:.3g}')
            if losses is not None and len(losses) > k and abs(losses[k] - val) > 1e-4 + 1e-3 * abs(val):
                raise Violation('loss', f'loss {k} is {losses[k]}, the batch has {val}')
        upd, state = r.base_opt.update(jax.tree_util.tree_unflatten(r.tree, grads[k]), state)
        upd = [np.asarray(x) for x in jax.tree_util.tree_leaves(upd)]
        for a, b in zip(r.updates[k], upd):
            if not near(a, b, 1e-3 * np.max(np.abs(b)) + 1e-7):
                raise Violation('update', f'the update of step {k} is not that of the optimiser after {k} steps')
        params = r.params[k]
        stats['steps_replayed'] += 1
    if 'final.params' in r.files:
        saved = trainlib.load('final.params', r.files['final.params'])
        if len(saved) != len(params) or not all(near(a, b, 1e-5 * (1 + np.max(np.abs(b)))) for a, b in zip(saved, params)):
            raise Violation('parameters', f'the saved parameters are not those after {n} updates')


def run(case):
    ev, viol, sigs = Events(), None, []
    stats = {'steps': 0, 'steps_replayed': 0, 'undecided': 0}
    r = trainlib.Run(case['cfg'], case['durations'], case['budget'], case['jumps'], case['latency'], record=True).run()
    stats['steps'] = r.steps
    ev.add('steps', r.steps, bool(r.error))
    try:
        if r.error:
            stats['undecided'] = 1          # C14 reports runs that fail
        else:
            judge(case, r, stats)
            ev.add(stats['steps_replayed'])
            if stats['steps_replayed'] > 1:
                sigs = [digest([{k: v for k, v in case['cfg'].items() if k != 'seed'}, r.steps])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, sim_time=round(min(r.clock.t, 1e8), 3), stats=stats,
                  faults={'clock_jump': r.jumped, 'slow_file_operation': r.slow}, sigs=sigs, summary=f'{r.steps} steps')
