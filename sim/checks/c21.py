"""C21: drawing, training and computing for longer compiles nothing new and holds no more memory."""
import gc
import math

import numpy as np

from ..core import digest
from .. import engine, trainlib, world
from ..world import Events, Violation, result, guarded
from . import c19

ID = 'C21'
LEVEL = 'exploration'
RULE = ('A case is a long history of draws from one batch sampler with failing and interrupted refills, a training run of many '
        'steps, or repeated calls on one object, in a part interrupted. After every step the memory held in arrays and the '
        'programs compiled so far are counted. Distinct and non-trivial: distinct (kind, sizes, faults that fired) with at '
        'least two complete cycles after the first one.')
COMPONENTS = {'real': ['cyjax.ml.BatchSampler', 'cyjax varieties, metrics and polynomials', 'scripts/train.py with hydra, flax, optax',
                       'jax with compilation and its memory accounting'],
              'simulated': ['clocks and durations of steps', 'device transfer failures, interrupt delivery',
                            'points on the variety (in part of the cases)']}
ASSUMPTIONS = ['memory is judged between the steps, after unreachable objects are collected',
               'a part of what is recorded per step (up to 12 bytes and the accuracies) may be held as arrays']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 200


def gen_draws(rng):
    buffer = rng.choice([1, 2, 3, 5, 8])
    cycles = rng.choice([4, 6, 10]) if buffer > 2 else rng.choice([8, 15, 24])
    total = buffer * cycles
    faults = []
    if rng.random() < 0.6:
        for d in sorted(rng.sample(range(total), min(total, rng.choice([1, 3, 6, 10])))):
            faults.append([d, rng.choice(['transfer', 'line', 'line']), rng.randrange(1, 4 * buffer + 1), rng.random(), rng.random(),
                           rng.choice(['interrupt', 'memory', 'runtime'])])
    case = {'kind': 'draws', 'buffer': buffer, 'total': total, 'faults': faults, 'seed0': rng.randrange(2 ** 31),
            'n_par': rng.choice([1, 2, 3]), 'n_pts': rng.choice([40, 100]), 'variety': None, 'shrinkable': ['faults']}
    if rng.random() < 0.4:
        case['variety'] = world.gen_variety(rng, dims=(1,), kinds=('dwork', 'fermat', 'sympy'))
    return case


def gen_train(rng, i):
    cfg = trainlib.gen_cfg(rng, evaluate=False, real=i % 5 == 2)
    steps = rng.choice([40, 60, 90, 120])
    cfg.update(n_pts=rng.choice([32, 64, 100]), n_par=rng.choice([2, 4, 6]), log_every=rng.choice([3, 7, 15, 1000, 1000]))
    return {'kind': 'train', 'cfg': cfg, 'steps': steps, 'wall0': 1.6e9}


def gen_calls(rng):
    spec = world.gen_variety(rng, dims=(1, 1, 2), kinds=('dwork', 'sympy', 'fermat'))
    op = rng.choice(sorted(set(c19.POLY + c19.VAR + c19.MET) - {'batch'}))
    return {'kind': 'calls', 'variety': spec, 'params': world.gen_params(rng, spec, 0.7), 'degree': 1, 'seed': rng.randrange(2 ** 31),
            'op': op, 'calls': rng.choice([16, 24]), 'jit': rng.random() < 0.2 and op != 'solve', 'moduli': rng.random() < 0.5,
            'faults': [[rng.randrange(2, 16), rng.random(), rng.random(), rng.choice(['interrupt', 'memory', 'runtime'])]
                       for _ in range(rng.choice([0, 0, 2, 4]))], 'shrinkable': ['faults']}


def plan(rng, tier):
    n = 1 if tier == 'quick' else 14
    out = []
    for i in range(16 * n):
        out += [gen_draws(rng), gen_draws(rng), gen_train(rng, i), gen_calls(rng), gen_calls(rng)]
    return out


COMPILED = [0]


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = trainlib.setup()
    import jax.numpy as jnp_
    jnp = jnp_
    c19.jax, c19.jnp, c19.cyjax = jax, jnp, cyjax
    engine.install()
    import jax.monitoring

    def listen(event, duration, **kw):
        COMPILED[0] += 'backend_compile' in event
    jax.monitoring.register_event_duration_secs_listener(listen)


def held():
    gc.collect()
    live = jax.live_arrays()
    return sum(a.nbytes for a in live), len(live)


def stub():
    class StubVariety(cyjax.Dwork):
        def sample_intersect_weights(self, zs, params, patch, *_, **__):
            return zs[..., 0].real + 1

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            zs = jax.random.uniform(key, (count, 3)) + 1j * params[0]
            patch = jnp.arange(count)
            w = self.sample_intersect_weights(zs, params, patch)
            pts = (zs, patch) if affine else jax.vmap(lambda z, c: cyjax.affine_to_hom(z, c))(zs, patch)
            return (pts, w) if weights else pts
    return StubVariety(2)


def draws(case, ev, stats, faults):
    n_par = 1
    if case['variety']:
        variety = world.build_variety(case['variety'], cyjax)
        n_par = world.ref_poly(case['variety']).n_par
    else:
        variety = stub()

    def psampler(key, count):
        r = jax.random.uniform(key, (2, count, max(n_par, 1)), minval=-.5, maxval=.5)
        return (r[0] + 1j * r[1])[:, :n_par]
    real_put, arm = jax.device_put, [None, 0, None]

    def put(x, *a, **k):
        arm[1] += 1
        if arm[0] == arm[1]:
            arm[0] = None
            raise engine.EXC[arm[2]]('injected in transfer')
        return real_put(x, *a, **k)
    jax.device_put = put
    try:
        sampler = guarded(lambda: cyjax.ml.BatchSampler(case['seed0'], variety, psampler, case['n_par'], case['n_pts'], case['buffer']),
                          'creating a sampler')
        top, most, size, locs = 0, 0, 0, []
        for _ in range(2 * case['buffer'] + 1):
            with engine.Recorder() as rec:
                b = guarded(next, 'draw', sampler)
            locs.append(rec.locs)
            size = max(size, sum(np.asarray(x).nbytes for x in b))
            del b
            now = held()
            top, most = max(top, now[0]), max(most, now[1])
        compiled = COMPILED[0]
        planned, f = {f[0]: f for f in case['faults']}, None
        for d in range(case['total']):
            f = planned.get(d, f)                    # stays until there is a refill in which it can happen
            arm[:] = [None, 0, None]
            inj = engine.Recorder(keep=False)
            if f and f[1] == 'transfer':
                arm[:] = [f[2], 0, f[5]]
            elif f:
                inj = engine.Injector(engine.pick_event(max(locs, key=len) if f[3] < 0.7 else locs[d % len(locs)], f[3], f[4]), f[5])
            try:
                with inj:
                    next(sampler)
            except BaseException as e:
                if not isinstance(e, engine.Injected) and not getattr(inj, 'fired', None):
                    raise Violation('draw-failed', f'draw {d} failed: {type(e).__name__}: {str(e)[:200]}')
                faults[f[1]] = faults.get(f[1], 0) + 1
                f = None
            stats['draws'] += 1
            now, number = held()
            ev.add('draw', d, COMPILED[0] - compiled)
            if COMPILED[0] != compiled:
                raise Violation('compiled', f'draw {d} after the first two buffers of {case["buffer"]} compiled '
                                f'{COMPILED[0] - compiled} programs again')
            if now > top + 2 * size + 256:
                raise Violation('memory', f'after {d + 1} further draws {now} bytes are held in arrays; {top} were held during the '
                                f'first two buffers, a batch has {size}')
            if number > most + max(12, 0.5 * d):
                raise Violation('memory', f'after {d + 1} further draws {number} arrays are held; {most} were held during the first two buffers')
    finally:
        jax.device_put = real_put


class Watched(trainlib.Run):
    def on_step(self, updates):
        super().on_step(updates)
        self.params = self.params[-1:]
        self.held.append((COMPILED[0],) + held())


def train(case, ev, stats, faults):
    cfg, n = case['cfg'], case['steps']
    r = Watched(cfg, [1.0], n - 0.5, wall0=case['wall0'], watch=False)
    r.held = []
    r.run()
    if r.error:
        raise Violation('did-not-finish', f'the script failed: {r.error[-600:]}')
    stats['steps'] += r.steps
    rows = r.held
    start = min(len(rows) - 2, max(cfg['buffer'] * 2, 10))
    ev.add('run', r.steps)
    for i in range(start, len(rows)):
        # what happened between the updates of two steps in which nothing was logged
        if (i - 1) % cfg['log_every'] and rows[i][0] > rows[i - 1][0]:
            raise Violation('compiled', f'{rows[i][0] - rows[i - 1][0]} programs were compiled between steps {i - 1} and {i} '
                            f'(buffer of {cfg["buffer"]}, logged every {cfg["log_every"]})')
    # both ends at the same position of the buffer
    steps = (len(rows) - 1 - start) // cfg['buffer'] * cfg['buffer']
    end = start + steps
    logged = math.ceil(steps / cfg['log_every']) + 1
    grown, more = rows[end][1] - rows[start][1], rows[end][2] - rows[start][2]
    # a recorded number may be an array, of which jax holds a second one after it was read
    if grown > 12 * steps + logged * (16 + 16 * cfg['val_count']) + 128 or more > 2 * steps + logged * 2 * (cfg['val_count'] + 1) + 12:
        raise Violation('memory', f'what is held in arrays grew by {more} arrays and {grown} bytes from step {start} to {end}; '
                        f'{steps} losses and {logged} times {cfg["val_count"]} accuracies were recorded')


def calls(case, ev, stats, faults):
    w = c19.World(case)
    rng = np.random.default_rng(case['seed'])
    planned = {f[0]: f for f in case['faults']}
    counts, locs, fns = [], [], {}
    for i in range(case['calls']):
        op = [case['op'], 0, int(rng.integers(2 ** 31)), 'plain', bool(rng.integers(2))]
        if case['moduli'] and len(w.par):
            w.par = w.par * np.exp(1j * rng.random())
        fn, args = c19.make(w, op)
        if case['jit']:
            fn = jax.jit(fn)
        f = planned.get(i)
        inj = engine.Recorder()
        if f and locs:
            inj = engine.Injector(engine.pick_event(locs, f[1], f[2]), f[3])
        try:
            with inj:
                jax.block_until_ready(fn(*args))
        except BaseException as e:
            if not isinstance(e, engine.Injected) and not getattr(inj, 'fired', None):
                raise Violation('call-failed', f'call {i} of {case["op"]} failed: {type(e).__name__}: {str(e)[:200]}')
            faults['interrupted_call'] = faults.get('interrupted_call', 0) + 1
        locs = inj.locs or locs
        del fn, args, inj
        counts.append(held()[1])
        stats['calls'] += 1
    half = len(counts) // 2
    ev.add('calls', case['op'], len(counts))
    grown = counts[-1] - counts[half]
    if grown > 0.5 * (len(counts) - 1 - half):
        raise Violation('memory', f'the number of arrays held grew from {counts[half]} to {counts[-1]} during {len(counts) - 1 - half} '
                        f'calls of {case["op"]} whose results were dropped')


def run(case):
    ev, viol = Events(), None
    stats = {'draws': 0, 'steps': 0, 'calls': 0}
    faults = {}
    try:
        {'draws': draws, 'train': train, 'calls': calls}[case['kind']](case, ev, stats, faults)
        sigs = [digest([case['kind'], {k: v for k, v in case.items() if k not in ('seed', 'seed0', 'index')}])]
    except Violation as v:
        viol, sigs = v, []
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs, sim_time=float(stats['steps']),
                  summary=f'{stats["draws"]} draws, {stats["steps"]} steps, {stats["calls"]} calls')
