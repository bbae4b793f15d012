"""C04: Monte Carlo integrals are the weighted mean of exactly the points drawn."""
import numpy as np

from ..core import digest, rng_for
from .. import ref, world
from ..world import Events, Violation, result, guarded

ID = 'C04'
LEVEL = 'exploration'
RULE = ('A case fixes an integration routine, batch count and size, an integrand, the form of the points and what the simulator-owned sampler '
        'delivers for each key (ordinary, constant, one dominating, widely spread, partly zero or negative weights). '
        'Distinct and non-trivial: distinct (routine, batches, size, integrand, weight behaviour, variance, compiled) '
        'with at least two points drawn.')
COMPONENTS = {'real': ['cyjax.util.mc_integrate', 'cyjax.util.mc_integrate_batched',
                       'cyjax.variety.VarietySingle.compute_vol', 'jax loops and compilation'],
              'simulated': ['the sampler: points and weights come from the simulator through host callbacks']}
ASSUMPTIONS = ['points and weights are finite', 'variance is judged for real integrands only; dividing by N or N-1 in '
               'the sample variance is accepted']
WALL = {'quick': 240, 'thorough': 2400}

INTEGRANDS = ['one', 'scalar', 'offset', 'square', 'complex', 'vector', 'square-vector', 'matrix', 'column']
WEIGHTS = ['plain', 'const', 'dominant', 'spread', 'zeros', 'signed', 'big', 'shifting', 'nan']


def gen(rng):
    routine = rng.choice(['single', 'batched', 'batched', 'batched', 'vol'])
    case = {'routine': routine, 'batches': rng.choice([1, 2, 3, 4, 5, 7]), 'size': rng.choice([1, 2, 3, 4, 5, 8]),
            'dim': rng.choice([1, 2, 3]), 'm': rng.choice([1, 2, 3]),
            'integrand': rng.choice(INTEGRANDS) if routine != 'vol' else 'one', 'weights': rng.choice(WEIGHTS),
            'var': rng.random() < 0.6, 'jit': rng.random() < 0.3, 'key': rng.randrange(2 ** 31),
            'data': rng.randrange(2 ** 31), 'positional': rng.random() < 0.5,
            'points': rng.choice(['array', 'array', 'chart']) if routine != 'vol' else 'array'}
    if rng.random() < 0.08:
        case.update(rng.choice([{'size': rng.choice([65, 100, 129, 300]), 'batches': rng.choice([1, 2, 3])},
                                {'batches': rng.choice([17, 33, 70])}]))
        if case['integrand'] == 'square-vector':
            case['integrand'] = 'vector'
    return case


def plan(rng, tier):
    return [gen(rng) for _ in range(1200 if tier == 'quick' else 8000)]


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_


class Source:
    """Delivers points and weights for a key, and keeps what it delivered."""

    def __init__(self, case):
        self.case, self.delivered, self.asked = case, {}, []

    def host(self, key, size):
        k = np.asarray(key).tobytes().hex()
        rng = np.random.default_rng(rng_for('points', self.case['data'], k, size).randrange(2 ** 63))
        z = rng.normal(size=(size, self.case['dim'])) + 1j * rng.normal(size=(size, self.case['dim']))
        w = rng.uniform(0.5, 1.5, size)
        mode = self.case['weights']
        if mode == 'const':
            w[:] = 0.7
        elif mode == 'dominant' and len(self.delivered) == 1:
            w[rng.integers(size)] = 1e6
        elif mode == 'spread':
            w = 10 ** rng.uniform(-8, 4, size)
        elif mode == 'zeros':
            w[rng.random(size) < 0.6] = 0
        elif mode == 'signed':
            w = w * rng.choice([-1, 1], size)
        elif mode == 'big':
            w = w * 1e9
        elif mode == 'nan' and len(self.delivered) == 0:
            w[rng.integers(size)] = np.nan
        elif mode == 'shifting':
            w = w * (1 + 5 * len(self.delivered))
        if k in self.delivered:
            return self.delivered[k]
        self.delivered[k] = (z, w)
        return z, w

    def __call__(self, key, count):
        if isinstance(count, jax.core.Tracer):
            raise Violation('sampler-call', 'the sampler was asked for a traced number of points')
        count = int(count)
        self.asked.append(count)
        shapes = (jax.ShapeDtypeStruct((count, self.case['dim']), jnp.complex128),
                  jax.ShapeDtypeStruct((count,), jnp.float64))
        key = jnp.asarray(key)
        if not isinstance(key, jax.core.Tracer):
            z, w = self.host(np.asarray(key), count)
            z, w = jnp.asarray(z), jnp.asarray(w)
        else:
            z, w = jax.pure_callback(lambda k: self.host(k, count), shapes, key)
        if self.case['points'] == 'chart':       # points as coordinates and chart index
            z = (z, jnp.arange(count) % 3)
        return z, w


def integrand(case, lib):
    m = case['m']
    name = case['integrand']

    def fn(z):
        if isinstance(z, tuple):
            z = z[0] * (1 + z[1][..., None])
        x = (z * lib.conj(z)).real.sum(-1)
        y = z[..., 0].imag
        if name == 'one':
            return 1
        if name == 'scalar':
            return x
        if name == 'offset':
            return y + 3.0
        if name == 'square':
            return y ** 2 - 0.5 * x
        if name == 'complex':
            return z[..., 0] * x
        if name == 'vector':
            return lib.stack([x * (i + 1) + y for i in range(m)], -1)
        if name == 'square-vector':        # as many components as points in a batch
            return lib.stack([y * (i + 1) - x for i in range(case['size'])], -1)
        if name == 'column':
            return x[..., None]
        return lib.stack([lib.stack([x + i, y * (j + 1)], -1) for i, j in ((0, 1), (2, 0), (1, 1))], -2)
    return fn


def judge(case, src, out, ev, stats):
    batches = case['batches'] if case['routine'] != 'single' else 1
    size = case['size']
    if len(src.delivered) != batches or any(len(w) != size for _, w in src.delivered.values()):
        raise Violation('sampler-call', f'{batches} batches of {size} points requested, the sampler was asked for '
                                        f'{sorted(len(w) for _, w in src.delivered.values())}')
    if any(a != size for a in src.asked):
        raise Violation('sampler-call', f'the sampler was asked for {src.asked} points, batch size is {size}')
    z = np.concatenate([d[0] for d in src.delivered.values()])
    w = np.concatenate([d[1] for d in src.delivered.values()])
    stats['points'] += len(w)
    if case['points'] == 'chart':
        z = (z, np.concatenate([np.arange(len(d[1])) % 3 for d in src.delivered.values()]))
    f = np.asarray(integrand(case, np)(z))
    if f.ndim == 0:
        f = np.full(len(w), float(f))
    vals = f * w.reshape(w.shape + (1,) * (f.ndim - 1))
    mean = vals.mean(0)
    scale = np.abs(vals).max() if vals.size else 1.0
    want_var = case['var'] and np.isrealobj(vals)
    if case['var']:
        if not isinstance(out, (tuple, list)) or len(out) != 2:
            raise Violation('shape', 'result and variance were requested, got one value')
        got, var = np.asarray(out[0]), np.asarray(out[1])
    else:
        if isinstance(out, (tuple, list)):
            raise Violation('shape', 'only the result was requested, got a tuple')
        got, var = np.asarray(out), None
    if got.shape != mean.shape:
        raise Violation('shape', f'result has shape {got.shape}, integrand values have shape {mean.shape}')
    if case['weights'] == 'nan':
        # an undefined weight may not silently drop out of the average
        if np.any(np.isfinite(got)):
            raise Violation('mean', f'{case["routine"]} returned {got} although one of the weights delivered is undefined')
        ev.add('undefined')
        return
    if not np.all(np.abs(got - mean) <= 1e-11 * scale + 1e-300):
        raise Violation('mean', f'{case["routine"]} returned {got}, the points delivered give {mean} '
                                f'({batches} batches of {size})')
    ev.add('mean', world.summarise(got / (scale or 1)))
    if want_var:
        n = len(w)
        sv = vals.var(0) / n
        if var.shape != sv.shape:
            raise Violation('shape', f'variance has shape {var.shape}, expected {sv.shape}')
        tol = 1e-10 * scale ** 2 / n + 1e-300
        ok = np.abs(var - sv) <= tol + 1e-9 * sv
        if n > 1:
            ok |= np.abs(var - sv * n / (n - 1)) <= tol + 1e-9 * sv
        if not np.all(ok):
            raise Violation('variance', f'{case["routine"]} returned variance {var}, the points delivered give {sv} '
                                        f'({batches} batches of {size})')
        ev.add('var', world.summarise(var / (scale ** 2 or 1)))


def run(case):
    ev, stats, faults = Events(), {'points': 0}, {}
    viol, sigs = None, []
    try:
        src = Source(case)
        fn = integrand(case, jnp)
        key = jax.random.PRNGKey(case['key'])
        b, n, var = case['batches'], case['size'], case['var']
        util = cyjax.util
        if case['routine'] == 'single':
            def call(key):
                if case['positional']:
                    return util.mc_integrate(key, n, fn, src, var)
                return util.mc_integrate(key, count=n, fn=fn, sample=src, var=var)
        elif case['routine'] == 'batched':
            def call(key):
                if case['positional']:
                    return util.mc_integrate_batched(key, b, n, fn, src, var)
                return util.mc_integrate_batched(key, batches=b, batch_size=n, fn=fn, sample=src, var=var)
        else:
            class Stub(cyjax.Dwork):
                def sample_intersect(self, key, params, count, affine=False, weights=False):
                    z, w = src(key, count)
                    if affine:
                        z = (z[:, 1:], jnp.zeros(count, int))
                    return (z, w) if weights else z
            case['dim'] = 3
            v = Stub(1)
            par = jnp.asarray([0.3 + 0.2j])

            def call(key):
                if case['positional']:
                    return v.compute_vol(key, par, b, n, var)
                return v.compute_vol(key, params=par, batches=b, batch_size=n, var=var)
        out = guarded(jax.jit(call) if case['jit'] else call,
                      f'{case["routine"]} integration of a {case["integrand"]} integrand', key)
        out = jax.block_until_ready(out)
        if case['weights'] != 'plain':
            faults['weights:' + case['weights']] = len(src.delivered)
        judge(case, src, out, ev, stats)
        if stats['points'] > 1:
            sigs = [digest([case[k] for k in ('routine', 'batches', 'size', 'integrand', 'weights', 'var', 'jit', 'm', 'points')])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs,
                  summary=f'{case["routine"]} over {stats["points"]} points')


def shrink(case, result):
    for k, v in (('jit', False), ('var', False), ('weights', 'plain'), ('batches', 1), ('batches', 2), ('size', 1),
                 ('size', 2), ('m', 1), ('dim', 1), ('integrand', 'one'), ('integrand', 'scalar'), ('positional', True),
                 ('points', 'array')):
        if case[k] != v:
            yield dict(case, **{k: v})
