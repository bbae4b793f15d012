"""C22: random points lie in the documented sets and independent parts of them come from different random numbers."""
import math

import numpy as np

from ..core import digest, rng_for
from .. import ref, trainlib, world
from ..world import Events, Violation, guarded, result

ID = 'C22'
LEVEL = 'exploration'
RULE = ('A case calls one sampler (square, disk, circle, real and complex sphere, projective space, overlap of two charts, shuffle of an '
        'axis, moduli of a training run) with given sizes, for numbers of the generator that are ordinary or at the ends of their '
        'range, zero or tied, and then again for every single number of the generator replaced by another one. Distinct and '
        'non-trivial: distinct (sampler, sizes, options, behaviour of the generator) with at least one point.')
COMPONENTS = {'real': ['cyjax.random, cyjax.util.shuffle_axis', 'cyjax.projective', 'scripts/train.py (moduli)'],
              'simulated': ['output of jax.random.uniform and jax.random.normal (generator seam)', 'clock and points (training runs)']}
ASSUMPTIONS = ['not all components of one point of a sphere are zero',
               'a sampler draws its numbers as uniform or normal variates; numbers drawn in any other way are left as they are']
WALL = {'quick': 200, 'thorough': 2400}
MODES = ['plain', 'zeros', 'ends', 'tied', 'small']
KINDS = ['components', 'angle', 'unit', 'real_sphere', 'complex_sphere', 'projective', 'overlap', 'overlap', 'overlap', 'shuffle']


def gen(rng, kind):
    case = {'kind': kind, 'key': rng.randrange(2 ** 31), 'mode': rng.choice(MODES + ['plain'] * 4), 'mode_seed': rng.randrange(2 ** 31)}
    if kind in ('components', 'angle', 'unit'):
        case['shape'] = rng.choice([[], [1], [3], [2, 2], [4, 1], [0], [2, 0, 3], [2, 3]])
    elif kind.endswith('sphere'):
        case['shape'] = rng.choice([[2], [3], [1, 2], [3, 2], [2, 2, 3], [0, 3], [4, 4], [2, 5]])
    elif kind == 'shuffle':
        case['shape'], case['axis'] = rng.choice([([4, 6], 1), ([3, 7], 1), ([7], 0), ([6, 2], 0), ([2, 3, 6], 2), ([3, 6, 2], 1), ([5, 6, 1], 1)])
        case['mode'] = 'plain'
    else:
        case.update(count=rng.choice([0, 1, 1, 2, 3, 5]), dim=rng.choice([1, 2, 2, 3, 4]))
    if kind == 'angle':
        case['rad'] = rng.choice([[0, 1], [0, 1], [0.5, 2], [0, 10], [1, 1], [0.25, 0.5]])
    if kind == 'overlap':
        case['patches'] = rng.sample(range(case['dim'] + 1), 2)
        case['size'] = rng.choice([1.5, 2, 10, 1.01])
    return case


def gen_script(rng):
    cfg = trainlib.gen_cfg(rng, evaluate=False)
    cfg.update(bounds=rng.choice([[1.5, 0.5], [0.5, 3], [0.5], [4]]), val_count=60)
    return {'kind': 'script', 'cfg': cfg}


def plan(rng, tier):
    n, scripts = (420, 8) if tier == 'quick' else (6000, 100)
    cases = [gen(rng, KINDS[i % len(KINDS)]) for i in range(n)]
    for i in range(scripts):
        cases.insert(5 * i, gen_script(rng))
    return cases


class Generator:
    """Stands in for the two sources of random numbers."""
    active = None

    def __init__(self, mode='plain', seed=0, change=None, faults=None):
        self.mode, self.seed, self.change = mode, seed, change      # change: (number of the call, position)
        self.sizes, self.calls = [], {}                             # numbers delivered; a key gives the same ones again
        self.faults = {} if faults is None else faults

    def deliver(self, kind, key, x):
        """x: array of numbers, uniform on [0, 1) or normal."""
        call = self.calls.setdefault((np.asarray(key).tobytes(), x.size), len(self.sizes))
        if call == len(self.sizes):
            self.sizes.append(x.size)
        out = x.copy().reshape(-1)
        rng = rng_for('numbers', self.seed, call)
        if self.mode != 'plain' and out.size:
            rows = out.reshape(-1, x.shape[-1] if kind == 'normal' and x.ndim else 1)
            for r in range(len(rows)):
                if rng.random() < 0.6:
                    rows[r] = self.special(kind, rows[r].copy(), rng)
                    self.faults['numbers:' + self.mode] = self.faults.get('numbers:' + self.mode, 0) + 1
            out = rows.reshape(-1)
        if self.change is not None and self.change[0] == call and self.change[1] < out.size:
            i = self.change[1]
            out[i] = (out[i] + 0.3819) % 1 if kind == 'uniform' else out[i] + 0.7381
            self.faults['number_replaced'] = self.faults.get('number_replaced', 0) + 1
        return out.reshape(x.shape)

    def special(self, kind, row, rng):
        n = len(row)
        if kind == 'uniform':
            return {'zeros': 0 * row, 'ends': 0 * row + rng.choice([0.0, 1 - 2.0 ** -53]), 'tied': 0 * row + 0.5,
                    'small': 0 * row + 2.0 ** -52}[self.mode]
        if self.mode == 'zeros' and n > 1:
            row[rng.sample(range(n), rng.randrange(1, n))] = 0
        elif self.mode == 'ends':
            row = np.array([rng.choice([-8.2, 8.2, 1.0]) for _ in row])
        elif self.mode == 'tied':
            row = np.array([rng.choice([-1.0, 1.0]) for _ in row])
        elif self.mode == 'small':
            row = row * 1e-13
        return row


def setup(case):
    global jax, jnp, cyjax
    import jax as j
    # before the package is imported, so that it cannot hold on to the originals
    uniform, normal = j.random.uniform, j.random.normal

    def sim_uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
        x = uniform(key, shape, dtype, minval, maxval)
        if Generator.active is None or isinstance(x, j.core.Tracer) or isinstance(minval, j.core.Tracer):
            return x
        u = np.asarray(uniform(key, shape))
        v = np.asarray(Generator.active.deliver('uniform', key, u))
        if np.array_equal(u, v):
            return x
        lo, hi = np.asarray(minval, float), np.asarray(maxval, float)
        y = np.minimum(lo + v * (hi - lo), np.nextafter(hi, lo))
        return j.numpy.asarray(np.where(u == v, np.asarray(x), y), dtype=x.dtype)

    def sim_normal(key, shape=(), dtype=float):
        x = normal(key, shape, dtype)
        if Generator.active is None or isinstance(x, j.core.Tracer) or x.dtype.kind != 'f':
            return x
        return j.numpy.asarray(Generator.active.deliver('normal', key, np.asarray(x)), dtype=x.dtype)
    j.random.uniform, j.random.normal = sim_uniform, sim_normal
    jax, cyjax = trainlib.setup()
    import jax.numpy as jnp_
    jnp = jnp_


def call(case, gen):
    k, key = case['kind'], jax.random.PRNGKey(case['key'])
    shape = tuple(case.get('shape', ()))
    r = cyjax.random
    calls = {
        'components': lambda: r.uniform_components(key, shape),
        'angle': lambda: r.uniform_angle(key, shape, *case['rad']) if case['rad'] != [0, 1] else r.uniform_angle(key, shape),
        'unit': lambda: r.uniform_angle_unit(key, shape),
        'real_sphere': lambda: r.real_sphere(key, shape),
        'complex_sphere': lambda: r.complex_sphere(key, shape),
        'projective': lambda: r.uniform_projective(key, case['count'], case['dim'], affine=False),
        'overlap': lambda: r.projective_overlap(key, case['count'], case['dim'], *case['patches'], case['size']),
        'shuffle': lambda: cyjax.util.shuffle_axis(key, jnp.arange(math.prod(shape)).reshape(shape), case['axis'])}
    Generator.active = gen
    try:
        return np.asarray(guarded(calls[k], f'the sampler ({describe(case)})'))
    finally:
        Generator.active = None


def describe(case):
    return ', '.join(f'{k}={case[k]}' for k in ('kind', 'shape', 'count', 'dim', 'patches', 'size', 'rad', 'axis', 'mode') if k in case)


def expected_shape(case):
    if case['kind'] in ('projective', 'overlap'):
        return (case['count'], case['dim'] + (case['kind'] == 'projective'))
    return tuple(case['shape'])


def other_index(case):
    this, other = case['patches']
    return other if other < this else other - 1


def judge_set(case, z):
    """Every point is where it should be."""
    k, tol = case['kind'], 1e-9
    if k == 'shuffle':
        a = case['axis']
        x = np.arange(z.size).reshape(z.shape)
        lead = math.prod(z.shape[:a])
        for i, (u, v) in enumerate(zip(x.reshape(lead, z.shape[a], -1), z.reshape(lead, z.shape[a], -1))):
            if sorted(map(tuple, u.tolist())) != sorted(map(tuple, v.tolist())):
                raise Violation('set', f'row {i} is not a rearrangement: {v.tolist()} ({describe(case)})')
        return
    if not np.all(np.isfinite(z)):
        raise Violation('set', f'a point is not finite ({describe(case)})')
    r = np.abs(z)
    if k == 'components':
        bad = np.maximum(np.abs(z.real), np.abs(z.imag)) > 1 + tol
    elif k == 'angle':
        bad = (r < case['rad'][0] - tol) | (r > case['rad'][1] * (1 + tol))
    elif k == 'unit':
        bad = np.abs(r - 1) > tol
    elif k in ('real_sphere', 'complex_sphere', 'projective'):
        bad = np.abs(np.sum(r ** 2, -1) - 1) > tol
    else:
        o = r[:, other_index(case)][:, None]
        bad = np.any(r > case['size'] * (1 + tol), 1) | np.any(1 > o * case['size'] * (1 + tol), 1) | np.any(r > case['size'] * o * (1 + tol), 1)
    if np.any(bad):
        raise Violation('set', f'{int(np.sum(bad))} of {bad.size} points lie outside the documented set, for example '
                        f'{np.asarray(z)[np.argwhere(bad)[0][0]].tolist() if z.ndim else z.tolist()} ({describe(case)})')


def parts(case, z):
    """Independent parts of the points: {name: value or (angle,)}; angles are compared modulo a turn."""
    k, out = case['kind'], {}
    if k == 'components':
        for i, v in np.ndenumerate(z):
            out[f're {list(i)}'], out[f'im {list(i)}'] = v.real, v.imag
    elif k in ('angle', 'unit'):
        for i, v in np.ndenumerate(z):
            out[f'modulus {list(i)}'] = abs(v)
            if abs(v) > 1e-6:
                out[f'phase {list(i)}'] = (v / abs(v),)
    elif k == 'overlap':
        o = other_index(case)
        for i, row in enumerate(z):
            ro = abs(row[o])
            for j, v in enumerate(row):
                out[f'modulus {[i, j]}'] = ro if j == o else abs(v) / min(1, ro)
                if abs(v) > 1e-6:
                    out[f'phase {[i, j]}'] = (v / abs(v),)
    return out


def differs(a, b):
    if isinstance(a, tuple):
        return abs(a[0] - b[0]) > 1e-7
    return abs(a - b) > 1e-7 * (1 + abs(a))


def judge_numbers(case, z, gen, faults, stats):
    """Replace the numbers of the generator one by one."""
    total = sum(gen.sizes)
    if not total or total > 40 or not z.size:
        return
    moved = {}                                       # part: numbers it depends on
    base = parts(case, z)
    for c, size in enumerate(gen.sizes):
        for i in range(size):
            y = call(case, Generator('plain', case['mode_seed'], (c, i), faults))
            judge_set(case, y)
            stats['numbers_replaced'] += 1
            if case['kind'].endswith('sphere') or case['kind'] == 'projective':
                a, b = real_rows(z), real_rows(y)
                rows = [r for r in range(len(a)) if np.max(np.abs(a[r] - b[r])) > 1e-7]
                if len(rows) > 1:
                    raise Violation('shared', f'points {rows} depend on the same random number ({describe(case)})')
                for r in rows:
                    moved.setdefault(f'point {r}', set()).add((c, i))
                    if not any(parallel(np.delete(a[r], k), np.delete(b[r], k)) for k in range(len(a[r]))):
                        raise Violation('shared', f'several components of point {r} depend on the same random number ({describe(case)})')
                continue
            now = parts(case, y)
            hit = [k for k in base if k in now and differs(base[k], now[k])]
            if len(hit) > 1:
                raise Violation('shared', f'{" and ".join(hit)} depend on the same random number ({describe(case)})')
            for k in hit:
                moved.setdefault(k, set()).add((c, i))
    want = [f'point {r}' for r in range(len(real_rows(z)))] if case['kind'].endswith('sphere') or case['kind'] == 'projective' else \
        [k for k in base if not (k.startswith('modulus') and (case['kind'] == 'unit' or case.get('rad') == [1, 1]))]
    for k in want:
        if k not in moved:
            raise Violation('constant', f'{k} does not depend on any random number ({describe(case)})')


def real_rows(z):
    z = np.atleast_2d(z.reshape(-1, z.shape[-1]))
    return np.concatenate([z.real, z.imag], 1) if z.dtype.kind == 'c' else z


def parallel(a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    return na < 1e-9 or nb < 1e-9 or abs(np.dot(a, b) - na * nb) < 1e-9 * na * nb


def samplers(case, ev, faults, stats):
    gen = Generator(case['mode'], case['mode_seed'], None, faults)
    z = call(case, gen)
    if z.shape != expected_shape(case):
        raise Violation('count', f'the result has shape {z.shape}, expected {expected_shape(case)} ({describe(case)})')
    stats['points'] += z[..., 0].size if case['kind'] in ('real_sphere', 'complex_sphere', 'projective', 'overlap') else z.size
    stats['numbers'] += sum(gen.sizes)
    judge_set(case, z)
    again = call(case, Generator(case['mode'], case['mode_seed']))
    if not np.array_equal(z, again):
        raise Violation('repeat', f'the same key gives different points ({describe(case)})')
    ev.add(case['kind'], world.summarise(z))
    if case['kind'] == 'projective':
        Generator.active = Generator(case['mode'], case['mode_seed'])
        try:
            zs, patch = guarded(cyjax.random.uniform_projective, 'affine points', jax.random.PRNGKey(case['key']), case['count'], case['dim'])
        finally:
            Generator.active = None
        zs, patch = np.asarray(zs), np.asarray(patch)
        if zs.shape != (case['count'], case['dim']) or patch.shape != (case['count'],):
            raise Violation('count', f'affine points have shapes {zs.shape} and {patch.shape} ({describe(case)})')
        for h, a, p in zip(z, zs, patch):
            if np.max(np.abs(a), initial=0) > 1 + 1e-9 or not ref.close(ref.insert_one(a, int(p)) * h[p], h, 1e-9, 1e-12):
                raise Violation('set', f'affine point {a.tolist()} in chart {int(p)} is not the point {h.tolist()} in its best chart ({describe(case)})')
    if case['kind'] == 'shuffle' and z.ndim > 1 and case['axis'] > 0:
        lead = math.prod(z.shape[:case['axis']])
        rows = z.reshape(lead, z.shape[case['axis']], -1)
        if len({tuple((r - r.min()).reshape(-1).tolist()) for r in rows}) == 1 and lead > 1:
            raise Violation('shared', f'all rows are rearranged in the same way ({describe(case)})')
    if case['kind'] != 'shuffle' and case['mode'] == 'plain':
        judge_numbers(case, z, gen, faults, stats)


def script(case, ev, stats):
    cfg = case['cfg']
    r = trainlib.Run(cfg, [1.0], 0.5, watch=False).run()
    data = r.files.get('validation_params.npy')
    if r.error or data is None:
        stats['undecided'] += 1                      # C14 reports runs that fail
        return
    m = trainlib.load('validation_params.npy', data)
    bounds = np.asarray(cfg['bounds'], float)
    if m.shape != (cfg['val_count'], len(bounds)):
        raise Violation('count', f'{cfg["val_count"]} validation moduli for {len(bounds)} parameters have shape {m.shape}')
    stats['points'] += m.size
    part = np.concatenate([m.real, m.imag])
    low, high = part.min(0), part.max(0)
    if np.any(np.abs(part) > bounds * (1 + 1e-6)):
        raise Violation('set', f'moduli with parts between {low.tolist()} and {high.tolist()} for the bounds {bounds.tolist()}')
    if np.any(high < 0.4 * bounds) or np.any(low > -0.4 * bounds):
        raise Violation('set', f'moduli only have parts between {low.tolist()} and {high.tolist()} for the bounds {bounds.tolist()}')
    flat = np.concatenate([m.real, m.imag], 1) / np.concatenate([bounds, bounds])
    for i in range(flat.shape[1]):
        for j in range(i):
            if abs(np.corrcoef(flat[:, i], flat[:, j])[0, 1]) > 0.9:
                raise Violation('shared', 'two parts of the moduli depend on the same random numbers')
    ev.add('script', world.summarise(m))


def run(case):
    ev, viol, sigs, faults = Events(), None, [], {}
    stats = {'points': 0, 'numbers': 0, 'numbers_replaced': 0, 'undecided': 0}
    try:
        if case['kind'] == 'script':
            script(case, ev, stats)
        else:
            from jax.experimental import enable_x64
            with enable_x64(), jax.disable_jit():
                samplers(case, ev, faults, stats)
        if stats['points']:
            sigs = [digest({k: v for k, v in case.items() if k not in ('key', 'mode_seed', 'seed', 'index')})]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, faults=faults, stats=stats, sigs=sigs, summary=f'{stats["points"]} points')
