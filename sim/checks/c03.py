"""C03: every draw of the random generator gives the requested number of valid weighted points."""
import numpy as np

from ..core import digest, rng_for
from .. import ref, world
from ..world import Events, Violation, result, guarded

ID = 'C03'
LEVEL = 'exploration'
RULE = ('A case fixes a variety, moduli, a count and what the random generator delivers (ordinary values, or values '
        'with zeros, ties, real-only, very unequal or tiny components, close to the variety or to a singular point), and samples it with all four output '
        'options. Distinct and non-trivial: distinct (variety kind, dimension, number of parameters, degree, '
        'count, generator behaviour, key type) with at least one point returned.')
COMPONENTS = {'real': ['cyjax.variety sampling and weights', 'cyjax.polynomial', 'cyjax.projective', 'jax'],
              'simulated': ['output of jax.random.normal (generator seam)']}
ASSUMPTIONS = ['generator faults keep both sphere points away from the variety (relative value of the defining '
               'polynomial above 1e-3), because a line through such a point meets the variety at infinity',
               'varieties contain every pure power, so that generic lines are well conditioned']
WALL = {'quick': 240, 'thorough': 2400}

MODES = ['plain', 'zeros', 'tied', 'skew', 'real', 'tiny', 'big', 'near', 'one-hot', 'singular']


def gen(rng, dims):
    odd = rng.random() < 0.25
    spec = world.gen_variety(rng, dims=dims)
    if odd and spec['kind'] == 'sympy':
        # degree different from the number of variables
        n = rng.choice([3, 4])
        spec = world.gen_variety(rng, dims=(n - 2,), kinds=('sympy',), degree=rng.choice([2, 3, 4, 5]))
    return {'variety': spec, 'params': world.gen_params(rng, spec, rng.choice([0.3, 0.8, 2.0])),
            'count': rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 11, 13, 20]),
            'key': rng.randrange(2 ** 31), 'mode': rng.choice(MODES + ['plain']),
            'mode_seed': rng.randrange(2 ** 31),
            'float32': False, 'jit': rng.random() < 0.06, 'par_list': rng.random() < 0.2}


def singular(rng, dims):
    """Moduli for which the variety has a singular point, where weights grow without bound."""
    c = gen(rng, dims)
    spec = world.gen_variety(rng, dims=dims, kinds=('dwork',))
    factor = complex(world.ref_poly(spec).terms[-1][0]).real
    c.update(variety=spec, params=[[-(spec['dim'] + 2) / factor, 0.0]], mode='singular', count=rng.choice([6, 11, 20]))
    return c


def plan(rng, tier):
    n = 170 if tier == 'quick' else 3000
    out = [gen(rng, (1, 1, 1, 2)) for _ in range(n)]
    for c in out:
        # single precision is judged only for ordinary draws of ordinary varieties
        if rng.random() < 0.12 and c['variety']['kind'] != 'sympy':
            c.update(float32=True, mode='plain')
    for i in range(5 if tier == 'quick' else 60):
        c = gen(rng, (3,))
        out.insert(i, c)
    for i in range(12 if tier == 'quick' else 150):
        out.insert(i, singular(rng, (1, 2)))
    return out


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_


class Generator:
    """Stands in for jax.random.normal and reshapes what it returns."""

    def __init__(self, mode, seed, poly, params, faults):
        self.mode, self.seed, self.poly, self.params, self.faults = mode, seed, poly, params, faults
        self.real = jax.random.normal
        self.calls = 0

    def near(self, v, rng):
        """A direction close to the variety: one intersection of the line is very far out."""
        n, deg = self.poly.n, sum(self.poly.terms[0][2])
        z = v[:n] + 1j * v[n:]
        d = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(n)])
        ts = np.exp(2j * np.pi * np.arange(deg + 1) / (deg + 1))
        coeffs = np.fft.fft([self.poly(z + t * d, self.params) for t in ts]) / (deg + 1)
        roots = np.roots(coeffs[::-1])
        if not len(roots):
            return v
        z = z + roots[np.argmin(np.abs(roots))] * d
        z = z / np.linalg.norm(z) + 10 ** rng.uniform(-8, -1) * d / np.linalg.norm(d)
        return np.concatenate([z.real, z.imag])

    def __call__(self, key, shape=(), dtype=float):
        x = self.real(key, shape, dtype)
        self.calls += 1
        if self.mode == 'plain' or isinstance(x, jax.core.Tracer) or len(shape) < 1 or shape[-1] != 2 * self.poly.n:
            return x
        n = self.poly.n
        plain = np.array(x)
        flat = plain.reshape(-1, 2 * n)
        out = flat.copy()
        for r in range(len(flat)):
            rng = rng_for('draw', self.seed, r)
            v = out[r].copy()
            if self.mode == 'zeros':
                for i in rng.sample(range(n), rng.randrange(1, n)):
                    v[i] = v[n + i] = 0.0
            elif self.mode == 'one-hot':
                i = rng.randrange(n)
                keep = v[i], v[n + i]
                v[:] = 0
                v[i], v[n + i] = keep
            elif self.mode == 'tied':
                for i in range(n):
                    ph = rng.choice([0, 1, 2, 3])
                    v[i], v[n + i] = [(1, 0), (0, 1), (-1, 0), (0, -1)][ph]
            elif self.mode == 'skew':
                for i in range(n):
                    f = 10 ** rng.uniform(-4, 2)
                    v[i] *= f
                    v[n + i] *= f
            elif self.mode == 'real':
                v[n:] = 0
            elif self.mode == 'near' and r >= len(flat) // 2:
                v = self.near(v, rng)
            elif self.mode == 'singular' and r >= len(flat) // 2 and self.poly.n_par == 1:
                v[:n] = 1 + 10 ** rng.uniform(-3, -1) * v[:n]
                v[n:] *= 10 ** rng.uniform(-3, -1)
            elif self.mode == 'tiny':
                v *= 1e-13
            elif self.mode == 'big':
                v *= 1e13
            z = v[:n] + 1j * v[n:]
            norm = np.linalg.norm(z)
            if norm > 0:
                z = z / norm
                if abs(self.poly(z, self.params)) > 1e-10 * self.poly.magnitude(z, self.params) \
                        and abs(self.poly(z, self.params)) > 1e-10:
                    out[r] = v
        # two equal directions would not span a line
        if len(out) % 2 == 0:
            half = len(out) // 2
            for r in range(half):
                a = out[r][:n] + 1j * out[r][n:]
                b = out[half + r][:n] + 1j * out[half + r][n:]
                if abs(np.vdot(a, b)) > 0.999 * np.linalg.norm(a) * np.linalg.norm(b):
                    out[r], out[half + r] = flat[r], flat[half + r]
        changed = int(np.sum(np.any(out != flat, axis=1)))
        if changed:
            self.faults['draw:' + self.mode] = self.faults.get('draw:' + self.mode, 0) + changed
        return jnp.asarray(out.reshape(plain.shape), dtype=x.dtype)


def run(case):
    ev, faults, stats = Events(), {}, {'points': 0}
    viol, sigs = None, []
    try:
        spec = case['variety']
        poly = world.ref_poly(spec)
        params = world.cplx(case['params'])
        if case['float32']:
            from jax.experimental import disable_x64
            ctx = disable_x64()
        else:
            import contextlib
            ctx = contextlib.nullcontext()
        with ctx:
            one(case, spec, poly, params, ev, faults, stats)
        if stats['points']:
            sigs = [digest([spec['kind'], poly.n, poly.n_par, spec.get('degree'), case['count'], case['mode'],
                            case['float32'], case['jit'], len(poly.terms)])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind, v.detail)
    return result(ev, viol, faults=faults, stats=stats, sigs=sigs,
                  summary=f'{stats["points"]} points, mode {case["mode"]}')


def one(case, spec, poly, params, ev, faults, stats):
    f32 = case['float32']
    tol = 2e-2 if f32 else 1e-8
    wtol = 5e-2 if f32 else 1e-6
    variety = guarded(world.build_variety, 'building the variety', spec, cyjax)
    n = poly.n
    count = case['count']
    par = jnp.asarray(params) if len(params) else (None if spec['kind'] == 'fermat' else jnp.zeros((0,), complex))
    if case['par_list'] and len(params) and not case['jit']:
        par = np.asarray(params)
    key = jax.random.PRNGKey(case['key'])
    gen = Generator(case['mode'], case['mode_seed'], poly, params, faults)
    outs = {}
    jax.random.normal = gen
    try:
        for affine in (False, True):
            for weights in (False, True):
                outs[affine, weights] = guarded(
                    variety.sample_intersect, f'sample_intersect(count={count}, affine={affine}, weights={weights})',
                    key, par, count, affine=affine, weights=weights)
        vol = guarded(variety.sample_intersect, 'sample_intersect with positional options', key, par, count, True, True)
    finally:
        jax.random.normal = gen.real
    zh = np.asarray(outs[False, False])
    if zh.shape != (count, n):
        raise Violation('count', f'asked for {count} points in {n} coordinates, got shape {zh.shape}')
    zh2, w2 = outs[False, True]
    za, pa = outs[True, False]
    (za2, pa2), w4 = outs[True, True]
    arrs = {'hom+weights': zh2, 'affine': za, 'patch': pa, 'affine+weights': za2, 'patch+weights': pa2, 'w2': w2, 'w4': w4}
    arrs = {k: np.asarray(v) for k, v in arrs.items()}
    shapes = {'hom+weights': (count, n), 'affine': (count, n - 1), 'patch': (count,), 'affine+weights': (count, n - 1),
              'patch+weights': (count,), 'w2': (count,), 'w4': (count,)}
    for k, s in shapes.items():
        if arrs[k].shape != s:
            raise Violation('count', f'{k} has shape {arrs[k].shape}, expected {s}')
    if count == 0:
        return
    stats['points'] += count
    eq = dict(rtol=1e-4, atol=1e-5) if f32 else dict(rtol=1e-9, atol=1e-11)
    if not ref.close(zh, arrs['hom+weights'], **eq) or not ref.close(arrs['affine'], arrs['affine+weights'], **eq) \
            or not np.array_equal(arrs['patch'], arrs['patch+weights']) or not ref.close(arrs['w2'], arrs['w4'], **eq):
        raise Violation('options', 'output options do not describe the same points for the same key')
    if not ref.close(np.asarray(vol[1]), arrs['w4'], **eq):
        raise Violation('options', 'repeating the call gives different weights')
    if not np.all(np.isfinite(zh)) or not np.all(np.isfinite(arrs['affine'])):
        raise Violation('not-finite', 'a sampled point is not finite')
    zs, patch, w = arrs['affine'], arrs['patch'], arrs['w4']
    if patch.dtype.kind not in 'iu' or patch.min() < 0 or patch.max() >= n:
        raise Violation('patch', f'patch indices {patch} of type {patch.dtype}')
    if np.max(np.abs(zs)) > 1 + (1e-5 if f32 else 1e-10):
        raise Violation('patch', f'affine coordinate of modulus {np.max(np.abs(zs))} in the returned chart')
    geo = ref.Geometry(poly, np.zeros((1, n), int), 1)
    for i in range(count):
        z = zh[i]
        scale = np.max(np.abs(z))
        if scale == 0:
            raise Violation('not-finite', 'a sampled point is the zero vector')
        zz = z.astype(complex) / scale
        res = abs(poly(zz, params)) / max(poly.magnitude(zz, params), 1e-300)
        if not res < tol:
            raise Violation('off-variety', f'point {i} of {count}: relative residual {res:.2e} (mode {case["mode"]})')
        back = ref.insert_one(zs[i], int(patch[i]))
        if not ref.close(back * z[patch[i]], z, 1e-4 if f32 else 1e-9, 1e-12):
            raise Violation('chart', f'affine coordinates of point {i} do not describe its homogeneous coordinates')
        wr = geo.weight(zs[i].astype(complex), int(patch[i]), params)
        if np.isfinite(wr) and wr < (1e3 if f32 else 1e9):
            if not abs(w[i] - wr) <= wtol * abs(wr):
                raise Violation('weights', f'point {i}: weight {w[i]}, formula gives {wr}')
            if not w[i] > 0:
                raise Violation('weights', f'point {i}: weight {w[i]} is not positive')
    if len(np.unique(np.round(zs, 9), axis=0)) < count and case['mode'] == 'plain' and not f32:
        raise Violation('repeat', 'the same point was returned twice for generic lines')
    ev.add('sampled', world.summarise(zh), world.summarise(w), patch.tolist())
    if case['jit'] and case['mode'] == 'plain':
        fn = jax.jit(lambda k, p: variety.sample_intersect(k, p, count, affine=True, weights=True))
        (zj, pj), wj = guarded(fn, 'compiled sampling', key, par)
        if not ref.close(np.asarray(wj), w, 1e-3 if f32 else 1e-6):
            # compilation may order the roots differently; compare as sets
            if not ref.close(np.sort(np.asarray(wj)), np.sort(w), 1e-3 if f32 else 1e-6):
                raise Violation('options', 'compiled sampling gives different points for the same key')
        ev.add('jit')
