"""C18: accuracy measure and training loss are the stated averages over exactly the points delivered."""
import numpy as np

from ..core import digest, rng_for
from .. import ref, world
from ..world import Events, Violation, result, guarded
from .c10 import pd_matrix

ID = 'C18'
LEVEL = 'exploration'
RULE = ('A case is a history of accuracy and loss evaluations on one metric whose points come from a simulator-owned source '
        '(ordinary, repeated, skewed and tied points; ordinary, dominating and zero weights), for single and batched matrices and '
        'moduli. Distinct and non-trivial: distinct (variety, basis, sequence of evaluations with their batch shapes, counts and '
        'behaviour of the source) in which at least two points were delivered.')
COMPONENTS = {'real': ['cyjax AlgebraicMetric.sigma_accuracy and eta', 'cyjax.ml.variance_eta_loss', 'cyjax.ml.BatchSampler',
                       'cyjax variety weights', 'jax'],
              'simulated': ['points on the variety and, for the loss, their weights']}
ASSUMPTIONS = ['points are smooth points of the variety', 'weights delivered for the accuracy measure are the right ones, since the '
               'package may use them or compute them itself']
WALL = {'quick': 240, 'thorough': 2400}
MODES = ['plain', 'plain', 'repeat', 'pairs', 'skew', 'tie', 'real']
WEIGHTS = ['plain', 'dominant', 'zeros', 'const', 'spread']


def gen(rng):
    spec = world.gen_variety(rng, dims=(1, 1, 1, 2), kinds=('dwork', 'dwork', 'fermat', 'sympy'))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        mode = rng.choice(MODES)
        if rng.random() < 0.55:
            ops.append(['sigma', {'count': rng.choice([1, 2, 3, 5, 8, 13, 30]), 'mode': mode, 'indefinite': rng.random() < 0.3, 'params': rng.choice([[], [], [1], [2], [3]]),
                                  'h': rng.choice([[], [], [2], [3]]), 'jit': rng.random() < 0.4, 'key': rng.randrange(2 ** 31),
                                  'seed': rng.randrange(2 ** 31), 'cond': rng.choice([1, 3, 30, 1000])}])
        else:
            ops.append(['loss', {'n_par': rng.choice([1, 2, 3]), 'n_pts': rng.choice([1, 2, 4, 7]), 'buffer': rng.choice([1, 2]),
                                 'mode': mode, 'weights': rng.choice(WEIGHTS), 'draws': rng.choice([1, 2, 3]),
                                 'indefinite': rng.random() < 0.4, 'key': rng.randrange(2 ** 31), 'seed': rng.randrange(2 ** 31),
                                 'cond': rng.choice([1, 3, 30])}])
    return {'variety': spec, 'params': world.gen_params(rng, spec, 0.6), 'degree': rng.choice([1, 1, 2]), 'ops': ops,
            'basis': rng.choice(['full', 'full', 'reduced']), 'data': rng.randrange(2 ** 31), 'shrinkable': ['ops']}


def plan(rng, tier):
    return [gen(rng) for _ in range(170 if tier == 'quick' else 3000)]


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_


class Source:
    """Simulator-owned points: fixed by the key and moduli that ask for them."""

    def __init__(self, case, poly, geo):
        self.case, self.poly, self.geo, self.op = case, poly, geo, None
        self.log = []

    def point(self, rng, params, mode):
        n = self.poly.n
        for _ in range(200):
            z = rng.normal(size=n) + (1j * rng.normal(size=n) if mode != 'real' else 0)
            if mode == 'skew':
                z[rng.integers(n)] *= 10.0 ** -rng.integers(2, 5)
            if mode == 'tie':
                z = np.exp(2j * np.pi * rng.integers(0, 12, n) / 12)
            last = int(rng.integers(n))
            deg = sum(self.poly.terms[0][2])
            coef = np.zeros(deg + 1, complex)
            for c, pp, zp in self.poly.terms:
                m = self.poly.coef(c, pp, params)
                for i, e in enumerate(zp):
                    if i != last and e:
                        m *= z[i] ** e
                coef[deg - zp[last]] += m
            if abs(coef[0]) < 1e-6:
                continue
            roots = np.roots(coef)
            if not len(roots):
                continue
            z = z.astype(complex)
            z[last] = roots[rng.integers(len(roots))]
            patch = int(np.argmax(np.abs(z)))
            z = z / z[patch]
            # one Newton step against rounding in the roots
            g = self.poly.grad(z, params)
            j = int(np.argmax(np.where(np.arange(n) == patch, 0, np.abs(g))))
            z[j] -= self.poly(z, params) / g[j]
            a = np.delete(z, patch)
            grad = np.sort(np.abs(self.geo.aff_grad(a, patch, params)))
            if grad[-1] < 1e-2 or np.max(np.abs(a)) > 1 + 1e-6:
                continue
            return a, patch
        raise RuntimeError('no point found')

    def host(self, key, params, count):
        key, params = np.asarray(key), np.asarray(params)
        op = self.op
        rng = np.random.default_rng(rng_for('points', self.case['data'], key.tobytes().hex(), params.tobytes().hex(), count).randrange(2 ** 63))
        mode = op['mode']
        pts = []
        for i in range(count):
            if (mode == 'repeat' and pts) or (mode == 'pairs' and i % 2):
                pts.append(pts[-1])
            else:
                pts.append(self.point(rng, params, mode))
        zs = np.array([p[0] for p in pts]).reshape(count, -1)
        patch = np.array([p[1] for p in pts], int)
        if 'weights' in op:
            w = rng.uniform(0.5, 1.5, count)
            kind = op['weights']
            if kind == 'const':
                w[:] = 0.8
            elif kind == 'dominant':
                w[rng.integers(count)] = 1e3
            elif kind == 'zeros' and count > 1:
                w[rng.permutation(count)[:count // 2]] = 0
            elif kind == 'spread':
                w = 10 ** rng.uniform(-2, 2, count)
        else:
            w = np.array([self.geo.weight(z, p, params) for z, p in pts])
        self.log.append((key.tobytes(), params.copy(), zs, patch, w))
        return zs, patch, w


def make_variety(variety, src):
    class Delivered(type(variety)):
        def __init__(self):
            self.__dict__.update(variety.__dict__)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            n = self.dim_projective
            count = int(count)
            shapes = (jax.ShapeDtypeStruct((count, n), np.complex128), jax.ShapeDtypeStruct((count,), np.int64),
                      jax.ShapeDtypeStruct((count,), np.float64))
            zs, patch, w = jax.pure_callback(lambda k, p: src.host(k, p, count), shapes, key, jnp.asarray(params))
            pts = (zs, patch) if affine else cyjax.affine_to_hom(zs, patch)
            return (pts, w) if weights else pts
    return Delivered()


def herm(seed, n, cond, indefinite):
    h = pd_matrix(seed, n, cond)
    if indefinite:
        rng = np.random.default_rng(seed + 7)
        a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        h = h + (a + a.conj().T) / 2
    return h


def etas(geo, h, zs, patch, params):
    return np.array([geo.eta(h, z, int(p), params) for z, p in zip(zs, patch)])


def fragile(geo, h, zs, patch):
    """The potential nearly cancels (possible for indefinite matrices only)."""
    for z, p in zip(zs, patch):
        s = geo.s(z, int(p))
        if abs(s @ h @ s.conj()) < 0.05 * np.abs(s) @ np.abs(h) @ np.abs(s):
            return True
    return False


def run(case):
    ev, viol, sigs = Events(), None, []
    stats = {'accuracies': 0, 'losses': 0, 'points': 0, 'skipped': 0}
    probes = {}
    faults = {}
    try:
        poly = world.ref_poly(case['variety'])
        variety = world.build_variety(case['variety'], cyjax)
        par0 = world.cplx(case['params'])
        n_par = len(par0)
        degree = case['degree'] if poly.n == 3 else 1
        if case['basis'] == 'reduced':
            sections = cyjax.donaldson.MonomialBasisReduced(variety, degree, par0)
        else:
            sections = cyjax.donaldson.MonomialBasisFull(poly.n - 1, degree)
        pows = np.asarray(sections.power_matrix)
        geo = ref.Geometry(poly, pows, degree)
        src = Source(case, poly, geo)
        metric = cyjax.donaldson.AlgebraicMetric(make_variety(variety, src), sections)
        hist = []
        for kind, op in case['ops']:
            src.op, src.log = op, []
            n = len(pows)
            if kind == 'sigma':
                bp, bh = op['params'], op['h']
                if bp and bh:
                    bh = bp
                shape = tuple(bp or bh)
                m = int(np.prod(shape)) if shape else 1
                hs = np.array([herm(op['seed'] + i, n, op['cond'], op['indefinite']) for i in range(m if bh else 1)])
                ps = np.array([par0 * (1 + 0.3 * i) for i in range(m if bp else 1)]).reshape(m if bp else 1, n_par)
                h_in = hs.reshape(tuple(bh) + (n, n))
                p_in = ps.reshape(tuple(bp) + (n_par,))
                fn = lambda k, p, h: metric.sigma_accuracy(k, p, h, op['count'])
                if op['jit']:
                    fn = jax.jit(fn)
                key = jax.random.PRNGKey(op['key'])
                got = np.asarray(guarded(fn, 'sigma_accuracy', key, jnp.asarray(p_in), jnp.asarray(h_in)))
                if got.shape != shape:
                    raise Violation('shape', f'the accuracy of moduli {bp} and matrices {bh} has shape {got.shape}')
                for i, g in enumerate(got.reshape(-1)):
                    p, h = ps[i if bp else 0], hs[i if bh else 0]
                    asked = [(w[2], w[3]) for w in src.log if np.allclose(w[1], p, rtol=1e-12, atol=0)]
                    if not asked:
                        raise Violation('points', f'no points were asked for at moduli {p.tolist()}')
                    if any(len(z) != op['count'] for z, _ in asked) or len({z.tobytes() for z, _ in asked}) != 1:
                        raise Violation('points', f'{[len(z) for z, _ in asked]} points were asked for, {op["count"]} are to be used')
                    zs, patch = asked[0]
                    w = np.array([geo.weight(z, int(q), p) for z, q in zip(zs, patch)])
                    e = etas(geo, h, zs, patch, p)
                    mean = abs(np.mean(e * w) / np.mean(w))
                    if op['indefinite'] and (fragile(geo, h, zs, patch) or mean < 1e-3 * np.max(np.abs(e))):
                        stats['skipped'] += 1
                        continue
                    ratio = np.max(np.abs(e)) / mean
                    probes['ratio above ten'] = probes.get('ratio above ten', 0) + bool(ratio > 10)
                    want = np.mean(np.abs(1 - e * np.mean(w) / np.mean(e * w)) * w) / np.mean(w)
                    stats['accuracies'] += 1
                    stats['points'] += len(zs)
                    if not abs(g - want) <= 1e-7 * (1 + abs(want)) * max(1, ratio):
                        raise Violation('accuracy', f'the accuracy at moduli {p.tolist()} is {g}, that of the {len(zs)} points is {want}')
                ev.add('sigma', world.summarise(np.round(got, 6)))
            else:
                bs = guarded(cyjax.ml.BatchSampler, 'BatchSampler', op['key'], metric.variety,
                             lambda k, c: jnp.asarray(par0)[None] * (1 + jax.random.uniform(k, (c, 1))),
                             op['n_par'], op['n_pts'], op['buffer'])
                for d in range(op['draws']):
                    sample = guarded(next, 'drawing a batch', bs)
                    hs = np.array([herm(op['seed'] + i, n, op['cond'], op['indefinite']) for i in range(op['n_par'])])
                    got = np.asarray(guarded(jax.vmap(cyjax.ml.variance_eta_loss, (0, 0, None)), 'variance_eta_loss', jnp.asarray(hs),
                                             sample, metric))
                    if got.shape != (op['n_par'],):
                        raise Violation('shape', f'the losses of {op["n_par"]} moduli have shape {got.shape}')
                    par = np.asarray(sample[0])
                    for i in range(op['n_par']):
                        found = [w for w in src.log if np.array_equal(w[2], np.asarray(sample[1][i]))]
                        if not found:
                            raise Violation('points', 'a batch contains points that were not delivered')
                        _, p, zs, patch, w = found[0]
                        if fragile(geo, hs[i], zs, patch):
                            stats['skipped'] += 1
                            continue
                        e = etas(geo, hs[i], zs, patch, p).real
                        mean = np.mean(w * e) / np.mean(w)
                        if abs(mean) < 1e-3 * np.max(np.abs(e)) or np.sum(w) == 0:
                            stats['skipped'] += 1
                            continue
                        want = np.mean(w * (e / mean - 1) ** 2) + np.mean(np.log(np.minimum(e, 0) ** 2 + 1))
                        stats['losses'] += 1
                        stats['points'] += len(zs)
                        if np.any(e < 0):
                            probes['negative volume ratio'] = probes.get('negative volume ratio', 0) + 1
                        if not abs(got[i] - want) <= 1e-7 * (1 + abs(want)):
                            raise Violation('loss', f'the loss at moduli {par[i].tolist()} is {got[i]}, that of the {len(zs)} points is {want}')
                    ev.add('loss', world.summarise(np.round(got, 6)))
                faults['weights-' + op['weights']] = faults.get('weights-' + op['weights'], 0) + 1
            faults['points-' + op['mode']] = faults.get('points-' + op['mode'], 0) + 1
            hist.append([kind, {k: v for k, v in op.items() if k not in ('key', 'seed')}])
        if stats['points'] > 1:
            sigs = [digest([case['variety'], degree, case['basis'], hist])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults={k: v for k, v in faults.items() if not k.endswith('plain')}, probes=probes, sigs=sigs,
                  summary=f'{stats["accuracies"]} accuracies, {stats["losses"]} losses')
