"""C10: Donaldson steps with degenerate points, and recovery of the iteration from disturbed states."""
import numpy as np

from ..core import digest, rng_for
from .. import ref, world
from ..world import Events, Violation, result, guarded

ID = 'C10'
LEVEL = 'exploration'
RULE = ('A case fixes a variety, a section basis, batch count and size, the starting matrix and which points of the '
        'source are degenerate and how; it performs either independent steps or an iteration history with corrupted, '
        'lost and repeated steps. Distinct and non-trivial: distinct (variety, basis, batches, size, kinds of '
        'degenerate points that occurred, history of disturbances).')
COMPONENTS = {'real': ['cyjax AlgebraicMetric.donaldson_step', 'section bases', 'variety sampling', 'jax loops'],
              'simulated': ['post-processing of the sampled points (degenerate weights and coordinates)',
                            'state transfer between iterations (corrupt, lose, repeat)']}
ASSUMPTIONS = ['enough non-degenerate points remain to determine the matrix',
               'with degenerate points both normalisations are accepted: by all points of a batch or by the '
               'non-degenerate ones',
               'in iteration cases the weights delivered differ by at most a factor 4, since the iteration need not '
               'converge when a few points dominate',
               'convergence is judged after at most 400 further fault-free steps']
WALL = {'quick': 240, 'thorough': 2400}
KINDS = ['w-nan', 'w-inf', 'w-neginf', 'z-nan', 'z-inf', 'both', 'z-nan-all', 'patch-edge']


def gen(rng, iterate):
    kind = rng.choice(['full', 'full', 'reduced'])
    spec = world.gen_variety(rng, dims=(1, 1, 1, 2) if not iterate else (1,), kinds=('dwork', 'dwork', 'fermat', 'sympy'))
    n = world.ref_poly(spec).n
    degree = rng.choice([1, 2]) if n == 3 else 1
    if kind == 'reduced' and n == 3:
        degree = rng.choice([2, 3])
    batches = rng.choice([1, 2, 3, 4])
    case = {'variety': spec, 'params': world.gen_params(rng, spec, 0.6), 'degree': degree, 'basis': kind,
            'batches': batches, 'size': (100 if iterate else 28) // batches + rng.randrange(6) + (4 if degree > 1 else 0),
            'key': rng.randrange(2 ** 31), 'h': rng.randrange(2 ** 31), 'cond': rng.choice([1, 3, 30]),
            'vol': rng.choice([1.0, 0.3, 7.5]), 'steps': 1, 'jit': rng.random() < 0.3,
            'degenerate': rng.choice([[], [rng.choice(KINDS)], rng.sample(KINDS, 2), rng.sample(KINDS, 4)]),
            'p': rng.choice([0.05, 0.15, 0.3]), 'deg_seed': rng.randrange(2 ** 31),
            'whole_batch': batches > 2 and rng.random() < 0.25, 'shrinkable': ['degenerate']}
    if iterate:
        ops = []
        for _ in range(rng.randrange(2, 7)):
            ops.append(rng.choice([['steps', rng.randrange(1, 6)], ['scale', rng.choice([1e-6, 0.1, 50.0, 1e5])],
                                   ['corrupt', rng.randrange(2 ** 31)], ['lost', rng.randrange(1, 4)],
                                   ['restart', rng.randrange(2 ** 31)], ['repeat', 1]]))
        case.update(ops=ops, shrinkable=['ops', 'degenerate'], whole_batch=False)
    else:
        case['steps'] = rng.choice([1, 1, 2])
    return case


def plan(rng, tier):
    a, b = (110, 60) if tier == 'quick' else (2200, 1200)
    out = [gen(rng, False) for _ in range(a)]
    for i in range(b):
        out.insert(2 * i, gen(rng, True))
    return out


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_


def pd_matrix(seed, n, cond):
    rng = np.random.default_rng(seed)
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, _ = np.linalg.qr(a)
    e = np.exp(rng.uniform(-0.5, 0.5, n) * np.log(cond) if cond > 1 else np.zeros(n))
    h = (q * e) @ q.conj().T
    return (h + h.conj().T) / 2


def make_source(variety, case, faults):
    """The same variety, whose sampled points pass through the simulator."""
    log = {}

    class Source(type(variety)):
        def __init__(self):
            self.__dict__.update(variety.__dict__)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            (zs, patch), w = super().sample_intersect(key, params, count, affine=True, weights=True)

            def host(key, zs, patch, w):
                zs, patch, w = np.array(zs), np.array(patch), np.array(w)
                name = np.asarray(key).tobytes().hex()
                if name not in log:
                    whole = case['whole_batch'] and not log
                    rng = rng_for('degenerate', case['deg_seed'], name)
                    if 'ops' in case:
                        # a few dominating points would not admit a balanced matrix
                        w = np.clip(w, np.median(w) / 2, np.median(w) * 2)
                    if case['degenerate']:
                        for i in range(len(w)):
                            if not whole and rng.random() >= case['p']:
                                continue
                            kind = rng.choice(case['degenerate'])
                            if kind in ('w-nan', 'both'):
                                w[i] = np.nan
                            if kind == 'w-inf':
                                w[i] = np.inf
                            if kind == 'w-neginf':
                                w[i] = -np.inf
                            if kind in ('z-nan', 'both'):
                                zs[i, rng.randrange(zs.shape[1])] = np.nan
                            if kind == 'z-nan-all':
                                zs[i] = np.nan
                                w[i] = np.nan
                            if kind == 'z-inf':
                                zs[i, rng.randrange(zs.shape[1])] = complex(np.inf, 0)
                            if kind == 'patch-edge':
                                w[i] = 0.0
                            faults[kind] = faults.get(kind, 0) + 1
                    log[name] = (zs, patch, w)
                return log[name]

            shapes = tuple(jax.ShapeDtypeStruct(x.shape, x.dtype) for x in (zs, patch, w))
            zs, patch, w = jax.pure_callback(host, shapes, key, zs, patch, w)
            pts = (zs, patch) if affine else cyjax.affine_to_hom(zs, patch)
            return (pts, w) if weights else pts

    return Source(), log


def reference(log, h, pows, degree, vol, batches):
    h = (h + h.conj().T) / 2
    n = len(h)
    sums = []
    good_total, drawn = 0, 0
    for zs, patch, w in log.values():
        T = np.zeros((n, n), complex)
        good = np.isfinite(w) & np.all(np.isfinite(zs), axis=1)
        for z, p, wi in zip(zs[good], patch[good], w[good]):
            s = np.prod(ref.insert_one(z, int(p))[None, :] ** pows, axis=1)
            T += wi * np.outer(s, s.conj()) / (s @ h @ s.conj()).real
        sums.append((T, good.sum(), len(w)))
    out = []
    for mode in ('all', 'good', 'pooled'):
        T = np.zeros((n, n), complex)
        for S, g, m in sums:
            if mode == 'all':
                T += S / m / batches
            elif mode == 'good' and g:
                T += S / g / batches
            elif mode == 'pooled':
                T += S / sum(x[1] for x in sums)
        out.append((np.linalg.inv(T * n / vol).T, np.linalg.cond(T)))
    return out


def shape_ok(h, n, what):
    h = np.asarray(h)
    if h.shape != (n, n):
        raise Violation('shape', f'{what} has shape {h.shape}')
    if not np.all(np.isfinite(h)):
        raise Violation('not-finite', f'{what} is not finite')
    if not ref.close(h, h.conj().T, 1e-7):
        raise Violation('hermitian', f'{what} is not Hermitian')
    if not np.linalg.eigvalsh((h + h.conj().T) / 2)[0] > 0:
        raise Violation('positive', f'{what} is not positive definite')


def normalised(h):
    h = np.asarray(h)
    return h / np.trace(h).real


def run(case):
    ev, faults, stats, probes = Events(), {}, {'steps': 0, 'points': 0}, {}
    viol, sigs, skip = None, [], None
    try:
        poly = world.ref_poly(case['variety'])
        params = world.cplx(case['params'])
        variety = world.build_variety(case['variety'], cyjax)
        source, log = make_source(variety, case, faults)
        if case['basis'] == 'full':
            sections = cyjax.donaldson.MonomialBasisFull(poly.n - 1, case['degree'])
        else:
            try:
                sections = cyjax.donaldson.MonomialBasisReduced(variety, case['degree'], params)
            except RuntimeError:
                sections = cyjax.donaldson.MonomialBasisFull(poly.n - 1, min(case['degree'], 2))
        pows = np.asarray(sections.power_matrix)
        n = len(pows)
        metric = cyjax.donaldson.AlgebraicMetric(source, sections)
        par = jnp.asarray(params) if len(params) else None
        batches, size = case['batches'], case['size']

        def step(key, h):
            return metric.donaldson_step(key, h, par, case['vol'], batches, size)

        key = jax.random.PRNGKey(case['key'])
        if 'ops' not in case:
            fn = jax.jit(step) if case['jit'] else step
            h = jnp.asarray(pd_matrix(case['h'], n, case['cond']))
            for k in range(case['steps']):
                log.clear()
                before = np.array(h)
                new = guarded(fn, 'Donaldson step', jax.random.fold_in(key, k), h)
                new = np.array(jax.block_until_ready(new))
                if not np.array_equal(before, np.asarray(h)):
                    raise Violation('operand', 'the step changed its input matrix')
                stats['steps'] += 1
                if len(log) != batches or any(len(x[2]) != size for x in log.values()):
                    raise Violation('batches', f'{batches} batches of {size} requested, points drawn: '
                                               f'{[len(x[2]) for x in log.values()]}')
                stats['points'] += batches * size
                good = sum(int((np.isfinite(x[2]) & (x[2] > 0) & np.all(np.isfinite(x[0]), axis=1)).sum())
                           for x in log.values())
                if good < n + 3:
                    skip = 'too few non-degenerate points'
                    break
                want = reference(log, before, pows, case['degree'], case['vol'], batches)
                if want[0][1] > 1e6:
                    skip = 'points do not determine the matrix'
                    break
                shape_ok(new, n, 'the new matrix')
                if not any(ref.close(new, w, 1e-6) for w, _ in want):
                    raise Violation('step', f'the new matrix differs from the weighted average over the non-degenerate '
                                            f'points by {np.max(np.abs(new - want[0][0])) / np.max(np.abs(new)):.2e} '
                                            f'({batches} batches of {size}, {sum(faults.values())} degenerate)')
                ev.add('step', world.summarise(new))
                h = jnp.asarray(new)
        else:
            fn = jax.jit(step)
            start = pd_matrix(case['h'], n, case['cond'])
            target, res = settle(fn, key, jnp.asarray(start), stats, n)
            good = sum(int((np.isfinite(x[2]) & (x[2] > 0) & np.all(np.isfinite(x[0]), axis=1)).sum())
                       for x in log.values())
            if target is None:
                if good < 2 * n + 4:
                    skip = 'too few non-degenerate points'
                else:
                    raise Violation('convergence', f'the iteration does not settle in 400 steps (last change {res:.1e})')
            else:
                ev.add('settled', world.summarise(target))
                h = jnp.asarray(start)
                previous = [h]
                for op in case['ops']:
                    probes[op[0]] = probes.get(op[0], 0) + 1
                    if op[0] == 'steps':
                        for _ in range(op[1]):
                            h = guarded(fn, 'Donaldson step', key, h)
                            stats['steps'] += 1
                            previous.append(h)
                    elif op[0] == 'lost':
                        for _ in range(op[1]):
                            guarded(fn, 'Donaldson step', key, h)
                            stats['steps'] += 1
                    elif op[0] == 'repeat':
                        h = previous[max(0, len(previous) - 2)]
                    elif op[0] == 'scale':
                        h = h * op[1]
                    elif op[0] == 'corrupt':
                        h = jnp.asarray(np.asarray(h) + pd_matrix(op[1], n, 10) * np.trace(np.asarray(h)).real)
                    elif op[0] == 'restart':
                        h = jnp.asarray(pd_matrix(op[1], n, 100))
                    if op[0] != 'steps':
                        faults['state:' + op[0]] = faults.get('state:' + op[0], 0) + 1
                    shape_ok(h, n, f'the matrix after {op}')
                end, res = settle(fn, key, h, stats, n)
                if end is None:
                    raise Violation('convergence', f'no recovery in 400 fault-free steps (last change {res:.1e})')
                if not ref.close(normalised(end), normalised(target), 1e-5):
                    raise Violation('convergence', 'recovered to a different matrix: '
                                                   f'{np.max(np.abs(normalised(end) - normalised(target))):.2e}')
        if not skip:
            sigs = [digest([case['variety']['kind'], poly.n, case['basis'], case['degree'], batches, size,
                            sorted(faults), case.get('ops'), case['jit']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, probes=probes, sigs=sigs, skip=skip,
                  summary=f'{stats["steps"]} steps, {sum(faults.values())} faults')


def settle(fn, key, h, stats, n):
    """Iterate until the matrix stops changing up to scale."""
    last = normalised(h)
    res = np.inf
    for i in range(400):
        h = guarded(fn, 'Donaldson step', key, h)
        stats['steps'] += 1
        if i % 5 == 4:
            shape_ok(h, n, f'the matrix after {i + 1} fault-free steps')
        cur = normalised(h)
        res = np.max(np.abs(cur - last))
        if not np.isfinite(res):
            raise Violation('not-finite', 'the iteration produced a matrix that is not finite')
        if res < 1e-9:
            return h, res
        last = cur
    return None, res
