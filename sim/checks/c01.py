"""C01: the buffered batch stream is a function of the seed alone."""
import numpy as np

from ..core import rng_for, digest
from .. import ref, world
from ..world import Events, Violation, result, guarded

ID = 'C01'
LEVEL = 'exploration'
RULE = ('A case is a seeded history of draws, explicit refills and other uses over 1-3 batch samplers that may '
        'share a variety and a seed. Non-trivial and distinct: distinct (buffer sizes, batch sizes, '
        'interleaving of operations up to sampler renaming) in which at least one refill boundary is crossed.')
COMPONENTS = {'real': ['cyjax.ml.BatchSampler', 'cyjax.util.PRNGSequence',
                       'cyjax variety sampling (in the cases with a real variety)', 'jax'],
              'simulated': ['point source of the remaining cases (encodes its key and modulus in the points)']}
ASSUMPTIONS = ['single process, cpu backend', 'the moduli sampler is a pure function of its key']
WALL = {'quick': 240, 'thorough': 2400}


def gen(rng, real):
    n = rng.choice([1, 1, 2, 2, 3])
    shared_seed = rng.random() < 0.3
    base = rng.randrange(2 ** 31)
    samplers = []
    for i in range(n):
        samplers.append({
            'seed': base if shared_seed else rng.randrange(2 ** 31),
            'key_seed': rng.random() < 0.3,
            'buffer': rng.choice([1, 1, 2, 3, 4, 7]),
            'n_par': rng.choice([1, 2, 3]),
            'n_pts': rng.choice([1, 3, 4, 5]) if real else rng.choice([1, 2, 5, 8])})
        if shared_seed:
            samplers[i]['n_par'] = samplers[0]['n_par']
            samplers[i]['n_pts'] = samplers[0]['n_pts']
            samplers[i]['key_seed'] = samplers[0]['key_seed']
    if rng.random() < 0.5:
        for s in samplers[1:]:
            s['n_par'], s['n_pts'] = samplers[0]['n_par'], samplers[0]['n_pts']
    for s in samplers:
        s['v'] = 0 if rng.random() < 0.6 else 1
    ops = []
    length = rng.randrange(4, 9 if real else 40)
    p_refill = rng.choice([0, 0, 0.05, 0.2])
    p_use = rng.choice([0, 0.1, 0.3]) if real else 0
    burst = rng.choice([1, 1, 3, 6])
    while len(ops) < length:
        r = rng.random()
        i = rng.randrange(n)
        if r < p_refill:
            ops.append([i, 'refill'])
        elif r < p_refill + p_use:
            ops.append([i, rng.choice(['sample', 'defining', 'weights'])])
        else:
            ops += [[i, 'next']] * rng.randrange(1, burst + 1)
    case = {'real': real, 'samplers': samplers, 'ops': ops, 'ref_buffer': rng.choice([0, 1, 2, 5]),
            'shared': rng.random() < 0.7, 'shrinkable': ['ops']}
    if real:
        case['varieties'] = [world.gen_variety(rng, dims=(1,)) for _ in range(2)]
    return case


def gen_long(rng):
    """Buffers of realistic size, emptied several times."""
    case = gen(rng, False)
    case['samplers'] = case['samplers'][:2]
    for s in case['samplers']:
        s['buffer'] = rng.choice([10, 20, 33, 50, 64, 100, 128])
    case['ops'] = []
    for _ in range(rng.choice([2, 3, 5])):
        for i, s in enumerate(case['samplers']):
            case['ops'] += [[i, 'next']] * rng.randrange(1, 2 * s['buffer'])
        if rng.random() < 0.2:
            case['ops'].append([rng.randrange(len(case['samplers'])), 'refill'])
    return case


def plan(rng, tier):
    stub, real = (260, 26) if tier == 'quick' else (3000, 300)
    cases = [gen(rng, False) for _ in range(stub)] + [gen_long(rng) for _ in range(stub // 16)]
    rng.shuffle(cases)
    for i in range(real):
        cases.insert(i * (len(cases) // real), gen(rng, True))
    return cases


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_


def make_stub(tag):
    """Point source: encodes its tag and the key and modulus it received into the points it returns."""

    class StubVariety(cyjax.Dwork):
        def sample_intersect_weights(self, zs, params, patch, *_, **__):
            return 2 + 10 * tag + zs[..., 2].real + jnp.expand_dims(params[..., 0].imag, range(params.ndim - 1, zs.ndim - 1))

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            k = jnp.asarray(key).astype(jnp.float64).reshape(-1)
            u = jax.random.uniform(key, (count,))
            zs = jnp.stack([k[0] + 0 * u, k[1] + 0 * u, u, jnp.arange(count) + 0 * u], -1) + 0j
            zs = zs.at[:, 3].add(1j * params[0].real)
            patch = (jnp.arange(count) + k[1].astype(int)) % 3
            w = self.sample_intersect_weights(zs, params, patch)
            pts = (zs, patch) if affine else jax.vmap(lambda z, c: cyjax.affine_to_hom(z, c))(zs, patch)
            return (pts, w) if weights else pts

    return StubVariety(3)


def make_param_sampler(n_par, scale=0.6):
    def sampler(key, count):
        r = jax.random.uniform(key, (2, count, n_par), minval=-scale, maxval=scale)
        return r[0] + 1j * r[1]
    return sampler


def check_stub(batch, s):
    par, zs, patch, w = [np.asarray(a) for a in batch]
    if par.shape != (s['n_par'], 1) or zs.shape != (s['n_par'], s['n_pts'], 4) \
            or patch.shape != (s['n_par'], s['n_pts']) or w.shape != (s['n_par'], s['n_pts']):
        raise Violation('shape', f'{par.shape} {zs.shape} {patch.shape} {w.shape} for {s}')
    if not np.allclose(zs[..., 3].imag, par[:, :1].real):
        raise Violation('misaligned', 'points of a modulus were sampled for another modulus')
    if not np.allclose(w, 2 + 10 * s['v'] + zs[..., 2].real + par[:, :1].imag):
        raise Violation('weights', 'weights do not belong to the points')
    if not np.array_equal(patch, (zs[..., 3].real.astype(int) + zs[..., 1].real.astype(int)) % 3):
        raise Violation('patch', 'patch indices do not belong to the points')


def check_real(batch, s, poly):
    par, zs, patch, w = [np.asarray(a) for a in batch]
    n = poly.n
    if par.shape != (s['n_par'], poly.n_par) or zs.shape != (s['n_par'], s['n_pts'], n - 1) \
            or patch.shape != (s['n_par'], s['n_pts']) or w.shape != (s['n_par'], s['n_pts']):
        raise Violation('shape', f'{par.shape} {zs.shape} {patch.shape} {w.shape} for {s}')
    geo = ref.Geometry(poly, np.zeros((1, n), int), 1)
    for i in range(s['n_par']):
        for j in range(s['n_pts']):
            p = int(patch[i, j])
            zh = ref.insert_one(zs[i, j], p)
            res = abs(poly(zh, par[i])) / poly.magnitude(zh, par[i])
            if not res < 1e-7:
                raise Violation('off-variety', f'relative residual {res:.2e} at modulus {i} point {j}')
            wr = geo.weight(zs[i, j], p, par[i])
            if not abs(w[i, j] - wr) <= 1e-6 * abs(wr):
                raise Violation('weights', f'weight {w[i, j]} but formula gives {wr}')


def run(case):
    ev = Events()
    stats = {'draws': 0, 'refills_crossed': 0}
    probes = {}
    viol = None
    sig = None
    try:
        real = case['real']
        if real:
            polys = [world.ref_poly(v) for v in case['varieties']]
        else:
            polys = [None, None]
        n_pars = [p.n_par if real else 1 for p in polys]

        def build(v):
            return world.build_variety(case['varieties'][v], cyjax) if real else make_stub(v)

        shared = [build(v) for v in range(2)]
        psamplers = {n: make_param_sampler(n) for n in sorted(set(n_pars))}

        def make(s, buffer):
            variety = shared[s['v']] if case['shared'] else build(s['v'])
            seed = jax.random.PRNGKey(s['seed']) if s['key_seed'] else s['seed']
            return cyjax.ml.BatchSampler(seed, variety, psamplers[n_pars[s['v']]], s['n_par'], s['n_pts'], buffer)

        samplers = [guarded(make, 'creating a sampler', s, s['buffer']) for s in case['samplers']]
        streams = [[] for _ in samplers]      # delivered batches with the refills before them
        refills = [0] * len(samplers)
        for i, op in case['ops']:
            if i >= len(samplers):
                continue
            s = case['samplers'][i]
            if op == 'next':
                b = guarded(next, 'drawing a batch', samplers[i])
                b = tuple(np.array(a) for a in b)
                if len(b) != 4:
                    raise Violation('shape', f'batch has {len(b)} parts')
                check_real(b, s, polys[s['v']]) if real else check_stub(b, s)
                streams[i].append((b, refills[i]))
                refills[i] = 0
                stats['draws'] += 1
                ev.add('next', i, *[world.summarise(a) for a in b])
            elif op == 'refill':
                guarded(samplers[i].new_buffer, 'explicit refill')
                refills[i] += 1
                ev.add('refill', i)
                probes['explicit_refill'] = probes.get('explicit_refill', 0) + 1
            elif real:
                par = jnp.asarray(np.full((n_pars[s['v']],), 0.2 + 0.1j))
                obj = shared[s['v']]
                if op == 'sample':
                    out = guarded(obj.sample_intersect, 'sampling', jax.random.PRNGKey(i), par, 3)
                elif op == 'defining':
                    out = guarded(obj.defining, 'evaluating', jnp.ones(polys[s['v']].n) + 0j, par)
                else:
                    zs, p = obj.sample_intersect(jax.random.PRNGKey(3), par, 2, True)
                    out = guarded(obj.sample_intersect_weights, 'weights', zs, par, p)
                ev.add(op, world.summarise(out))
                probes['other_use'] = probes.get('other_use', 0) + 1
            crossed = len(streams[i]) and len(streams[i]) % s['buffer'] == 0
            stats['refills_crossed'] += bool(crossed)

        # reference: an undisturbed sampler with different buffering
        for i, s in enumerate(case['samplers']):
            need = len(streams[i]) + sum(r for _, r in streams[i]) * s['buffer'] + 1
            buf = case['ref_buffer'] or need + 1
            if buf == s['buffer']:
                buf += 1
            other = guarded(make, 'creating a sampler', s, buf)
            want = []
            pos = -1
            seen = {}
            for b, jumps in streams[i]:
                d = digest([a.tobytes().hex() for a in b])
                if d in seen:
                    raise Violation('repeat', f'sampler {i} delivered batch {seen[d]} again as {len(seen)}')
                seen[d] = len(seen)
                limit = pos + 1 + jumps * s['buffer']
                while len(want) <= limit:
                    want.append(tuple(np.array(a) for a in guarded(next, 'drawing a batch', other)))
                for q in range(pos + 1, limit + 1):
                    if all(ref.close(x, y, 1e-12, 1e-13) for x, y in zip(b, want[q])):
                        pos = q
                        break
                else:
                    where = [q for q in range(len(want))
                             if all(ref.close(x, y, 1e-12, 1e-13) for x, y in zip(b, want[q]))]
                    raise Violation('stream', f'sampler {i} buffer {s["buffer"]}: delivery {seen[d]} should be one of '
                                              f'batches {pos + 1}..{limit} of the stream, is batch {where or "unknown"} '
                                              f'(reference buffer {buf})')
        if stats['refills_crossed']:
            sig = digest([[(s['buffer'], s['n_par'], s['n_pts'], s['v']) for s in case['samplers']], case['ops'],
                          [v['kind'] for v in case.get('varieties', [])]])
    except Violation as v:
        viol = v
        ev.add('violation', v.kind, v.detail)
    return result(ev, viol, stats=stats, probes=probes, sigs=[sig] if sig else [],
                  summary=f'{stats["draws"]} draws, {stats["refills_crossed"]} refill boundaries')
