"""C05: ledger of every random key handed out over a history of random computations."""
import numpy as np

from ..core import digest, rng_for
from .. import world
from ..world import Events, Violation, result, guarded

ID = 'C05'
LEVEL = 'exploration'
RULE = ('A case is a history of key draws, batched integrations, volume computations, batch sampler creations, draws '
        'and refills, and Donaldson steps fed by one or two key sequences; it runs twice from fresh objects. '
        'Distinct and non-trivial: distinct sequences of operations with their sizes that put at least two keys in '
        'the ledger.')
COMPONENTS = {'real': ['cyjax.util.PRNGSequence', 'cyjax.util.mc_integrate_batched', 'cyjax.ml.BatchSampler',
                       'cyjax VarietySingle.compute_vol', 'cyjax AlgebraicMetric.donaldson_step', 'jax'],
              'simulated': ['point and moduli samplers, which report the key they receive to the ledger']}
ASSUMPTIONS = ['a key counts as derived from another if it is among its children for a split into up to 12 parts or '
               'into as many parts as a size used in the history, '
               'or a child of one of two or three children']
WALL = {'quick': 240, 'thorough': 2400}


def gen(rng):
    n_seq = rng.choice([1, 1, 2])
    ops = []
    focus = rng.choice(['any', 'any', 'seq', 'integrate', 'draw', 'donaldson'])
    for _ in range(rng.randrange(2, 12 if focus == 'any' else 9)):
        kind = focus if focus != 'any' and rng.random() < 0.7 else rng.choice(
            ['seq', 'integrate', 'vol', 'sampler', 'draw', 'draw', 'refill', 'donaldson'])
        q = rng.randrange(n_seq)
        if kind == 'seq':
            ops.append(['seq', q, rng.choice([1, 2, 5, 9])])
        elif kind in ('integrate', 'vol'):
            ops.append([kind, q, rng.choice([1, 2, 3, 4, 6, rng.choice([9, 17, 33])]), rng.choice([1, 2, 3])])
        elif kind == 'sampler':
            ops.append(['sampler', q, rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 4])])
        elif kind in ('draw', 'refill'):
            ops.append([kind, rng.randrange(3)])
        else:
            ops.append(['donaldson', q, rng.choice([1, 2, 3, 5, rng.choice([9, 17, 33])]), rng.choice([3, 4])])
    seed = rng.choice([rng.randrange(2 ** 31), rng.randrange(5), 0])
    return {'seeds': [seed, seed + rng.choice([1, 17, 2 ** 20])][:n_seq], 'as_key': rng.random() < 0.5, 'ops': ops,
            'jit': rng.random() < 0.25, 'shrinkable': ['ops']}


def plan(rng, tier):
    return [gen(rng) for _ in range(200 if tier == 'quick' else 3500)]


def setup(case):
    global jax, jnp, cyjax, Points
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_
    for n in (1, 2, 5):
        key = jax.random.PRNGKey(n)
        assert np.array_equal(split_all(key[None], n)[0], jax.random.split(key, n)), 'not the expected key splitting'

    class Points(cyjax.Dwork):
        """Reports the key it gets and returns arbitrary points."""
        ledger = None

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            self.ledger.add('points', key)
            self.ledger.sizes.add(count)
            r = jax.random.normal(jax.random.fold_in(key, 77), (4, count, self.dim_complex))
            zh = r[0] + 1j * r[1]
            w = jnp.abs(r[2, :, 0]) + 0.5
            pts = cyjax.hom_to_affine(zh) if affine else zh
            return (pts, w) if weights else pts


class Ledger:
    def __init__(self):
        self.keys, self.sizes = [], set()
        self.stage = 0

    def add(self, kind, key):
        """Called with a concrete or traced key by the simulated samplers."""
        jax.debug.callback(lambda k: self.note(kind, k), key)

    def note(self, kind, key):
        k = np.asarray(key)
        for row in k.reshape(-1, k.shape[-1]):
            self.keys.append((self.stage, kind, tuple(int(x) for x in row)))


def play(case, ev):
    led = Ledger()
    seqs = [guarded(cyjax.util.PRNGSequence, 'creating a key sequence',
                    jax.random.PRNGKey(s) if case['as_key'] else s) for s in case['seeds']]
    samplers, direct = [], []
    variety = Points(1)
    variety.ledger = led
    metric = cyjax.donaldson.AlgebraicMetric(variety, cyjax.donaldson.MonomialBasisFull(2, 1))
    par = jnp.asarray([0.4 + 0.1j])

    def fresh(q):
        return guarded(next, 'drawing a key', seqs[q])

    def moduli(key, n):
        led.add('moduli', key)
        r = jax.random.uniform(jax.random.fold_in(key, 78), (2, n, 1))
        return r[0] + 1j * r[1]

    wrap = jax.jit if case['jit'] else (lambda f: f)
    h = jnp.eye(metric.sections.size) + 0j
    for i, op in enumerate(case['ops']):
        led.stage = i
        kind = op[0]
        led.sizes.update(x for x in op[1:] if isinstance(x, int))
        if kind == 'seq':
            for _ in range(op[2]):
                led.note('sequence', np.asarray(fresh(op[1])))
        elif kind == 'integrate':
            def sample(key, count):
                return variety.sample_intersect(key, par, count, weights=True)
            out = guarded(wrap(lambda k: cyjax.util.mc_integrate_batched(
                k, op[2], op[3], lambda z: z[..., 0].real, sample, False)), 'batched integration', fresh(op[1]))
            jax.block_until_ready(out)
        elif kind == 'vol':
            out = guarded(wrap(lambda k: variety.compute_vol(k, par, op[2], op[3])), 'volume', fresh(op[1]))
            jax.block_until_ready(out)
        elif kind == 'sampler':
            samplers.append(guarded(cyjax.ml.BatchSampler, 'creating a batch sampler', fresh(op[1]), variety, moduli,
                                    op[3], op[4], op[2]))
        elif kind in ('draw', 'refill') and samplers:
            s = samplers[op[1] % len(samplers)]
            out = guarded(next if kind == 'draw' else type(s).new_buffer, kind, s)
            if out is not None:
                jax.block_until_ready(out)
        elif kind == 'donaldson':
            out = guarded(wrap(lambda k, h: metric.donaldson_step(k, h, par, 1.0, op[2], op[3])), 'Donaldson step',
                          fresh(op[1]), h)
            jax.block_until_ready(out)
        jax.effects_barrier()
    jax.effects_barrier()
    return led


def judge(led):
    seen = {}
    for stage, kind, k in led.keys:
        if k in seen:
            raise Violation('reused', f'{kind} in operation {stage} got the key already used for {seen[k]}')
        seen[k] = f'{kind} in operation {stage}'
    if not seen:
        return
    keys = np.array(list(seen), dtype=np.uint32)
    known = {k: i for i, k in enumerate(flatten(keys).tolist())}
    sizes = sorted(set(range(1, 13)) | {s for s in led.sizes if 1 <= s < 64})
    find(led, seen, keys, keys, known, sizes, '')
    for n in (2, 3):
        kids = split_all(keys, n)
        for c in range(n):
            find(led, seen, keys, kids[:, c], known, sizes[:6], f'child {c} of {n} of ')


def flatten(keys):
    return keys[..., 0].astype(np.uint64) << np.uint64(32) | keys[..., 1].astype(np.uint64)


def find(led, seen, keys, parents, known, sizes, how):
    for n in sizes:
        kids = flatten(split_all(parents, n))
        hit = np.argwhere(np.isin(kids, np.array(list(known), dtype=np.uint64)))
        if len(hit):
            p, c = hit[0]
            child = tuple(int(x) for x in keys[known[int(kids[p, c])]])
            raise Violation('derived', f'the key of {seen[child]} comes from splitting {how}the key of '
                                       f'{seen[tuple(int(x) for x in keys[p])]} into {n}')


def split_all(keys, n):
    """The children of every key when split into n, as jax.random.split computes them."""
    k0, k1 = (np.asarray(keys)[:, i].astype(np.uint32)[:, None] for i in (0, 1))
    x0, x1 = np.arange(n, dtype=np.uint32)[None], np.arange(n, 2 * n, dtype=np.uint32)[None]
    ks = (k0, k1, k0 ^ k1 ^ np.uint32(0x1BD11BDA))
    x0, x1 = x0 + ks[0], x1 + ks[1]
    for i in range(5):
        for r in ((13, 15, 26, 6), (17, 29, 16, 24))[i % 2]:
            x0 = x0 + x1
            x1 = (x1 << np.uint32(r) | x1 >> np.uint32(32 - r)) ^ x0
        x0, x1 = x0 + ks[(i + 1) % 3], x1 + ks[(i + 2) % 3] + np.uint32(i + 1)
    return np.concatenate([x0, x1], 1).reshape(len(k0), n, 2)


def run(case):
    ev = Events()
    viol, sigs = None, []
    stats = {'keys': 0}
    try:
        led = play(case, ev)
        stats['keys'] = len(led.keys)
        judge(led)
        again = play(case, ev)
        if sorted(led.keys) != sorted(again.keys):
            raise Violation('not-repeatable', 'the same seeds gave different keys the second time')
        ev.add(*sorted(led.keys))
        if len(led.keys) > 1:
            sigs = [digest([case['ops'], case['as_key'], case['jit']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    probes = {}
    for op in case['ops']:
        probes[op[0]] = probes.get(op[0], 0) + 1
    return result(ev, viol, stats=stats, probes=probes, sigs=sigs, summary=f'{stats["keys"]} keys')
