"""C02: the batch stream survives failed and interrupted refills."""
import numpy as np

from ..core import digest
from .. import engine, ref, world
from ..world import Events, Violation, result, guarded

ID = 'C02'
LEVEL = 'fault_enumeration'
RULE = ('A case is a history of draws on one batch sampler with exceptions injected at executed lines of the '
        'package, in the moduli sampler, in the point source or in the device transfer. Every case first runs '
        'fault free to learn the lines each draw executes. Distinct and non-trivial: distinct (fault kind, '
        'exception, place where it fired, buffer size, position in the buffer) that actually fired; a part of the cases enumerates '
        'all lines of one refill.')
COMPONENTS = {'real': ['cyjax.ml.BatchSampler', 'cyjax.util.PRNGSequence', 'cyjax variety sampling (some cases)', 'jax (eager mode)'],
              'simulated': ['point source (most cases)', 'moduli sampler', 'device transfer failures', 'interrupt delivery']}
ASSUMPTIONS = ['interrupts are delivered between lines of the package, as CPython does between bytecodes',
               'compilation disabled so that the body of the sampling function is executed on every draw']
WALL = {'quick': 240, 'thorough': 2400}

EXCS = ['interrupt', 'memory', 'runtime']


def gen(rng, real=False):
    buffer = rng.choice([1, 1, 2, 3, 4, 6])
    length = rng.randrange(3, 6 if real else 26)
    n_faults = rng.choice([1, 1, 1, 2, 3, 5])
    faults = []
    for _ in range(n_faults):
        kind = rng.choice(['line', 'line', 'line', 'moduli', 'points', 'transfer'])
        f = {'draw': rng.randrange(length), 'kind': kind, 'exc': rng.choice(EXCS),
             'f_loc': rng.random(), 'f_occ': rng.random(), 'nth': rng.randrange(1, 2 + buffer * (4 if kind == 'transfer' else 1))}
        faults.append(f)
        # a run of consecutive failing attempts of the same draw
        while rng.random() < 0.25:
            f = dict(f, f_loc=rng.random(), f_occ=rng.random())
            faults.append(f)
    case = {'buffer': buffer, 'length': length, 'seed0': rng.randrange(2 ** 31), 'n_par': rng.choice([1, 2]),
            'n_pts': rng.choice([1, 3]), 'faults': faults, 'real': real, 'shrinkable': ['faults']}
    if real:
        case['variety'] = world.gen_variety(rng, dims=(1,), kinds=('dwork', 'fermat'))
    return case


def enumerate_refill(rng, tier):
    """One fault at every line executed by the draw that refills, for small buffers."""
    out = []
    for buffer in (1, 2, 3):
        for exc in EXCS[:1] if tier == 'quick' else EXCS:
            for draw in (buffer - 1, buffer):
                out.append({'buffer': buffer, 'length': 2 * buffer + 2, 'seed0': rng.randrange(2 ** 31), 'n_par': 1,
                            'n_pts': 1, 'real': False, 'enumerate': {'draw': draw, 'exc': exc}, 'faults': [],
                            'shrinkable': []})
    return out


def plan(rng, tier):
    n, real = (300, 12) if tier == 'quick' else (4000, 150)
    cases = enumerate_refill(rng, tier) + [gen(rng) for _ in range(n)]
    for i in range(real):
        cases.insert(2 * i, gen(rng, True))
    return cases


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True, eager=True)
    import jax.numpy as jnp_
    jnp = jnp_
    engine.install()


class Seams:
    """User-supplied parts of the sampler; each can be told to fail at its n-th use."""

    def __init__(self):
        self.arm = None
        self.uses = {'moduli': 0, 'points': 0, 'transfer': 0}
        self.fired = None

    def set(self, kind=None, nth=None, exc=None):
        self.arm = (kind, nth, exc) if kind else None
        self.uses = {'moduli': 0, 'points': 0, 'transfer': 0}
        self.fired = None

    def use(self, kind):
        self.uses[kind] += 1
        if self.arm and self.arm[0] == kind and self.arm[1] == self.uses[kind] and not self.fired:
            self.fired = f'{kind}#{self.arm[1]}'
            raise engine.EXC[self.arm[2]](f'injected in {kind}')


def make_stub(seams):
    class StubVariety(cyjax.Dwork):
        def sample_intersect_weights(self, zs, params, patch, *_, **__):
            return zs[..., 0].real + 1

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            seams.use('points')
            zs = jax.random.uniform(key, (count, 3)) + 1j * params[0]
            patch = jnp.arange(count)
            w = self.sample_intersect_weights(zs, params, patch)
            pts = (zs, patch) if affine else jax.vmap(lambda z, c: cyjax.affine_to_hom(z, c))(zs, patch)
            return (pts, w) if weights else pts

    return StubVariety(2)


def make_real(variety, seams):
    class RealVariety(type(variety)):
        def __init__(self):
            self.__dict__.update(variety.__dict__)

        def sample_intersect(self, *a, **k):
            seams.use('points')
            return super().sample_intersect(*a, **k)

    return RealVariety()


def freeze(b):
    return tuple(np.array(a) for a in b)


def same(a, b):
    return len(a) == len(b) and all(ref.close(x, y, 1e-12, 1e-13) for x, y in zip(a, b))


def simulate(case, faults, ev, faultmap, sigs, stats):
    """Run one history; returns nothing, raises Violation."""
    seams = Seams()
    n_par = 1
    if case['real']:
        spec = case['variety']
        variety = make_real(world.build_variety(spec, cyjax), seams)
        n_par = world.ref_poly(spec).n_par
    else:
        variety = make_stub(seams)

    def psampler(key, count):
        seams.use('moduli')
        r = jax.random.uniform(key, (2, count, max(n_par, 1)), minval=-.5, maxval=.5)
        return (r[0] + 1j * r[1])[:, :n_par]

    real_put = jax.device_put

    def put(x, *a, **k):
        seams.use('transfer')
        return real_put(x, *a, **k)

    def make():
        return cyjax.ml.BatchSampler(case['seed0'], variety, psampler, case['n_par'], case['n_pts'], case['buffer'])

    jax.device_put = put
    try:
        seams.set()
        sampler = guarded(make, 'creating a sampler')
        plain = guarded(make, 'creating a sampler')
        want, locs = [], []
        total = case['length'] + len(faults) + 2
        for _ in range(total):
            with engine.Recorder() as rec:
                want.append(freeze(guarded(next, 'fault-free draw', plain)))
            locs.append(rec.locs)
        pos = -1          # position in the fault-free stream of the last delivered batch
        lost = 0          # faults fired so far that have not yet cost a batch
        for d in range(case['length']):
            for f in [f for f in faults if f['draw'] == d]:
                fired = None
                at = None
                if f['kind'] == 'line':
                    # lines executed by the draw that will happen now, by position in the buffer
                    at = f.get('at') or engine.pick_event(locs[min(pos + 1, total - 1)], f['f_loc'], f['f_occ'])
                    seams.set()
                    inj = engine.Injector(at, f['exc'])
                else:
                    seams.set(f['kind'], f['nth'], f['exc'])
                    inj = engine.Recorder(keep=False)
                try:
                    with inj:
                        got = next(sampler)
                    failed = None
                except engine.Injected as e:
                    failed = e
                except BaseException as e:
                    if getattr(inj, 'fired', None) or seams.fired:
                        failed = e           # the fault surfaced as another error
                    else:
                        raise Violation('unusable', f'draw {d} raised {type(e).__name__}: {e} although nothing was injected')
                fired = getattr(inj, 'fired', None) or seams.fired
                seams.set()
                if fired:
                    key = f'{f["kind"]}:{f["exc"]}'
                    faultmap[key] = faultmap.get(key, 0) + 1
                    sigs.add(digest([f['kind'], f['exc'], fired, case['buffer'], d % case['buffer'], case['real']]))
                    ev.add('fault', d, f['kind'], f['exc'], fired, 'raised' if failed else 'swallowed')
                    lost += 1
                if failed is None:
                    pos, lost = accept(freeze(got), want, pos, lost, d, ev, stats)
            try:
                got = next(sampler)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt) and not isinstance(e, engine.Injected):
                    raise
                raise Violation('unusable', f'after faults stopped, draw {d} raised {type(e).__name__}: {str(e)[:200]}')
            pos, lost = accept(freeze(got), want, pos, lost, d, ev, stats)
    finally:
        jax.device_put = real_put


def accept(b, want, pos, lost, d, ev, stats):
    stats['draws'] = stats.get('draws', 0) + 1
    for q in range(pos + 1, min(len(want), pos + 2 + lost)):
        if same(b, want[q]):
            ev.add('draw', d, q)
            stats['batches_lost_to_faults'] = stats.get('batches_lost_to_faults', 0) + q - pos - 1
            return q, lost - (q - pos - 1)
    where = [q for q in range(len(want)) if same(b, want[q])]
    kind = 'repeat' if where and where[0] <= pos else 'stream'
    raise Violation(kind, f'draw {d} delivered batch {where or "not in the fault-free stream"}; expected one of '
                          f'{pos + 1}..{pos + 1 + lost}')


def run(case):
    ev, faultmap, sigs, stats = Events(), {}, set(), {}
    viol = None
    try:
        en = case.get('enumerate')
        if en:
            probe = dict(case, length=en['draw'] + 1)
            simulate(probe, [], ev, faultmap, sigs, stats)
            n = count_events(case, en['draw'])
            for at in range(1, n + 1):
                f = {'draw': en['draw'], 'kind': 'line', 'exc': en['exc'], 'at': at, 'f_loc': 0, 'f_occ': 0}
                try:
                    simulate(case, [f], ev, faultmap, sigs, stats)
                except Violation as v:
                    v.detail += f' (fault at event {at} of {n} of draw {en["draw"]})'
                    raise
            stats['refill_lines_enumerated'] = n
        else:
            simulate(case, case['faults'], ev, faultmap, sigs, stats)
    except Violation as v:
        viol = v
        ev.add('violation', v.kind, v.detail)
    return result(ev, viol, faults=faultmap, sigs=sorted(sigs), stats=stats,
                  summary=f'{stats.get("draws", 0)} draws, {sum(faultmap.values())} faults fired')


def count_events(case, draw):
    s = Seams()
    b = cyjax.ml.BatchSampler(
        case['seed0'], make_stub(s), lambda k, n: jax.random.uniform(k, (n, 1)) + 0j,
        case['n_par'], case['n_pts'], case['buffer'])
    n = 0
    for _ in range(draw + 1):
        with engine.Recorder(keep=False) as rec:
            next(b)
        n = rec.n
    return n
