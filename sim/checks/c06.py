"""C06: shared polynomials, varieties, bases and metrics under every thread interleaving."""
import numpy as np

from ..core import digest, rng_for
from .. import engine, ref, world
from ..world import Events, Violation, result

ID = 'C06'
LEVEL = 'exploration'
RULE = ('A case runs 2-4 real threads, one at a time, over fresh or used shared objects; the seed decides at which '
        'executed line which thread goes on, and some cases let one call run completely inside another one at '
        'each of its lines in turn. Every result is compared with that of the same call made alone on '
        'fresh objects. Distinct and non-trivial: distinct (calls per thread, sequence of switch locations) with at least one switch inside a call.')
COMPONENTS = {'real': ['cyjax.polynomial', 'cyjax.variety', 'cyjax.donaldson', 'sympy', 'jax in uncompiled mode',
                       'operating system threads'],
              'simulated': ['thread scheduler (one thread at a time, switches at executed lines)',
                            'locks created by the package']}
ASSUMPTIONS = ['switches happen at line boundaries of the package, not inside numpy, sympy or jax calls',
               'no switch inside a jax trace']
WALL = {'quick': 500, 'thorough': 3000}

POLY = ['poly', 'poly', 'polyb', 'affine', 'affine', 'diff', 'arith', 'coeffs', 'symbolic', 'univ', 'repr', 'from_poly', 'meta']
VAR = ['defining', 'defining', 'grad', 'grad', 'best', 'jac', 'fs', 'weights', 'solve', 'sample']
MET = ['sections', 'kahler_potential', 'metric', 'eta', 'eta', 'ricci_scalar', 'sigma', 'dstep', 'graph']


def gen(rng, focus):
    spec = world.gen_variety(rng, dims=(1, 1, 2), kinds=('dwork', 'sympy', 'sympy', 'fermat'))
    n_thr = rng.choice([2, 2, 2, 3, 4])
    group = {'poly': POLY, 'var': VAR, 'met': MET, 'any': POLY + VAR + MET}[focus]
    shared = rng.random() < 0.6         # all threads call the same few things
    few = rng.sample(group, min(2, len(group)))
    threads = []
    for _ in range(n_thr):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(few if shared else group)
            ops.append([kind, rng.randrange(2), rng.randrange(2 ** 31), rng.random() < 0.7])
            if rng.random() < 0.4:
                # as a call of another thread, with other values
                first = threads[0][0] if threads else ops[0]
                ops[-1] = [kind, first[1], first[2], first[3], rng.randrange(3)]
        threads.append(ops)
    if rng.random() < 0.3:
        # the same call everywhere, with different arguments
        kind = rng.choice(group)
        threads = [[[kind, rng.randrange(2), rng.randrange(2 ** 31), rng.random() < 0.8]] for _ in range(n_thr)]
    case = {'variety': spec, 'params': world.gen_params(rng, spec, 0.7), 'degree': 1 if rng.random() < 0.6 else 2,
            'seed': rng.randrange(2 ** 31), 'used': rng.random() < 0.25, 'threads': threads}
    if rng.random() < 0.7:
        # few preemptions, placed on lines of a dry run
        case['points'] = [[rng.randrange(n_thr) if k else 0, rng.random(), rng.random(), rng.randrange(1, n_thr)]
                          for k in range(rng.choice([1, 2, 2, 3, 4, 6]))]
    else:
        case['rand'] = [rng.randrange(2 ** 31), rng.choice([0.005, 0.03, 0.15, 0.5])]
    return case


def plan(rng, tier):
    n = 280 if tier == 'quick' else 4500
    out = [gen(rng, ['poly', 'var', 'met', 'any'][i % 4]) for i in range(n)]
    # pairs of calls that differ only in their values, on fresh objects, one complete inside the other at every line
    parts = {'affine': 2, 'arith': 2, 'from_poly': 2, 'univ': 2, 'solve': 3, 'sample': 6, 'eta': 3, 'metric': 2,
             'graph': 3, 'ricci_scalar': 4, 'weights': 2}
    kinds = [k for k in sorted(set(POLY + VAR + MET)) if k not in ('dstep', 'sigma')]
    sweeps = []
    for i in range(len(kinds) * (2 if tier == 'quick' else 12)):
        first = kinds[i % len(kinds)]
        c = gen(rng, 'any')
        while not c['params']:
            c = gen(rng, 'any')
        seed, aff = rng.randrange(2 ** 31), rng.random() < 0.9
        second = first if i < len(kinds) or rng.random() < 0.3 else rng.choice(kinds)
        c = {k: v for k, v in c.items() if k not in ('points', 'rand')}
        which = int(i >= len(kinds) and rng.random() < 0.4)
        c.update(used=i >= len(kinds) and rng.random() < 0.2,
                 threads=[[[first, 0, seed, aff]], [[second, which, seed, aff, 1]]])
        n = parts.get(first, 1)
        take = range(n) if i < len(kinds) or tier != 'quick' else [rng.randrange(n)]
        sweeps += [dict(c, sweep=[k, n]) for k in take]
    for i, c in enumerate(sweeps):
        out.insert(i * 3, c)
    return out


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True, eager=True, locks=True)
    import jax.numpy as jnp_
    jnp = jnp_
    engine.install()


class World:
    """The shared objects; two varieties over one polynomial, two metrics over one basis."""

    def __init__(self, case):
        self.v = [world.build_variety(case['variety'], cyjax)]
        self.v.append(cyjax.VarietySingle(self.v[0].defining_poly))
        self.n = self.v[0].dim_complex if hasattr(self.v[0], 'dim_complex') else world.ref_poly(case['variety']).n
        self.n = world.ref_poly(case['variety']).n
        deg = case['degree'] if self.n < 4 else 1
        self.sections = cyjax.donaldson.MonomialBasisFull(self.n - 1, deg)
        self.m = [cyjax.donaldson.AlgebraicMetric(v, self.sections) for v in self.v]
        par = world.cplx(case['params'])
        self.par = jnp.asarray(par) if len(par) else jnp.zeros((0,), complex)
        a = np.random.default_rng(case['seed'])
        k = self.sections.size
        h = a.normal(size=(k, k)) + 1j * a.normal(size=(k, k))
        self.h = jnp.asarray(h @ h.conj().T / k + np.eye(k))
        self.symbols = [str(s) for s in self.v[0].defining_poly.all_symbols(False, False)]


def canon(x):
    """Comparable form of a result: text and arrays."""
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, cyjax.Poly):
        rng = rng_for('canon', len(x.variable_names))
        args = []
        for idx in x.variable_indices:
            k = 1 if idx is None else len(idx)
            v = np.array([complex(rng.uniform(0.3, 1), rng.uniform(-1, 1)) for _ in range(k)])
            args.append(v[0] if idx is None else v)
        par = np.array([complex(rng.uniform(0.3, 1), rng.uniform(-1, 1)) for _ in x.parameters])
        return [[str(s) for s in x.variable_names], [None if i is None else [int(k) for k in i] for i in x.variable_indices],
                [str(s) for s in x.parameters], canon(np.asarray(x(*args, par)))]
    a = np.asarray(x)
    if a.dtype == object:
        return str(x)
    return a


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def make(w, op):
    """The call described by op, with its arguments prepared; returns a function."""
    kind, which, seed, aff = op[:4]
    salt = op[4] if len(op) > 4 else 0
    rng = np.random.default_rng(seed)
    v, m, p = w.v[which], w.m[which], w.v[which].defining_poly
    n, par, h = w.n, w.par + 0.05 * salt, w.h + 0.3 * salt * jnp.eye(len(w.h))
    patch = int(rng.integers(n)) if aff else None
    size = n if patch is None else n - 1
    pa = int(rng.integers(n))
    dep = int(rng.integers(n - 1))
    name = w.symbols[int(rng.integers(len(w.symbols)))]
    # calls with the same seed and another salt differ only in the values
    rng = np.random.default_rng([seed, salt])
    z = jnp.asarray(rng.uniform(0.3, 1, size) * np.exp(2j * np.pi * rng.random(size)))
    zb = jnp.asarray(rng.uniform(0.3, 1, (3, size)) * np.exp(2j * np.pi * rng.random((3, size))))
    zaff = jnp.asarray(rng.uniform(0.3, 1, n - 1) * np.exp(2j * np.pi * rng.random(n - 1)))
    key = jax.random.PRNGKey(seed % 1000 + salt)
    table = {
        'poly': lambda: p(z, par, patch=patch),
        'polyb': lambda: p.transform_eval()(zb, par, patch=patch),
        'affine': lambda: [p.affine_poly(pa), p.affine_poly(pa)(zaff, par)],
        'diff': lambda: str(p.diff(name)),
        'arith': lambda: [p * p, p + p, p * 2] if seed % 2 else [p.affine_poly(pa) * p.affine_poly(pa)],
        'coeffs': lambda: [np.asarray(p.to_coeffs_and_powers()[0]), str(p.to_coeffs_and_powers()[1])],
        'symbolic': lambda: str(p.sympy_poly.as_expr()),
        'univ': lambda: [c if isinstance(c, cyjax.Poly) else str(c) for c in cyjax.polynomial.univariate_coefficients(p, name)],
        'repr': lambda: [repr(p), repr(v)],
        'from_poly': lambda: cyjax.HomPoly.from_poly(p),
        'meta': lambda: [str(p.parameter_position), str(p.variable_position), str(p.variable_index_dict), str(p.all_symbols())],
        'defining': lambda: v.defining(z, par, patch),
        'grad': lambda: v.grad_defining(z, par, patch),
        'best': lambda: v.best_dependent(zaff, par, pa),
        'jac': lambda: v.jacobian_embed(zaff, par, pa, dep),
        'fs': lambda: v.induced_fs(zaff, par, pa),
        'weights': lambda: v.sample_intersect_weights(zaff, par, pa),
        'solve': lambda: v.solve_defining(zaff[1:], par, dep, pa),
        'sample': lambda: list(v.sample_intersect(key, par, 2, affine=True)) if aff else v.sample_intersect(key, par, 3),
        'sections': lambda: w.sections(zaff, pa, conj=bool(seed % 2)),
        'kahler_potential': lambda: m.kahler_potential(h, zaff, par, pa),
        'metric': lambda: m.metric(h, zaff, par, pa) if aff else m.metric(h, z, par),
        'eta': lambda: m.eta(h, zaff, par, pa) if aff else m.eta(h, z, par),
        'ricci_scalar': lambda: m.ricci_scalar(h, zaff, par, pa),
        'sigma': lambda: m.sigma_accuracy(key, par, h, 4),
        'dstep': lambda: m.donaldson_step(key, h, par, 1.0, 2, 3),
        'graph': lambda: [getattr(cyjax.donaldson.GeometricObjects(h, zaff, par, v, w.sections, pa), q)
                          for q in ('g_loc', 'kahler', 'grad_def')],
    }
    return table[kind]


def alone(case, ops):
    """Results and event locations of the calls made alone on fresh objects."""
    out, n, locs = [], [], []
    w = World(case)
    with engine.Recorder() as rec:
        for op in ops:
            fn = make(w, op)
            try:
                out.append(('ok', canon(fn())))
            except Exception as e:
                out.append(('failed', type(e).__name__))
    return out, rec.locs


def schedule(case, want, preempt, rng, p, ev, stats, faults):
    """One interleaving on fresh objects; returns its switches."""
    n = len(case['threads'])
    w = World(case)
    if case['used']:
        for op in case['threads'][0]:
            try:
                make(w, op)()
            except Exception:
                pass
    got = [[None] * len(ops) for ops in case['threads']]

    def body(t):
        for i, op in enumerate(case['threads'][t]):
            fn = make(w, op)
            try:
                got[t][i] = ('ok', canon(fn()))
            except engine.Deadlock:
                raise
            except Exception as e:
                got[t][i] = ('failed', f'{type(e).__name__}: {str(e)[:200]}')
    sched = engine.Scheduler([lambda t=t: body(t) for t in range(n)], preempt, rng=rng, p_switch=p)
    try:
        sched.run()
    except engine.Deadlock as e:
        raise Violation('stuck', str(e))
    except engine.Unjudgeable:
        stats['unjudged'] += 1
        return []
    switches = [list(s) for s in sched.switches]
    stats['interleavings'] += 1
    stats['calls'] += sum(map(len, case['threads']))
    stats['switches'] += len(switches)
    stats['lines'] += sched.steps
    faults['preemption'] += len(switches)
    ev.add('switches', switches, sched.count)
    try:
        for t in range(n):
            if sched.errors[t] is not None:
                if isinstance(sched.errors[t], engine.Deadlock):
                    raise Violation('stuck', f'threads wait for each other: {sched.errors[t]}')
                raise sched.errors[t]
            for i, op in enumerate(case['threads'][t]):
                a, b = want[t][i], got[t][i]
                ev.add(t, op[0], b[0])
                if a[0] == 'failed':
                    continue
                if b[0] == 'failed':
                    raise Violation('call-failed', f'{op[0]} in thread {t} raised {b[1]}; alone it returns normally')
                if not same(a[1], b[1]):
                    raise Violation('wrong-result', f'{op[0]} in thread {t} returned {str(b[1])[:300]}, alone it returns {str(a[1])[:300]}')
    except Violation as v:
        v.switches = switches
        raise
    return switches


def run(case):
    ev, viol, sigs = Events(), None, []
    stats = {'threads': len(case['threads']), 'interleavings': 0, 'calls': 0, 'switches': 0, 'unjudged': 0, 'lines': 0}
    faults = {'preemption': 0}
    switches = []

    def sig():
        return digest([[op[0] for ops in case['threads'] for op in ops], [[s[0], s[2], s[3]] for s in switches]])
    try:
        want, locs = [], []
        for ops in case['threads']:
            # every call alone on fresh objects; the run of the whole thread gives the lines to preempt at
            want.append([alone(case, [op])[0][0] for op in ops])
            locs.append(alone(case, ops)[1])
        n = len(case['threads'])
        args = ev, stats, faults
        if case.get('preempt') is not None:
            preempt = {}
            for t, k, u in case['preempt']:
                preempt.setdefault(t, {})[k] = u
            switches = schedule(case, want, preempt, None, 0.0, *args)
        elif 'sweep' in case:
            # the second thread runs completely at each line of the first one, every line in turn
            occ = {}
            for i, l in enumerate(locs[0]):
                occ.setdefault(l, []).append(i + 1)
            at = sorted({o[0] for o in occ.values()} | {o[-1] for o in occ.values()})
            for k in at[case['sweep'][0]::case['sweep'][1]]:
                switches = schedule(case, want, {0: {k: 1}}, None, 0.0, *args)
                if switches:
                    sigs.append(sig())
        elif 'points' in case:
            preempt = {}
            for t, f, o, d in case['points']:
                k = engine.pick_event(locs[t], f, o)
                if k is not None:
                    preempt.setdefault(t, {})[k] = (t + d) % n
            switches = schedule(case, want, preempt, None, 0.0, *args)
        else:
            p = max(case['rand'][1], 4 / (1 + len(locs[0])))
            switches = schedule(case, want, {}, rng_for('switch', case['rand'][0]), p, *args)
        if switches and not sigs:
            sigs = [sig()]
    except Violation as v:
        viol = v
        switches = getattr(v, 'switches', switches)
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs, switches=switches[:4000],
                  summary=f'{stats["threads"]} threads, {stats["interleavings"]} interleavings, {stats["switches"]} switches')


def shrink(case, res):
    if case.get('preempt') is None:
        c = {k: v for k, v in case.items() if k not in ('points', 'rand', 'sweep')}
        c['preempt'] = [s[:3] for s in res.get('switches', []) if s[3] != 'lock']
        yield c
        return
    pre = case['preempt']
    size = max(1, len(pre) // 2)
    while pre:
        for i in range(0, len(pre), size):
            yield dict(case, preempt=pre[:i] + pre[i + size:])
        if size == 1:
            break
        size //= 2
    for t, ops in enumerate(case['threads']):
        for i in range(len(ops)):
            yield dict(case, threads=[o if k != t else o[:i] + o[i + 1:] for k, o in enumerate(case['threads'])])
    if case['used']:
        yield dict(case, used=False)
