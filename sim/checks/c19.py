"""C19: calls made inside compiled, vectorised or differentiated functions leave nothing behind."""
import numpy as np

from ..core import digest
from .. import engine, world
from ..world import Events, Violation, result

ID = 'C19'
LEVEL = 'exploration'
RULE = ('A case is a history of calls on shared objects, each made directly or inside a function that is being '
        'compiled, vectorised, scanned, differentiated or only traced for its shape; traces are aborted by an '
        'exception of the surrounding function or at an executed line. Every value is compared with the direct call '
        'on fresh objects. Distinct and non-trivial: distinct sequences of (call, mode) with at least one traced call '
        'followed by another call.')
COMPONENTS = {'real': ['cyjax.polynomial', 'cyjax.variety', 'cyjax.donaldson', 'cyjax.ml.BatchSampler', 'jax with compilation'],
              'simulated': ['functions surrounding the calls', 'exceptions that abort a trace']}
ASSUMPTIONS = ['objects are created outside of traces', 'indices of charts and eliminated coordinates that select '
               'symbols are not traced']
WALL = {'quick': 400, 'thorough': 3000}

POLY = ['poly', 'polyb', 'polytr', 'affine', 'diff', 'mul', 'univ', 'convert']
VAR = ['defining', 'grad', 'best', 'jac', 'fs', 'weights', 'solve', 'sample', 'sample', 'sampleaff', 'vol', 'integrate']
MET = ['sections', 'kahler', 'metric', 'eta', 'ricci', 'sigma', 'dstep', 'graph', 'loss', 'batch']
# values of these modes are compared, the others only leave their traces behind
VALUE = ['plain', 'plain', 'plain', 'jit', 'const', 'vmap', 'scan', 'jvp', 'nested']
SILENT = ['shape', 'abort', 'inject']


def gen(rng, focus):
    spec = world.gen_variety(rng, dims=(1, 1, 2), kinds=('dwork', 'sympy', 'sympy', 'fermat'))
    group = {'poly': POLY, 'var': VAR, 'met': MET, 'any': POLY + VAR + MET}[focus]
    few = rng.sample(sorted(set(group)), 3) if rng.random() < 0.6 else group
    ops = []
    for i in range(rng.choice([3, 4, 5, 6])):
        mode = rng.choice(SILENT if rng.random() < 0.35 else VALUE)
        if i == 0 and mode == 'plain':
            mode = rng.choice(['jit', 'const', 'jvp', 'abort', 'vmap'])
        ops.append([rng.choice(few), rng.randrange(2), rng.randrange(2 ** 31), mode, rng.random() < 0.6,
                    rng.random(), rng.random(), rng.choice(['runtime', 'memory', 'interrupt'])])
    # the kinds seen in traces once more, directly
    seen = sorted({o[0] for o in ops})
    for k in rng.sample(seen, min(len(seen), 2)):
        ops.append([k, rng.randrange(2), rng.randrange(2 ** 31), 'plain', rng.random() < 0.6, 0, 0, 'runtime'])
    return {'variety': spec, 'params': world.gen_params(rng, spec, 0.7), 'degree': rng.choice([1, 1, 2]),
            'seed': rng.randrange(2 ** 31), 'ops': ops}


def gen_again(rng, kind):
    """One kind of call on one object: traced, then directly and in another trace."""
    case = gen(rng, 'any')
    which, aff = rng.randrange(2), rng.random() < 0.6
    modes = [rng.choice(['jit', 'const', 'abort', 'shape', 'inject']), 'plain', rng.choice(['jit', 'vmap', 'scan', 'jvp'])]
    rest = modes[1:]
    rng.shuffle(rest)
    case['ops'] = [[kind, which, rng.randrange(2 ** 31), m, aff, rng.random(), rng.random(), rng.choice(['runtime', 'memory', 'interrupt'])]
                   for m in modes[:1] + rest]
    return case


def plan(rng, tier):
    n, again = (104, 1) if tier == 'quick' else (2500, 20)
    cases = [gen(rng, ['poly', 'var', 'met', 'any'][i % 4]) for i in range(n)]
    for i, kind in enumerate(sorted(set(POLY + VAR + MET)) * again):
        cases.insert(3 * i, gen_again(rng, kind))
    return cases


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    jnp = jnp_
    engine.install()


class World:
    def __init__(self, case):
        self.v = [world.build_variety(case['variety'], cyjax)]
        self.v.append(cyjax.VarietySingle(self.v[0].defining_poly))
        self.n = world.ref_poly(case['variety']).n
        deg = case['degree'] if self.n < 4 else 1
        self.sections = cyjax.donaldson.MonomialBasisFull(self.n - 1, deg)
        self.m = [cyjax.donaldson.AlgebraicMetric(v, self.sections) for v in self.v]
        par = world.cplx(case['params'])
        self.par = jnp.asarray(par) if len(par) else jnp.zeros((0,), complex)
        a = np.random.default_rng(case['seed'])
        k = (self.n if deg == 1 else self.n * (self.n + 1) // 2)
        h = a.normal(size=(k, k)) + 1j * a.normal(size=(k, k))
        self.h = jnp.asarray(h @ h.conj().T / k + np.eye(k))
        self.symbols = [str(s) for s in self.v[0].defining_poly.all_symbols(False, False)]
        self._batch = {}

    def batch(self, which):
        """A sampler, made when first needed and outside of any trace."""
        if which not in self._batch:
            n_par = len(self.par)
            self._batch[which] = cyjax.ml.BatchSampler(
                7, self.v[which], lambda key, k: cyjax.random.uniform_components(key, (k, n_par)), 2, 2, 1)
        return self._batch[which]


def make(w, op):
    """A function of arrays and the arrays; the first one can be differentiated."""
    kind, which, seed, aff = op[0], op[1], op[2], op[4]
    rng = np.random.default_rng(seed)
    v, m, p = w.v[which], w.m[which], w.v[which].defining_poly
    n, par, h = w.n, w.par, w.h
    patch = int(rng.integers(n)) if aff else None

    def pts(*shape):
        return jnp.asarray(rng.uniform(0.3, 1, shape) * np.exp(2j * np.pi * rng.random(shape)))
    z = pts(n if patch is None else n - 1)
    zb = pts(3, n if patch is None else n - 1)
    za = pts(n - 1)
    pa = int(rng.integers(n))
    dep = int(rng.integers(n - 1))
    key = jax.random.PRNGKey(seed % 1000)
    name = w.symbols[int(rng.integers(len(w.symbols)))]
    if kind == 'batch':
        w.batch(which)

    def univ(z, par):
        cs = cyjax.polynomial.univariate_coefficients(p, name)
        i = w.symbols.index(name)
        rest = jnp.concatenate([z[:i], z[i + 1:]])
        return [c(rest, par) if isinstance(c, cyjax.Poly) else jnp.asarray(c) for c in cs]

    def graph(h, z, par):
        o = cyjax.donaldson.GeometricObjects(h, z, par, v, w.sections, pa)
        return [getattr(o, q) for q in ('g_loc', 'kahler', 'grad_def')]

    def convert(z, par):
        q = cyjax.HomPoly.from_poly(p) if aff else p + p
        coeffs = p.to_coeffs_and_powers()[0]
        return [q(z, par), jnp.asarray(coeffs)]

    zh = pts(n)
    table = {
        'poly': (lambda z, par: p(z, par, patch=patch), (z, par)),
        'polyb': (lambda zb, par: p.transform_eval()(zb, par, patch=patch), (zb, par)),
        'polytr': (lambda z, par, pt: p.transform_eval()(z, par, patch=pt), (za, par, jnp.asarray(pa))),
        'affine': (lambda z, par: p.affine_poly(pa)(z, par), (za, par)),
        'diff': (lambda z, par: p.diff(name)(z, par), (zh, par)),
        'mul': (lambda z, par: (p * p)(z, par), (zh, par)),
        'univ': (univ, (zh, par)),
        'convert': (convert, (zh, par)),
        'defining': (lambda z, par: v.defining(z, par, patch), (z, par)),
        'grad': (lambda z, par: v.grad_defining(z, par, patch), (z, par)),
        'best': (lambda z, par: v.best_dependent(z, par, pa), (za, par)),
        'jac': (lambda z, par: v.jacobian_embed(z, par, pa, dep), (za, par)),
        'fs': (lambda z, par: list(v.induced_fs(z, par, pa)), (za, par)),
        'weights': (lambda z, par: v.sample_intersect_weights(z, par, pa), (za, par)),
        'solve': (lambda z, par: v.solve_defining(z, par, dep), (za, par)),
        'sample': (lambda par, key: v.sample_intersect(key, par, 3), (par, key)),
        'sampleaff': (lambda par, key: jax.tree_util.tree_leaves(
            v.sample_intersect(key, par, 2, affine=True, weights=True)), (par, key)),
        'vol': (lambda par, key: v.compute_vol(key, par, 2, 3), (par, key)),
        'integrate': (lambda par, key: cyjax.util.mc_integrate(
            key, 3, lambda zs: zs[..., 0], lambda k, c: v.sample_intersect(k, par, c, False, True)), (par, key)),
        'sections': (lambda z: w.sections(z, pa), (za,)),
        'kahler': (lambda h, z, par: m.kahler_potential(h, z, par, pa), (h, za, par)),
        'metric': (lambda h, z, par: list(m.metric(h, z, par, pa)), (h, za, par)),
        'eta': (lambda h, z, par: m.eta(h, z, par, pa if aff else None), (h, za if aff else zh, par)),
        'ricci': (lambda h, z, par: m.ricci_scalar(h, z, par, pa), (h, za, par)),
        'sigma': (lambda h, par, key: m.sigma_accuracy(key, par, h, 4), (h, par, key)),
        'dstep': (lambda h, par, key: m.donaldson_step(key, h, par, 1.0, 2, 14), (h, par, key)),
        'graph': (graph, (h, za, par)),
        'loss': (lambda h, par, zs, wt: cyjax.ml.variance_eta_loss(h, (par, zs, jnp.full(3, pa), wt), m),
                 (h, par, pts(3, n - 1), jnp.asarray(rng.uniform(0.5, 2, 3)))),
        'batch': (lambda key: list(w.batch(which).sample(key)), (key,)),
    }
    return table[kind]


def usable(kind, mode, args):
    if mode in ('jvp', 'nested'):
        return args[0].dtype == complex and args[0].size > 0 and kind not in (
            'sample', 'sampleaff', 'vol', 'integrate', 'sigma', 'dstep', 'solve')
    if kind == 'solve':
        return mode == 'plain'
    if mode in ('vmap', 'scan'):
        return kind not in ('vol', 'dstep')
    return True


class Abort(Exception):
    pass


def call(mode, fn, args, op, stats, faults):
    """Value of the call in the given mode, or None if the mode gives none."""
    if mode == 'plain':
        return fn(*args)
    if mode == 'jit':
        return jax.jit(fn)(*args)
    if mode == 'const':
        return jax.jit(lambda: fn(*args))()
    two = [jnp.stack([a, a]) for a in args]
    if mode == 'vmap':
        return jax.tree_util.tree_map(lambda x: x[1], jax.vmap(fn)(*two))
    if mode == 'scan':
        return jax.tree_util.tree_map(lambda x: x[1], jax.lax.scan(lambda c, x: (c, fn(*x)), None, tuple(two))[1])
    if mode == 'jvp':
        return jax.jvp(lambda a: fn(a, *args[1:]), (args[0],), (jnp.ones_like(args[0]),))[0]
    if mode == 'nested':
        def inner(*a):
            return jax.jvp(lambda x: fn(x, *a[1:]), (a[0],), (jnp.ones_like(a[0]),))[0]
        return jax.tree_util.tree_map(lambda x: x[0], jax.jit(jax.vmap(inner))(*two))
    if mode == 'shape':
        jax.eval_shape(fn, *args)
        return None
    if mode == 'abort':
        def broken(*a):
            fn(*a)
            raise Abort()
        try:
            jax.jit(broken)(*args)
        except Abort:
            faults['trace-aborted'] += 1
        return None
    if mode == 'inject':
        with engine.Recorder() as rec:
            jax.eval_shape(fn, *args)
        at = engine.pick_event(rec.locs, op[5], op[6])
        if at is None:
            return None
        inj = engine.Injector(at, op[7])
        try:
            with inj:
                jax.jit(fn)(*args)
        except (engine.Injected, Exception) as e:
            if inj.fired is None:
                raise
        if inj.fired is not None:
            faults['exception-at-line'] += 1
        return None
    raise ValueError(mode)


def close(a, b):
    a, b = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        scale = 1 + np.max(np.abs(np.where(np.isfinite(y), y, 0)), initial=0)
        if not np.allclose(x, y, rtol=1e-6, atol=1e-8 * scale, equal_nan=True):
            return False
    return True


def run(case):
    ev, viol = Events(), None
    stats = {'calls': 0, 'traced': 0, 'compared': 0}
    faults = {'trace-aborted': 0, 'exception-at-line': 0}
    hist = []
    try:
        w = World(case)
        got = []
        for i, op in enumerate(case['ops']):
            fn, args = make(w, op)
            mode = op[3] if usable(op[0], op[3], args) else 'plain' if op[0] == 'solve' else 'jit'
            stats['calls'] += 1
            stats['traced'] += mode != 'plain'
            hist.append([op[0], mode])
            try:
                val = call(mode, fn, args, op, stats, faults)
            except Exception as e:
                raise Violation('call-failed', f'{op[0]} ({mode}) as call {i} raised {type(e).__name__}: {str(e)[:300]}')
            ev.add(op[0], mode, val is not None)
            got.append((i, op, mode, val))
        for i, op, mode, val in got:
            if val is None:
                continue
            fn, args = make(World(case), op)
            try:
                want = fn(*args)
            except Exception as e:
                raise Violation('call-failed', f'{op[0]} on fresh objects raised {type(e).__name__}: {str(e)[:300]}')
            stats['compared'] += 1
            ok = close(val, want)
            ev.add('compared', i, ok)
            if not ok:
                raise Violation('wrong-result', f'{op[0]} ({mode}) as call {i} gave {str(val)[:300]}, '
                                f'directly on fresh objects {str(want)[:300]}')
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    sigs = [digest(hist)] if any(m != 'plain' for _, m in hist[:-1]) else []
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs, summary=' '.join(f'{k}:{m}' for k, m in hist))


def shrink(case, res):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o[3] not in ('plain', 'jit'):
            yield dict(case, ops=ops[:i] + [o[:3] + ['jit'] + o[4:]] + ops[i + 1:])
