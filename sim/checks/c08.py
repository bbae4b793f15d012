"""C08: quantities of the lazily evaluated graph never depend on earlier reads, assignments or failures."""
import numpy as np

from ..core import digest, rng_for
from .. import engine, ref, world
from ..world import Events, Violation, result, guarded

ID = 'C08'
LEVEL = 'exploration'
RULE = ('A case is a history of reads, input assignments and interrupted reads on one or two graphs sharing a variety '
        'and a section basis; every read is compared with a fresh graph and, where one exists, an independent formula. '
        'Distinct and non-trivial: distinct histories (operation kinds, quantities, interrupted lines) in which some '
        'quantity is read after an assignment or after an interrupted read.')
COMPONENTS = {'real': ['cyjax.donaldson.GeometricObjects and AlgebraicMetric', 'cyjax.differential', 'cyjax.variety',
                       'progeval', 'jax in uncompiled mode'],
              'simulated': ['exceptions raised at chosen executed lines']}
ASSUMPTIONS = ['assigned inputs are the Hermitian matrix, coordinates, chart and moduli',
               'interrupts arrive at line boundaries of the package']
WALL = {'quick': 240, 'thorough': 2400}

QUANT = ['s', 's_1', 's_2', 's_c', 's_1_c', 's_2_c', 'kahler', 'psi', 'psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa',
         'psi_hha', 'psi_hhaa', 'g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha', 'grad_def', 'dependent', 'jac', 'jac_c',
         'jac_h', 'g_loc', 'g_loc_h', 'g_loc_a', 'g_loc_ha', 'g_loc_inv', 'ricci_proj', 'ricci_loc', 'ricci_scalar',
         'eta']
MAIN = ['kahler', 'psi', 'g_proj', 'g_loc', 'eta', 'ricci_loc', 'ricci_scalar', 's', 's_1', 'grad_def', 'jac',
        'psi_hh', 'psi_hha', 'g_proj_h', 'g_loc_h', 'dependent']
INPUTS = ['h', 'zs', 'params', 'patch']


def gen(rng, faults):
    spec = world.gen_variety(rng, dims=(1, 1, 2), kinds=('dwork', 'dwork', 'sympy', 'fermat'))
    n = world.ref_poly(spec).n
    graphs = []
    for _ in range(rng.choice([1, 1, 2])):
        graphs.append({'hom': rng.random() < 0.35, 'diag': rng.random() < 0.35, 'dep': rng.random() < 0.25,
                       'seed': rng.randrange(2 ** 31)})
    ops = []
    few = rng.sample(MAIN, 4)
    for _ in range(rng.randrange(5, 14)):
        g = rng.randrange(len(graphs))
        r = rng.random()
        if r < 0.55:
            q = rng.choice(few if rng.random() < 0.6 else MAIN if rng.random() < 0.6 else QUANT)
            op = [g, 'read', q]
            if faults and rng.random() < 0.45:
                op = [g, 'break', q, rng.random(), rng.random(), rng.choice(['runtime', 'interrupt', 'memory'])]
            ops.append(op)
        elif r < 0.92:
            ops.append([g, 'set', rng.choice(INPUTS), rng.randrange(2 ** 31), rng.random() < 0.4])
        else:
            ops.append([g, 'metric', rng.choice(['kahler_potential', 'metric', 'eta', 'ricci', 'ricci_scalar'])])
    g = rng.randrange(len(graphs))
    ops.append([g, 'read', rng.choice(few)])
    return {'variety': spec, 'params': world.gen_params(rng, spec, 0.7), 'degree': rng.choice([1, 1, 2]) if n < 4 else 1,
            'graphs': graphs, 'ops': ops, 'shrinkable': ['ops']}


def plan(rng, tier):
    n = 380 if tier == 'quick' else 3500
    return [gen(rng, i % 2 == 1) for i in range(n)]


def setup(case):
    global jax, jnp, cyjax
    jax, cyjax = world.setup_jax(x64=True, eager=True)
    import jax.numpy as jnp_
    jnp = jnp_
    engine.install()


def herm(seed, n, diag):
    rng = np.random.default_rng(seed)
    sign = np.ones(n)
    if seed % 4 == 0:                 # Hermitian but not positive
        sign[seed // 4 % n] = -0.3
    if diag:
        return rng.uniform(0.5, 2, n) * sign
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return a @ np.diag(sign) @ a.conj().T / n + np.diag(sign)


def point(seed, n, hom):
    rng = np.random.default_rng(seed)
    m = n if hom else n - 1
    return rng.uniform(0.2, 1, m) * np.exp(2j * np.pi * rng.random(m))


class Model:
    """Current inputs of a graph."""

    def __init__(self, case, g, poly, pows):
        self.poly, self.pows, self.degree = poly, pows, case['degree']
        n = poly.n
        self.h = herm(g['seed'], len(pows), g['diag'])
        self.params = world.cplx(case['params'])
        z = point(g['seed'] + 1, n, g['hom'])
        self.raw_zs, self.hom = z, g['hom']
        if g['hom']:
            self.patch = int(np.argmax(np.abs(z)))
            self.zs = np.delete(z / z[self.patch], self.patch)
        else:
            self.patch = int(np.random.default_rng(g['seed'] + 2).integers(n))
            self.zs = z
        self.dep = int(np.random.default_rng(g['seed'] + 3).integers(n - 1)) if g['dep'] else None

    def par(self):
        return jnp.asarray(self.params) if len(self.params) else jnp.zeros((0,), complex)

    def build(self, variety, sections, initial=False):
        kw = {} if self.dep is None else {'dependent': self.dep}
        if initial and self.hom:
            return cyjax.donaldson.GeometricObjects(jnp.asarray(self.h), jnp.asarray(self.raw_zs), self.par(), variety,
                                                    sections, **kw)
        return cyjax.donaldson.GeometricObjects(jnp.asarray(self.h), jnp.asarray(self.zs), self.par(), variety,
                                                sections, self.patch, **kw)

    def reference(self, q):
        """Independent value, or None where only the fresh graph is available."""
        geo = ref.Geometry(self.poly, self.pows, self.degree)
        z, p, par, h = self.zs, self.patch, self.params, self.h
        zc = np.conj(z)
        H = geo.hmat(h)
        s, d1, d2 = geo.s(z, p), geo.ds(z, p), geo.d2s(z, p)
        sc, d1c, d2c = s.conj(), d1.conj(), d2.conj()
        G = geo.aff_grad(z, p, par)
        dep = int(np.argmax(np.abs(G))) if self.dep is None else self.dep
        simple = {
            's': lambda: s, 's_1': lambda: d1, 's_2': lambda: d2, 's_c': lambda: sc, 's_1_c': lambda: d1c,
            's_2_c': lambda: d2c, 'psi': lambda: s @ H @ sc, 'kahler': lambda: geo.kahler(h, z, p),
            'psi_h': lambda: d1.T @ H @ sc, 'psi_a': lambda: s @ H @ d1c, 'psi_ha': lambda: d1.T @ H @ d1c,
            'psi_hh': lambda: np.einsum('iab,ij,j->ab', d2, H, sc),
            'psi_aa': lambda: np.einsum('i,ij,jab->ab', s, H, d2c),
            'psi_hha': lambda: np.einsum('iab,ij,jc->abc', d2, H, d1c),
            'psi_hhaa': lambda: np.einsum('iab,ij,jcd->abcd', d2, H, d2c),
            'g_proj': lambda: geo.g_amb(h, z, zc, p), 'grad_def': lambda: G, 'dependent': lambda: np.array(dep),
            'jac': lambda: ref.jac(G, dep), 'jac_c': lambda: ref.jac(G, dep).conj(),
            'g_loc': lambda: geo.g_loc(h, z, zc, p, par, dep),
            'g_loc_inv': lambda: np.linalg.inv(geo.g_loc(h, z, zc, p, par, dep)),
            'eta': lambda: geo.eta(h, z, p, par, dep)}
        if q in simple:
            return simple[q](), 1e-8

        def deriv(f):
            eps = 1e-5
            out = []
            for a in range(len(z)):
                e = np.zeros(len(z))
                e[a] = eps
                out.append((f(z + e) - f(z - e)) / (2 * eps))
            return np.array(out)
        if q == 'g_proj_h':
            return deriv(lambda u: geo.g_amb(h, u, zc, p)), 1e-6
        if q == 'g_loc_h':
            return deriv(lambda u: geo.g_loc(h, u, zc, p, par, dep)), 1e-5
        if q == 'jac_h':
            return np.moveaxis(deriv(lambda u: ref.jac(geo.aff_grad(u, p, par), dep)), 0, -1), 1e-5
        if q == 'ricci_loc':
            return geo.ricci(h, z, p, par, dep), 2e-3
        if q == 'ricci_scalar':
            g = geo.g_loc(h, z, zc, p, par, dep)
            return np.trace(geo.ricci(h, z, p, par, dep) @ np.linalg.inv(g)), 2e-3
        return None, None

    def cancels(self):
        """The potential of a matrix that is not positive can cancel."""
        geo = ref.Geometry(self.poly, self.pows, self.degree)
        s, H = geo.s(self.zs, self.patch), geo.hmat(self.h)
        return (s @ H @ s.conj()).real < 0.2 * np.abs(s) @ np.abs(H) @ np.abs(s)

    def tame(self):
        """Finite difference references need a well conditioned point."""
        geo = ref.Geometry(self.poly, self.pows, self.degree)
        G = geo.aff_grad(self.zs, self.patch, self.params)
        dep = int(np.argmax(np.abs(G))) if self.dep is None else self.dep
        if abs(G[dep]) < 0.15 * np.max(np.abs(G)) or np.max(np.abs(G)) < 0.2:
            return False
        sv = np.linalg.eigvalsh(geo.g_loc(self.h, self.zs, np.conj(self.zs), self.patch, self.params, dep))
        return sv[0] > 2e-3 * sv[-1] and sv[0] > 1e-4

    def near_tie(self):
        if self.dep is not None:
            return False
        geo = ref.Geometry(self.poly, self.pows, self.degree)
        a = np.sort(np.abs(geo.aff_grad(self.zs, self.patch, self.params)))[::-1]
        return len(a) > 1 and a[0] - a[1] < 1e-6 * a[0]


def check_value(model, q, got, fresh, ev):
    got, fresh = np.asarray(got), np.asarray(fresh)
    if got.shape != fresh.shape:
        raise Violation('stale', f'{q} has shape {got.shape}, a fresh graph gives {fresh.shape}')
    same = np.array_equal(got, fresh) or ref.close(got, fresh, 1e-9, 1e-12)
    if not same and np.all(np.isfinite(fresh)):
        raise Violation('stale', f'{q} is {got.ravel()[:4]}, a fresh graph gives {fresh.ravel()[:4]}')
    want, tol = model.reference(q)
    if want is not None and (tol < 1e-6 or model.tame()) and not model.cancels():
        if not ref.close(got, want, tol, 1e-7 if tol < 1e-6 else 10 * tol) and np.all(np.isfinite(want)):
            raise Violation('wrong', f'{q} is {got.ravel()[:4]}, the definition gives {np.asarray(want).ravel()[:4]}')
    ev.add('read', q, world.summarise(got))


def run(case):
    ev, faults, stats, probes = Events(), {}, {'reads': 0}, {}
    viol, sigs = None, []
    try:
        poly = world.ref_poly(case['variety'])
        variety = world.build_variety(case['variety'], cyjax)
        sections = cyjax.donaldson.MonomialBasisFull(poly.n - 1, case['degree'])
        pows = np.asarray(sections.power_matrix)
        metric = cyjax.donaldson.AlgebraicMetric(variety, sections)
        models = [Model(case, g, poly, pows) for g in case['graphs']]
        graphs = [guarded(m.build, 'building a graph', variety, sections, True) for m in models]
        hist, interesting, dirty = [], False, [False] * len(graphs)
        for op in case['ops']:
            g, kind = op[0], op[1]
            m, obj = models[g], graphs[g]
            if kind == 'set':
                name, seed, flag = op[2:]
                if name == 'h':
                    m.h = herm(seed, len(pows), flag)
                    obj.h = jnp.asarray(m.h)
                elif name == 'zs':
                    m.zs = point(seed, poly.n, False)
                    obj.zs = jnp.asarray(m.zs)
                elif name == 'params':
                    if len(m.params):
                        m.params = world.cplx([world.rnd_complex(rng_for('p', seed, i), 0.9) for i in range(len(m.params))])
                        obj.params = jnp.asarray(m.params)
                else:
                    m.patch = seed % poly.n
                    obj.patch = m.patch if flag else jnp.asarray(m.patch)
                dirty[g] = True
                ev.add('set', g, name, seed)
                hist.append(('set', g, name))
                continue
            if m.near_tie():
                continue
            if kind == 'metric':
                par = m.par()
                dep = {} if m.dep is None else {'dependent': m.dep}
                name = op[2]
                h2 = jnp.asarray(ref.Geometry.hmat(m.h))
                out = guarded(getattr(metric, name), f'AlgebraicMetric.{name}', h2, jnp.asarray(m.zs), par, m.patch, **dep)
                q = {'metric': 'g_loc', 'ricci': 'ricci_loc', 'kahler_potential': 'kahler'}.get(name, name)
                if name in ('metric', 'ricci'):
                    if int(out[1]) != m.patch or int(out[2]) != int(m.reference('dependent')[0]):
                        raise Violation('wrong', f'{name} reports chart {out[1]} and coordinate {out[2]}')
                    out = out[0]
                check_value(m, q, out, out, ev)
                hist.append(('metric', name))
                continue
            q = op[2]
            fresh_graph = guarded(m.build, 'building a graph', variety, sections)
            if kind == 'break':
                twin = m.build(variety, sections)
                with engine.Recorder() as rec:
                    guarded(getattr, f'reading {q} of a fresh graph', twin, q)
                at = engine.pick_event(rec.locs, op[3], op[4])
                if at is None:
                    continue
                inj = engine.Injector(at, op[5])
                try:
                    with inj:
                        value = getattr(obj, q)
                except engine.Injected:
                    value = None
                except Exception as e:
                    if inj.fired is None:
                        raise Violation('call-failed', f'reading {q} raised {type(e).__name__}: {str(e)[:200]}')
                    value = None
                if inj.fired:
                    faults[op[5]] = faults.get(op[5], 0) + 1
                    dirty[g] = True
                    probes['interrupted:' + q] = probes.get('interrupted:' + q, 0) + 1
                ev.add('break', g, q, inj.fired)
                hist.append(('break', g, q, inj.fired))
                if value is None:
                    continue
            else:
                value = guarded(getattr, f'reading {q}', obj, q)
                hist.append(('read', g, q))
            fresh = guarded(getattr, f'reading {q} of a fresh graph', fresh_graph, q)
            check_value(m, q, value, fresh, ev)
            stats['reads'] += 1
            interesting |= dirty[g]
        if interesting:
            sigs = [digest([hist, case['graphs'][0]['hom'], case['graphs'][0]['diag'], poly.n])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, probes=probes, sigs=sigs, summary=f'{stats["reads"]} reads')
