"""C09: results do not depend on the process: hash randomisation, restarts, creation order."""
import json
import os
import subprocess
import sys

import numpy as np

from ..core import digest, rng_for, worker_env, PYTHON, VERIF
from ..algebra import Model, sym
from .. import ref, world
from ..world import Events, Violation, result

ID = 'C09'
LEVEL = 'exploration'
RULE = ('A case is one program (polynomials with detected variables and parameters, varieties, samples, batch streams, '
        'bases) started in several processes, each with its own hash seed and creation order. All processes must report '
        'the same, and evaluations in the reported order must agree with a dictionary model. Distinct and non-trivial: '
        'distinct (program, set of process starts) in which at least two hash seeds and two creation orders were used.')
COMPONENTS = {'real': ['whole processes importing cyjax, sympy and jax', 'cyjax.polynomial', 'cyjax.variety',
                       'cyjax.donaldson bases', 'cyjax.ml.BatchSampler'],
              'simulated': ['hash seed of each process', 'creation order']}
ASSUMPTIONS = ['processes run on the same machine; values are compared to rounding accuracy']
WALL = {'quick': 300, 'thorough': 3000}
CASE_TIMEOUT = 400
TWINS = 1

BASES = ['z', 'x', 'w', 'y', 'u', 'v', 'eta', 'R']
PARS = ['a', 'b', 'mu', 'psi', 'k1', 'k2', 'c', 'alpha', 'beta1', 't', 'rho', 'B']


def gen_model(rng, hom=False, scalars=True, pars=None, nvar=None):
    vs = []
    for n in rng.sample(BASES, nvar or rng.choice([1, 2, 2, 3, 4])):
        if scalars and rng.random() < 0.3:
            vs.append([n, None])
        elif hom:
            vs.append([n, list(range(rng.choice([2, 3])))])
        else:
            vs.append([n, sorted(rng.sample(range(12), rng.choice([1, 2, 3])))])
    pars = rng.sample(PARS, rng.choice([0, 1, 2, 3, 5])) if pars is None else pars
    symbols = [sym(n, i) for n, idx in vs for i in ([None] if idx is None else idx)]
    pars = [p for p in pars if p not in symbols]
    terms = []

    def coef():
        return rng.choice([1, -1, 2, -3, 0.5, 0.75, 5])
    if hom:
        degs = [rng.choice([1, 2]) for _ in vs]
        for _ in range(6):
            m = {}
            for (n, idx), d in zip(vs, degs):
                for _ in range(d):
                    s = sym(n, rng.choice(idx))
                    m[s] = m.get(s, 0) + 1
            if pars and rng.random() < 0.7:
                p = rng.choice(pars)
                m[p] = 1
            terms.append([sorted(m.items()), coef()])
    else:
        left = symbols + pars
        rng.shuffle(left)
        while left:
            m = {}
            for _ in range(rng.choice([1, 2, 3])):
                if left:
                    m[left.pop()] = rng.choice([1, 1, 2])
            for p in pars:
                if m.get(p):
                    m[p] = 1
            terms.append([sorted(m.items()), coef()])
    used = {s for m, _ in terms for s, _ in m}
    if hom:
        vs = [[n, [i for i in idx if sym(n, i) in used]] for n, idx in vs]
        if any(len(i) < 2 for _, i in vs):
            return gen_model(rng, hom, scalars, pars, nvar)
        pars = [p for p in pars if p in used]
    # accidental cancellation would change which symbols occur
    if len({tuple(map(tuple, m)) for m, _ in terms}) != len(terms):
        return gen_model(rng, hom, scalars, pars, nvar)
    return {'vars': vs, 'pars': pars, 'terms': terms}


def as_model(d):
    return Model([(n, i) for n, i in d['vars']], d['pars'], [(tuple(map(tuple, m)), c) for m, c in d['terms']])


def gen_item(rng):
    r = rng.random()
    if r < 0.55:
        hom = rng.random() < 0.3
        d = gen_model(rng, hom, scalars=not hom)
        m = as_model(d)
        names = [n for n, _ in d['vars']]
        rng.shuffle(names)
        pars = list(d['pars'])
        rng.shuffle(pars)
        how = rng.choice(['names', 'names', 'params', 'both', 'gens', 'none' if not pars else 'params'])
        scal = any(i is None for _, i in d['vars'])
        it = {'kind': 'hom' if hom else 'auto', 'expr': m.expression(rng.random() < 0.3 and how != 'gens', rng),
              'sympy': rng.random() < 0.4, 'model': d}
        if how in ('names', 'both'):
            it['names'] = names
        if how in ('params', 'both'):
            it['params'] = pars
        if how == 'gens':
            gens = m.var_symbols()
            rng.shuffle(gens)
            it.update(gens=gens, domain=pars)
        return it
    if r < 0.63:
        d = gen_model(rng, scalars=False)
        names = [n for n, _ in d['vars']]
        size = {n: max(i) + 1 for n, i in d['vars']}
        d['vars'] = [[n, list(range(size[n]))] for n in names]
        it = {'kind': 'coeffs', 'names': names, 'model': d, 'coeffs': [c for _, c in d['terms']],
              'powers': [[[dict(m).get(sym(n, k), 0) for k in range(size[n])] for m, _ in d['terms']] for n in names],
              'coeffs_params': [[p for p in d['pars'] if dict(m).get(p)] for m, _ in d['terms']]}
        return it
    if r < 0.72:
        names = rng.sample(BASES, 2)
        exprs = []
        model = None
        ops = [rng.choice(['add', 'sub', 'mul']) for _ in range(rng.choice([1, 2]))]
        for k in range(len(ops) + 1):
            vs = [[names[0], sorted(rng.sample(range(4), 2))], [names[1], None]]
            d = gen_model(rng, scalars=False, nvar=1)
            d = {'vars': vs, 'pars': d['pars'], 'terms': [[[[sym(names[0], vs[0][1][0]), 1], [names[1], 2]], 2],
                                                         [[[sym(names[0], vs[0][1][1]), 1]], 1]]
                 + [[[[names[1], 1], [p, 1]], 1 + i] for i, p in enumerate(d['pars'])]}
            m = as_model(d)
            exprs.append(m.expression(False, rng))
            model = m if model is None else model.mul(m) if ops[k - 1] == 'mul' else model.add(m, 1 if ops[k - 1] == 'add' else -1)
        return {'kind': 'combine', 'names': names, 'exprs': exprs, 'ops': ops,
                'model': {'vars': model.names, 'pars': model.params, 'terms': [[list(map(list, k)), c.real] for k, c in model.terms.items()]}}
    if r < 0.78:
        d = gen_model(rng, nvar=2)
        m = as_model(d)
        v = rng.choice(m.var_symbols())
        return {'kind': 'univ', 'expr': m.expression(False, rng), 'names': [n for n, _ in d['vars']], 'var': v, 'model': d}
    if r < 0.80:
        return {'kind': 'keys', 'seed': rng.choice([0, 1, rng.randrange(1000)]), 'count': rng.choice([1, 3, 7])}
    if r < 0.84:
        return {'kind': 'basis', 'dim': rng.choice([1, 2, 3]), 'degree': rng.choice([1, 2, 3])}
    spec = world.gen_variety(rng, dims=(1, 1, 2), kinds=('sympy',))
    rp = ref.HPoly(spec['n'], len(spec['pars']), [(world.num(c), pp, zp) for c, pp, zp in spec['terms']])
    terms = rp.expr('z', spec['pars']).split(' + ')
    rng.shuffle(terms)
    it = {'kind': rng.choice(['variety', 'variety', 'reduced', 'batches']), 'expr': ' + '.join(terms), 'n': spec['n'],
          'seed': rng.randrange(1000), 'spec': spec}
    if it['kind'] == 'variety':
        it['count'] = rng.choice([1, 4, 7])
    elif it['kind'] == 'reduced':
        it['degree'] = rng.choice([1, 2, spec['n'], spec['n'] + 1 if spec['n'] < 4 else spec['n']])
    else:
        it.update(batch=2, points=rng.choice([3, 4]), buffer=rng.choice([1, 2]), as_int=rng.random() < 0.5)
    return it


def sibling(rng, it):
    """The same expression again with another order or other roles of its symbols."""
    if it['kind'] in ('auto', 'hom'):
        d = {'vars': [list(v) for v in it['model']['vars']], 'pars': list(it['model']['pars']), 'terms': it['model']['terms']}
        scal = [v for v in d['vars'] if v[1] is None]
        if scal and len(d['vars']) > len(scal) and rng.random() < 0.5:
            v = rng.choice(scal)
            d['vars'].remove(v)
            d['pars'].append(v[0])
        rng.shuffle(d['vars'])
        rng.shuffle(d['pars'])
        return {'kind': it['kind'], 'expr': it['expr'], 'sympy': it['sympy'], 'model': d, 'names': [n for n, _ in d['vars']],
                'params': d['pars']}
    pars = list(it['spec']['pars'])
    rng.shuffle(pars)
    return dict(it, kind='variety', seed=rng.randrange(1000), count=rng.choice([1, 4, 7]), params=pars)


def gen(rng, items, starts):
    its, heavy = [], 0
    while len(its) < items:
        it = gen_item(rng)
        old = [x for x in its if x['kind'] in ('auto', 'hom', 'variety')]
        if old and rng.random() < 0.25:
            it = sibling(rng, rng.choice(old))
        heavy += it['kind'] in ('variety', 'batches', 'reduced')
        if heavy > 5 and it['kind'] in ('variety', 'batches', 'reduced'):
            continue
        its.append(it)
    ss = []
    for k in range(starts):
        ss.append([rng.choice([0] * (k > 1) + [rng.randrange(1, 2 ** 32)] * 2) if k else 0, rng.randrange(2 ** 31) if k != 1 else None])
    return {'items': its, 'starts': ss, 'shrinkable': ['items']}


def plan(rng, tier):
    if tier == 'quick':
        return [gen(rng, 30, 4) for _ in range(22)]
    return [gen(rng, 40, 6) for _ in range(200)]


HEAVY = ('variety', 'batches', 'reduced')
TABLE = {}
_r = rng_for('table')
for _n in BASES + PARS + ['z']:
    for _s in [_n] + [f'{_n}{_i}' for _i in range(13)]:
        TABLE[_s] = [round(_r.uniform(-1.2, 1.2), 3), round(_r.uniform(-1.2, 1.2), 3)]
for _s in ['alpha1', 'alpha2', 'q1', 'p']:
    TABLE[_s] = [round(_r.uniform(-1.2, 1.2), 3), round(_r.uniform(-1.2, 1.2), 3)]


def start(case, hash_seed, order):
    job = {'items': case['items'], 'order': order, 'table': TABLE}
    env = worker_env(hash_seed)
    p = subprocess.run([PYTHON, '-m', 'sim.proc'], input=json.dumps(job).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=VERIF, env=env, timeout=300)
    if p.returncode != 0:
        raise RuntimeError('process start failed: ' + p.stderr.decode(errors='replace')[-1500:])
    return json.loads(p.stdout)


def dec(a):
    shape, flat = a
    v = np.array([complex(*x) if isinstance(x, list) else x for x in flat])
    return v.reshape(shape)


def same(a, b, tol):
    """Equality of reports, numbers to rounding accuracy."""
    if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= tol * (1 + abs(a)) or (a != a and b != b)
    return a == b


def judge_poly(out, model, what):
    if 'error' in out:
        raise Violation('call-failed', f'{what}: {out["error"]}')
    want = {n: None if i is None else sorted(i) for n, i in model.names}
    got = dict(zip(out['names'], out['indices']))
    if len(got) != len(out['names']) or got != want or sorted(out['params']) != sorted(model.params):
        raise Violation('wrong-signature', f'{what}: reports variables {got} and parameters {out["params"]}, '
                        f'expected {want} and {sorted(model.params)}')
    vals = {s: complex(*TABLE[s]) for s in model.symbols()}
    for k, f in ((0, 1.0), (1, 1.5)):
        v = {s: x * (f if s not in model.params else 1) for s, x in vals.items()}
        w, mag = model.evaluate(v), model.magnitude(v)
        for name in (['single'] if k == 0 else []) + ['batched']:
            a = dec(out[name])
            a = complex(a) if name == 'single' else complex(a[k])
            if not abs(a - w) <= 1e-9 * (1 + mag):
                raise Violation('wrong-value', f'{what}: {name} value in the reported order is {a}, expected {w}')


def judge(it, out, what):
    if it['kind'] in ('auto', 'hom', 'coeffs', 'combine'):
        m = as_model(it['model'])
        judge_poly(out, m, what)
        if it['kind'] == 'hom':
            names = {n: i for n, i in m.names}
            order = Model([(n, sorted(names[n])) for n in out['names']], out['params'], m.terms)
            judge_poly(out['affine'], order.restrict([0] * len(out['names'])), what + ' (affine)')
        return
    if 'error' in out:
        raise Violation('call-failed', f'{what}: {out["error"]}')
    if it['kind'] == 'univ':
        want = as_model(it['model']).coefficients(it['var'])
        if len(want) != len(out['list']):
            raise Violation('wrong-value', f'{what}: {len(out["list"])} coefficients, expected {len(want)}')
        for k, (o, w) in enumerate(zip(out['list'], want)):
            if isinstance(o, dict):
                judge_poly(o, w, f'{what}, coefficient {k}')
    if it['kind'] in ('variety', 'batches', 'reduced'):
        spec = it['spec']
        if sorted(out['params']) != sorted(spec['pars']):
            raise Violation('wrong-signature', f'{what}: reports parameters {out["params"]}, expected {spec["pars"]}')
        pos = [spec['pars'].index(p) for p in out['params']]
        q = ref.HPoly(spec['n'], len(pos), [(world.num(c), [pp[i] for i in pos], zp) for c, pp, zp in spec['terms']])
        if it['kind'] == 'variety':
            zs, par = dec(out['zs']), dec(out['params_used'])
            if zs.shape != (it['count'], spec['n']) or np.any(np.abs(q(zs, par)) > 1e-6 * (1 + q.magnitude(zs, par))):
                raise Violation('wrong-value', f'{what}: points are not on the variety for parameters in the reported order')


def run(case):
    ev, viol, sigs = Events(), None, []
    faults = {'hash_seed': 0, 'creation_order': 0, 'created_again': 0}
    stats = {'process_starts': 0, 'items': 0}
    try:
        n = len(case['items'])
        first = None
        for hs, perm in case['starts']:
            order = list(range(n))
            if perm is not None:
                order += rng_for('again', perm).choices([k for k, it in enumerate(case['items']) if it['kind'] not in HEAVY] or order,
                                                        k=n // 4)
                rng_for('order', perm).shuffle(order)
            out = start(case, hs, order)
            stats['process_starts'] += 1
            stats['items'] += len(order)
            faults['hash_seed'] += hs != 0
            faults['creation_order'] += order != sorted(order)
            faults['created_again'] += len(order) - n
            for k, it in enumerate(case['items']):
                for got in out[str(k)]:
                    judge(it, got, f'item {k} ({it["kind"]}) with hash seed {hs}')
            if first is None:
                first = {k: v[0] for k, v in out.items()}
            for k, it in enumerate(case['items']):
                want = first[str(k)]
                for nth, got in enumerate(out[str(k)]):
                    if not same(want, got, 1e-7):
                        diff = [key for key in want if not same(want[key], got.get(key), 1e-7)]
                        raise Violation('differs', f'item {k} ({it["kind"]}: {it.get("expr", "")[:120]}), created for the {nth + 1}. '
                                        f'time in a process with hash seed {hs}, differs from the first process in {diff}: '
                                        f'{[str(want.get(d))[:80] for d in diff]} and {[str(got.get(d))[:80] for d in diff]}')
            ev.add('start', hs, perm, digest({k: {a: b for a, b in v[0].items() if a in ('names', 'indices', 'params')} for k, v in out.items()}))
        if len({h for h, _ in case['starts']}) > 1 and len({p for _, p in case['starts']}) > 1:
            sigs = [digest([case['items'], case['starts']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs, summary=f'{stats["process_starts"]} process starts')
