"""Building blocks shared by the checks: jax set-up, varieties with their reference models."""
import os
import random

import numpy as np

from . import ref

_ready = {}


def setup_jax(x64=True, eager=False, locks=False):
    """Configure jax once per worker process and import the package under test."""
    import jax
    jax.config.update('jax_enable_x64', bool(x64))
    if eager:
        jax.config.update('jax_disable_jit', True)
    if locks:
        from . import engine
        engine.patch_locks()
    import cyjax
    repo = os.environ.get('VERIF_REPO', '/repo')
    assert cyjax.__file__.startswith(repo + os.sep), cyjax.__file__
    return jax, cyjax


def rnd_complex(rng, scale=1.0):
    return [round(rng.uniform(-scale, scale), 3), round(rng.uniform(-scale, scale), 3)]


def cplx(v):
    return np.array([complex(a, b) for a, b in v])


def gen_variety(rng, dims=(1, 1, 2), kinds=('dwork', 'dwork', 'fermat', 'sympy', 'sympy'), degree=None,
                complex_coeffs=False):
    """A variety specification.  ``dim`` is the complex dimension of the variety."""
    kind = rng.choice(kinds)
    dim = rng.choice(dims)
    if kind == 'dwork':
        return {'kind': 'dwork', 'dim': dim,
                'factor': rng.choice([True, True, False, -3.0, 2, 0.5])}
    if kind == 'fermat':
        return {'kind': 'fermat', 'dim': dim}
    n = dim + 2
    deg = degree or n
    n_par = rng.choice([0, 1, 1, 2, 3])
    pars = rng.sample(['a', 'b', 'mu', 'psi', 'alpha1', 'alpha2', 'c', 't', 'p', 'q1'], n_par)
    terms = []
    for j in range(n):
        e = [0] * n
        e[j] = deg
        terms.append([rng.choice([1, 1, 1, 2, -1, 0.5]), [0] * n_par, e])
    mons = [m for m in ref.monomials(n, deg) if max(m) < deg]
    for m in rng.sample(mons, min(len(mons), rng.choice([1, 2, 3]))):
        pp = [0] * n_par
        if n_par and rng.random() < 0.8:
            pp[rng.randrange(n_par)] = 1
        c = rng.choice([1, -2, 0.5, 0.75, 3])
        if complex_coeffs and rng.random() < 0.4:
            c = [c, rng.choice([1, -0.5, 2])]
        terms.append([c, pp, list(m)])
    # make sure that every parameter occurs
    for i in range(n_par):
        if not any(t[1][i] for t in terms):
            pp = [0] * n_par
            pp[i] = 1
            terms.append([0.25, pp, list(rng.choice(mons))])
    return {'kind': 'sympy', 'n': n, 'degree': deg, 'pars': pars, 'terms': terms,
            'explicit': rng.random() < 0.5}


def gen_params(rng, spec, scale=0.8):
    n = {'dwork': 1, 'fermat': 0}.get(spec['kind'])
    if n is None:
        n = len(spec['pars'])
    return [rnd_complex(rng, scale) for _ in range(n)]


def num(c):
    return complex(*c) if isinstance(c, (list, tuple)) else c


def ref_poly(spec):
    if spec['kind'] == 'dwork':
        f = spec['factor']
        f = (-5 if f else 1) if isinstance(f, bool) else f
        return ref.dwork(spec['dim'] + 2, f)
    if spec['kind'] == 'fermat':
        return ref.fermat(spec['dim'] + 2)
    order = list(range(len(spec['pars'])))
    if not spec.get('explicit'):
        order = sorted(order, key=lambda i: spec['pars'][i])
    return ref.HPoly(spec['n'], len(order),
                     [(num(c), [pp[i] for i in order], zp) for c, pp, zp in spec['terms']])


def par_names(spec):
    if spec['kind'] == 'dwork':
        return ['psi']
    if spec['kind'] == 'fermat':
        return []
    return list(spec['pars']) if spec.get('explicit') else sorted(spec['pars'])


def build_variety(spec, cyjax, var='z'):
    if spec['kind'] == 'dwork':
        return cyjax.Dwork(spec['dim'], spec['factor'])
    if spec['kind'] == 'fermat':
        return cyjax.Fermat(spec['dim'])
    full = ref.HPoly(spec['n'], len(spec['pars']), [(num(c), pp, zp) for c, pp, zp in spec['terms']])
    expr = full.expr(var, spec['pars'])
    if spec['degree'] == spec['n'] and not spec.get('hom'):
        return cyjax.VarietySingle.from_sympy(
            expr, var, spec['n'], list(spec['pars']) if spec.get('explicit') else None)
    poly = cyjax.HomPoly.from_sympy(
        expr, [var], list(spec['pars']) if spec.get('explicit') else None, [spec['n']])
    return cyjax.VarietySingle(poly)


def summarise(x):
    """Stable short text of an array, for event logs."""
    a = np.asarray(x)
    if a.dtype == object:
        return str(x)
    return f'{a.shape}{a.dtype}{np.array2string(np.round(a.ravel()[:6], 6), threshold=8)}'


class Events:
    """Event log of one simulated execution; its hash identifies the execution."""

    def __init__(self):
        import hashlib
        self.h = hashlib.sha256()
        self.n = 0
        self.tail = []

    def add(self, *parts):
        s = '|'.join(str(p) for p in parts)
        self.h.update(s.encode() + b'\n')
        self.n += 1
        self.tail.append(s[:200])
        if len(self.tail) > 30:
            del self.tail[0]

    def hex(self):
        return self.h.hexdigest()[:16]


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, detail


def result(ev, violation=None, **kw):
    r = {'events': ev.hex(), 'steps': ev.n, 'violation': None}
    if violation is not None:
        r['violation'] = {'kind': violation.kind, 'detail': violation.detail[:1500], 'trace_tail': ev.tail[-15:]}
    r.update(kw)
    return r


def guarded(fn, what, *args, **kw):
    """Call code under test where nothing was injected: an exception there is a violation."""
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation('call-failed', f'{what} raised {type(e).__name__}: {str(e)[:300]}')
