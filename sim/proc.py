"""One process start of check C09: builds the items of a program in the given order and prints what it got."""
import json
import os
import sys


def arr(x):
    import numpy as np
    a = np.asarray(x)
    if a.dtype.kind == 'c':
        return [list(a.shape), [[float(v.real), float(v.imag)] for v in a.ravel()]]
    return [list(a.shape), [float(v) for v in a.ravel()]]


def signature(p):
    return {'names': [str(n) for n in p.variable_names],
            'indices': [None if i is None else [int(k) for k in i] for i in p.variable_indices],
            'params': [str(s) for s in p.parameters]}


def evaluate(p, np, table):
    """Value with every input taken from the table, in the order the object reports."""
    args = []
    for n, idx in zip(p.variable_names, p.variable_indices):
        args.append(np.array(table[n]) if idx is None else np.array([table[f'{n}{i}'] for i in idx]))
    args.append(np.array([table[str(s)] for s in p.parameters], dtype=complex))
    out = {'single': arr(p(*args))}
    big = [np.stack([a, a * 1.5]) for a in args[:-1]]
    kw = {'patch': None} if hasattr(p, 'affine_poly') else {}
    out['batched'] = arr(p.transform_eval()(*big, args[-1], **kw))
    return out


def build(item, mods, table):
    np, jax, sympy, cyjax = mods
    kind = item['kind']
    if kind in ('auto', 'hom'):
        cls = cyjax.HomPoly if kind == 'hom' else cyjax.Poly
        kw = {}
        if item.get('names'):
            kw['variable_names'] = item['names']
        if item.get('params') is not None:
            kw['parameters'] = item['params']
        src = item['expr']
        if item.get('sympy'):
            src = sympy.parse_expr(src)
        if item.get('gens'):
            pars = item['domain']
            dom = sympy.CC[[sympy.Symbol(s) for s in pars]] if pars else sympy.CC
            src = sympy.Poly(sympy.parse_expr(item['expr']), *[sympy.Symbol(s) for s in item['gens']], domain=dom)
            kw.pop('variable_names', None)
            kw.pop('parameters', None)
        p = cls.from_sympy(src, **kw)
        out = dict(signature(p), **evaluate(p, np, table))
        if all(i is not None for i in p.variable_indices):
            c, cp, pw = p.to_coeffs_and_powers()
            out['coeffs'] = [arr(c), [[str(s) for s in l] for l in cp], [None if w is None else np.asarray(w).tolist() for w in pw]]
        if kind == 'hom':
            q = p.affine_poly(tuple(0 for _ in p.variable_names) if len(p.variable_names) > 1 else 0)
            out['affine'] = dict(signature(q), **evaluate(q, np, table))
        return out
    if kind == 'coeffs':
        p = cyjax.Poly.from_coeffs_and_powers(item['coeffs'], item['powers'], item['coeffs_params'], item['names'])
        return dict(signature(p), **evaluate(p, np, table))
    if kind == 'combine':
        ps = [cyjax.Poly.from_sympy(e, item['names']) for e in item['exprs']]
        p = ps[0]
        for q, op in zip(ps[1:], item['ops']):
            p = p + q if op == 'add' else p - q if op == 'sub' else p * q
        return dict(signature(p), **evaluate(p, np, table))
    if kind == 'univ':
        p = cyjax.Poly.from_sympy(item['expr'], item['names'])
        out = []
        for c in cyjax.polynomial.univariate_coefficients(p, item['var']):
            out.append(dict(signature(c), **evaluate(c, np, table)) if hasattr(c, 'variable_names') else arr(c))
        return {'list': out}
    if kind == 'basis':
        b = cyjax.donaldson.MonomialBasisFull(item['dim'], item['degree'])
        return {'powers': np.asarray(b.power_matrix).tolist()}
    if kind == 'keys':
        s = cyjax.util.PRNGSequence(item['seed'])
        return {'keys': [np.asarray(next(s)).tolist() for _ in range(item['count'])]}
    kw = {'params': item['params']} if 'params' in item else {}
    v = cyjax.VarietySingle.from_sympy(item['expr'], 'z', item['n'], **kw)
    par = np.array([table[str(s)] for s in v.parameters], dtype=complex) * 0.5
    key = jax.random.PRNGKey(item['seed'])
    out = signature(v.defining_poly)
    if kind == 'variety':
        zs, w = v.sample_intersect(key, par, item['count'], weights=True)
        out.update(zs=arr(zs), weights=arr(w), params_used=arr(par))
    elif kind == 'reduced':
        b = cyjax.donaldson.MonomialBasisReduced(v, item['degree'], par)
        out['powers'] = np.asarray(b.power_matrix).tolist()
    else:
        def moduli(key, n):
            return cyjax.random.uniform_components(key, (n, v.par_count))
        s = cyjax.ml.BatchSampler(item['seed'] if item['as_int'] else key, v, moduli, item['batch'], item['points'], item['buffer'])
        out['batches'] = [[arr(a) for a in jax.tree_util.tree_leaves(next(s))] for _ in range(3)]
    return out


def main():
    job = json.loads(sys.stdin.read())
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import numpy as np
    import jax
    jax.config.update('jax_enable_x64', True)
    import sympy
    import cyjax
    assert cyjax.__file__.startswith(os.environ['VERIF_REPO'] + os.sep)
    table = {k: complex(*v) for k, v in job['table'].items()}
    out = {}
    for k in job['order']:
        try:
            got = build(job['items'][k], (np, jax, sympy, cyjax), table)
        except Exception as e:
            got = {'error': f'{type(e).__name__}: {str(e)[:300]}'}
        out.setdefault(str(k), []).append(got)
    json.dump(out, real)
    real.flush()


if __name__ == '__main__':
    main()
