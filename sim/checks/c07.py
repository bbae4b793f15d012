"""C07: polynomials and varieties behave like ordinary algebra after any history of (interrupted) calls."""
import numpy as np

from ..core import digest, rng_for
from ..algebra import Model, from_expression, sym
from .. import engine, ref, world
from ..world import Events, Violation, result, guarded

ID = 'C07'
LEVEL = 'exploration'
RULE = ('A case is a history of calls on a growing pool of polynomials and varieties that share operands; every result, '
        'and after every call one more member of the pool, is compared with a dictionary model. In faulty cases an '
        'exception is raised at a chosen executed line of a call, which is then repeated. Distinct and non-trivial: '
        'distinct sequences of calls (kind, operands, interrupted line) in which some object is used at least twice.')
COMPONENTS = {'real': ['cyjax.polynomial', 'cyjax.variety (evaluation, gradients, solving)', 'sympy', 'jax'],
              'simulated': ['exceptions raised at chosen executed lines']}
ASSUMPTIONS = ['interrupts arrive at line boundaries of the package',
               'a polynomial has at least one variable left after factoring one out']
WALL = {'quick': 300, 'thorough': 3000}

COEF = [1, 1, -1, 2, -3, 0.5, 0.75, [1, 2], [0, -1], [0.5, 0.25], 5]
PARS = ['a', 'b', 'mu', 'psi', 'k1', 'k2', 'c', 't', 'z7', 'p']


def gen_poly(rng, hom=False):
    """Description of a polynomial to be built by one of the constructors."""
    if hom:
        nv = rng.choice([1, 1, 1, 2, 2, 3])
        names = [['z', 'x', 'y'][i] for i in range(nv)]
        vs = []
        for n in names:
            start = rng.choice([0, 0, 0, 1, 2]) if rng.random() < 0.6 else 0
            size = rng.choice([2, 3, 3, 4] if nv < 3 else [2, 2, 3])
            idx = list(range(start, start + size))
            if rng.random() < 0.1:
                idx = sorted(rng.sample(range(6), size))
            vs.append([n, idx])
        degs = [rng.choice([1, 2, 3] if nv < 3 else [1, 1, 2]) for _ in vs]
    else:
        vs = []
        for n in rng.sample(['z', 'x', 'w', 'y'], rng.choice([1, 2, 2, 3])):
            if rng.random() < 0.35:
                vs.append([n, None])
            else:
                vs.append([n, sorted(rng.sample(range(4), rng.choice([1, 2, 3])))])
        if len(vs) == 1 and vs[0][1] is None:
            vs[0][1] = [0, 1]
        degs = None
    pars = rng.sample(PARS, rng.choice([0, 1, 1, 2, 3]))
    symbols = [sym(n, i) for n, idx in vs for i in ([None] if idx is None else idx)]
    pars = [p for p in pars if p not in symbols]
    terms = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        m = {}
        if hom:
            for (n, idx), d in zip(vs, degs):
                for _ in range(d):
                    s = sym(n, rng.choice(idx))
                    m[s] = m.get(s, 0) + 1
        else:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                s = rng.choice(symbols)
                m[s] = m.get(s, 0) + 1
        if pars and rng.random() < 0.6:
            p = rng.choice(pars)
            m[p] = m.get(p, 0) + 1
            if rng.random() < 0.2:
                p = rng.choice(pars)
                m[p] = m.get(p, 0) + 1
        terms.append([sorted(m.items()), rng.choice(COEF)])
    how = rng.choice(['sympy', 'sympy', 'expr', 'arrays', 'poly', 'coeffs', 'names', 'dims', 'raw'])
    return {'vars': vs, 'pars': pars, 'terms': terms, 'how': how, 'hom': hom, 'under': rng.random() < 0.3}


def gen(rng, faults):
    ops = [['poly', gen_poly(rng, hom=rng.random() < 0.5)]]
    if rng.random() < 0.5:
        spec = world.gen_variety(rng, dims=(1, 1, 2), complex_coeffs=True,
                                 degree=rng.choice([None, None, None, 2, 3]))
        ops.append(['variety', spec, [world.rnd_complex(rng) for _ in range(3)]])
    for _ in range(rng.randrange(6, 16)):
        r = rng.random()
        i, j, s = rng.randrange(1000), rng.randrange(1000), rng.randrange(2 ** 31)
        if r < 0.12:
            op = ['poly', gen_poly(rng, hom=rng.random() < 0.5)]
            if rng.random() < 0.4:        # an earlier one with its variables and parameters in another order
                d = rng.choice([o for o in ops if o[0] == 'poly'])[1]
                op = ['poly', dict(d, vars=rng.sample(d['vars'], len(d['vars'])), pars=rng.sample(d['pars'], len(d['pars'])))]
        elif r < 0.32:
            op = ['binary', rng.choice(['add', 'sub', 'mul']), i,
                  rng.choice([['pool', j], ['pool', j], ['pool', i], ['num', rng.choice(COEF)], ['sym', s]])]
        elif r < 0.40:
            op = ['diff', i, s]
        elif r < 0.48:
            op = ['affine', i, s]
        elif r < 0.60:
            op = ['eval', i, s, rng.choice(['np', 'jnp']), rng.random() < 0.4]
        elif r < 0.68:
            op = ['batch', i, s, rng.choice([1, 2, 3]), rng.random() < 0.5]
        elif r < 0.75:
            op = ['symbolic', i, s]
        elif r < 0.80:
            op = ['roundtrip', i]
        elif r < 0.86:
            op = ['univ', i, s]
        elif r < 0.88:
            op = ['show', i]
        else:
            op = ['vcall', i, rng.choice(['defining', 'defining', 'grad', 'grad', 'best', 'solve', 'jac', 'fs', 'poly', 'sample']), s,
                  rng.choice([None, 'int', 'array']), rng.random() < 0.5]
        ops.append(op)
    breaks = {}
    if faults:
        for k in range(len(ops)):
            if rng.random() < 0.4:
                breaks[str(k)] = [rng.random(), rng.random(), rng.choice(['runtime', 'interrupt', 'memory'])]
    return {'ops': ops, 'breaks': breaks, 'eager': rng.random() < 0.75}


def plan(rng, tier):
    n = 800 if tier == 'quick' else 6000
    return [gen(rng, i % 2 == 1) for i in range(n)]


def shrink(case, res):
    n = len(case['ops'])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            keep = [i for i in range(n) if not a <= i < a + size]
            if not keep:
                continue
            yield dict(case, ops=[case['ops'][i] for i in keep],
                       breaks={str(k): case['breaks'][str(i)] for k, i in enumerate(keep) if str(i) in case['breaks']})
    for k in list(case['breaks']):
        yield dict(case, breaks={a: b for a, b in case['breaks'].items() if a != k})


def setup(case):
    global jax, jnp, cyjax, sympy, P
    jax, cyjax = world.setup_jax(x64=True)
    import jax.numpy as jnp_
    import sympy as sympy_
    from cyjax import polynomial
    jnp, sympy, P = jnp_, sympy_, polynomial
    engine.install()


def values(model, seed, batch=None):
    """Random values: ({symbol: value}, [array per variable], parameter array)."""
    rng = np.random.default_rng(seed)
    shape = () if batch is None else (batch,)

    def draw(n=None):
        s = shape if n is None else shape + (n,)
        return rng.uniform(0.4, 1.2, s) * np.exp(2j * np.pi * rng.random(s))
    vals, arrs = {}, []
    for n, idx in model.names:
        a = draw(None if idx is None else len(idx))
        a = np.array(a)
        arrs.append(a)
        if idx is None:
            vals[n] = a.copy()
        else:
            for k, i in enumerate(idx):
                vals[sym(n, i)] = a[..., k]
    par = np.array(draw(len(model.params)))
    for k, p in enumerate(model.params):
        vals[p] = par[..., k]
    return vals, arrs, par


def agree(got, want, scale, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.dtype == object:
        raise Violation('wrong-value', f'{what} is not a number: {str(got)[:200]}')
    if got.shape != want.shape:
        raise Violation('wrong-shape', f'{what} has shape {got.shape}, expected {want.shape}')
    err = np.abs(got - want)
    if not np.all(np.isfinite(got)) or np.any(err > 1e-9 * (np.asarray(scale) + 1)):
        raise Violation('wrong-value', f'{what} is {got.ravel()[:3]}, algebra gives {want.ravel()[:3]}')


class Run:
    def __init__(self, case, ev):
        self.case, self.ev = case, ev
        self.pool, self.varieties, self.evaluators = [], [], []
        self.uses = 0

    # -- checks of one pool member
    def fingerprint(self, obj):
        return (tuple(map(str, obj.variable_names)),
                tuple(None if i is None else tuple(i) for i in obj.variable_indices),
                tuple(map(str, obj.parameters)))

    def meta(self, e, what):
        obj, m = e['obj'], e['model']
        got = self.fingerprint(obj)
        want = (tuple(n for n, _ in m.names), tuple(None if i is None else tuple(i) for _, i in m.names), tuple(m.params))
        if got != want:
            raise Violation('wrong-signature', f'{what}: variables, indices, parameters are {got}, expected {want}')

    def verify(self, e, what, seed=5):
        self.meta(e, what)
        obj, m = e['obj'], e['model']
        expr = guarded(lambda: obj.sympy_poly.as_expr(), f'{what}: symbolic form')
        try:
            got = from_expression(expr, m.symbols(), sympy)
        except Exception as x:
            raise Violation('wrong-symbolic', f'{what}: {expr} is not a polynomial in {m.symbols()}: {x}')
        if not m.close(got):
            raise Violation('wrong-symbolic', f'{what}: {expr} should be {m.expression()}')
        vals, arrs, par = values(m, seed)
        out = guarded(obj, f'{what}: evaluation', *arrs, par)
        agree(out, m.evaluate(vals), m.magnitude(vals), f'{what}: value')

    def pick(self, i, cond=None):
        ok = [e for e in self.pool if cond is None or cond(e)]
        return ok[i % len(ok)] if ok else None

    def label(self, e):
        return f'p{self.pool.index(e)}'

    def push(self, obj, model, hom, what):
        e = {'obj': obj, 'model': model, 'hom': hom}
        self.verify(e, what)
        if len(self.pool) < 14:
            self.pool.append(e)

    # -- operations: each returns (call, judge)
    def op_poly(self, d):
        terms = [(tuple((s, e) for s, e in m), world.num(c)) for m, c in d['terms']]
        model = Model(d['vars'], d['pars'], terms)
        cls = cyjax.HomPoly if d['hom'] else cyjax.Poly
        how = d['how']
        names = [n for n, _ in d['vars']]
        idx = [None if i is None else list(i) for _, i in d['vars']]
        text = model.expression(d['under'])
        pars = list(d['pars'])
        gaps = any(i is not None and i != list(range(len(i))) for i in idx)
        scalars = any(i is None for i in idx)
        used = {s for m in model.terms for s, _ in m}
        clash = any(P.split_subscript(p)[0] in names for p in pars)
        if how == 'dims' and not gaps and not scalars:
            call = lambda: cls.from_sympy(text, names, pars, [len(i) for i in idx])
        elif how == 'names' and used >= set(model.symbols()) and not clash and not scalars:
            # parameters found by the constructor are sorted by name
            model = Model(model.names, sorted(pars), model.terms)
            call = lambda: cls.from_sympy(text, names)
        elif how == 'arrays':
            arrs = [np.array(sympy.Symbol(n)) if i is None else np.array([sympy.Symbol(sym(n, k)) for k in i])
                    for n, i in zip(names, idx)]
            call = lambda: cls.from_sympy(text, arrs, [sympy.Symbol(p) for p in pars])
        elif how == 'expr':
            expr = sympy.parse_expr(text)
            call = lambda: cls.from_sympy(expr, names, pars, variable_indices=idx)
        elif how == 'poly':
            gens = [sympy.Symbol(s) for s in model.var_symbols()]
            dom = sympy.CC[[sympy.Symbol(p) for p in pars]] if pars else sympy.CC
            sp = sympy.Poly(sympy.parse_expr(model.expression()), *gens, domain=dom)
            call = lambda: cls.from_sympy(sp, names, None if pars else [], variable_indices=idx)
        elif how == 'coeffs' and not scalars and terms:
            coeffs = [c for _, c in terms]
            powers = [[[dict(m).get(sym(n, k), 0) for k in i] for m, _ in terms] for n, i in zip(names, idx)]
            cp = [[p for p in pars for _ in range(dict(m).get(p, 0))] for m, _ in terms]
            call = lambda: cls.from_coeffs_and_powers(coeffs, powers, cp, names, idx, pars)
        elif how == 'raw':
            sp = sympy.Poly(sympy.parse_expr(model.expression()), *[sympy.Symbol(s) for s in model.var_symbols()])
            call = lambda: cls(sp, list(names), [sympy.Symbol(p) for p in pars], idx)
        else:
            how = 'sympy'
            call = lambda: cls.from_sympy(text, names, pars, variable_indices=idx)
        return call, lambda out: self.push(out, model, d['hom'], f'new polynomial ({how})')

    def op_variety(self, spec, pars):
        model = world.ref_poly(spec)
        if len(self.varieties) >= 4:
            return None
        return (lambda: world.build_variety(spec, cyjax),
                lambda v: self.varieties.append({'obj': v, 'ref': model, 'names': world.par_names(spec)}))

    def op_binary(self, kind, i, other):
        a = self.pick(i)
        if other[0] == 'pool':
            b = self.pick(other[1], lambda e: a['model'].compatible(e['model']))
            if b is None:
                return None
            m, x = b['model'], b['obj']
        elif other[0] == 'num':
            x = world.num(other[1])
            m = Model([], [], [((), x)])
        else:
            rng = rng_for(other[1])
            vs = [(n, k) for n, k in a['model'].names]
            n, idx = rng.choice(vs)
            choices = [str(p) for p in a['model'].params] + ['newpar', 'g1', sym(n, None if idx is None else rng.choice(idx + [9, 0, 1, 2]))]
            s = rng.choice(choices)
            if s in a['model'].params or s in ('newpar', 'g1'):
                m = Model([], [s], [(((s, 1),), 1)])
            else:
                nm, ix = P.split_subscript(s)
                m = Model([(nm, None if ix is None else [ix])], [], [(((s, 1),), 1)])
            x = sympy.Symbol(s)
        if kind == 'mul' and (len(a['model'].terms) * len(m.terms) > 24 or a['model'].degree() + m.degree() > 8):
            kind = 'add'
        want = a['model'].mul(m) if kind == 'mul' else a['model'].add(m, 1 if kind == 'add' else -1)
        f = {'mul': lambda: a['obj'] * x, 'add': lambda: a['obj'] + x, 'sub': lambda: a['obj'] - x}[kind]
        return f, lambda out: self.push(out, want, False, f'{kind} of {self.label(a)} and {other[0]}')

    def op_diff(self, i, s):
        a = self.pick(i)
        rng = rng_for(s)
        v = rng.choice(a['model'].var_symbols())
        arg = v if rng.random() < 0.5 else sympy.Symbol(v)
        return (lambda: a['obj'].diff(arg),
                lambda out: self.push(out, a['model'].diff(v), a['hom'] and hasattr(out, 'affine_poly'), f'd/d{v} of {self.label(a)}'))

    def op_affine(self, i, s):
        a = self.pick(i, lambda e: e['hom'] and all(len(x) > 1 for _, x in e['model'].names))
        if a is None:
            return None
        rng = rng_for(s)
        patch = tuple(rng.randrange(len(x)) for _, x in a['model'].names)
        arg = patch[0] if len(patch) == 1 and rng.random() < 0.6 else patch
        want = a['model'].restrict(patch)
        a['affine'] = a.get('affine', {})

        def judge(out):
            # an affine form handed out earlier must still be right
            for pt, old in a['affine'].items():
                self.verify({'obj': old, 'model': a['model'].restrict(pt)}, f'earlier affine form {pt} of {self.label(a)}')
            a['affine'][patch] = out
            self.push(out, want, False, f'affine form {patch} of {self.label(a)}')
        return lambda: a['obj'].affine_poly(arg), judge

    def target(self, i, s, want_patch):
        """A polynomial, maybe a chart of it, and the model that applies."""
        a = self.pick(i)
        patch = None
        if want_patch and a['hom'] and all(len(x) > 1 for _, x in a['model'].names):
            rng = rng_for(s, 'patch')
            patch = tuple(rng.randrange(len(x)) for _, x in a['model'].names)
        return a, patch, a['model'] if patch is None else a['model'].restrict(patch)

    def op_eval(self, i, s, kind, aff):
        a, patch, m = self.target(i, s, aff)
        vals, arrs, par = values(m, s)
        keep = [x.copy() for x in arrs + [par]]
        ins = arrs + [par] if kind == 'np' else [jnp.asarray(x) for x in arrs + [par]]
        kw = {}
        if patch is not None:
            kw['patch'] = patch[0] if len(patch) == 1 and s % 2 else patch
        if s % 3 == 0:
            for (n, _), x in zip(m.names, ins):
                kw[n] = x
            kw['params'] = ins[-1]
            call = lambda: a['obj'](**kw)
        else:
            call = lambda: a['obj'](*ins, **kw)

        def judge(out):
            agree(out, m.evaluate(vals), m.magnitude(vals), f'value of {self.label(a)} at patch {patch}')
            for x, k in zip(arrs + [par], keep):
                if not np.array_equal(x, k):
                    raise Violation('input-changed', f'evaluating {self.label(a)} changed its input array')
            again = guarded(call, 'repeated evaluation')
            agree(again, m.evaluate(vals), m.magnitude(vals), f'second value of {self.label(a)}')
        return call, judge

    def op_batch(self, i, s, size, reuse):
        a, patch, m = self.target(i, s, s % 2)
        if not m.names or not all(idx is None or len(idx) for _, idx in m.names):
            return None
        vals, arrs, par = values(m, s, size)
        one = s % 5 == 0      # parameters without batch axis
        if one:
            par = par[0]
            for k, p in enumerate(m.params):
                vals[p] = par[k]
        if s % 7 == 0 and len(arrs) > 1:     # first variable without batch axis
            n, idx = m.names[0]
            arrs[0] = arrs[0][0]
            for k, v in [(None, n)] if idx is None else [(k, sym(n, x)) for k, x in enumerate(idx)]:
                vals[v] = arrs[0].copy() if k is None else arrs[0][k]
        old = [f for f in self.evaluators if f[0] is a]
        kw = {}
        if patch is not None:
            # without compilation the library expects arrays here
            kw['patch'] = patch[0] if len(patch) == 1 else tuple(jnp.asarray(x) for x in patch)
            if len(patch) == 1 and s % 11 == 0:
                kw['patch'] = np.full(size, patch[0])
        elif a['hom']:
            kw['patch'] = None

        def call():
            f = old[0][1] if reuse and old else a['obj'].transform_eval()
            self.last = f
            return f(*arrs, par, **kw)

        def judge(out):
            want = np.broadcast_to(m.evaluate(vals), (size,))
            agree(out, want, m.magnitude(vals), f'batched value of {self.label(a)} at patch {patch}')
            self.evaluators.append((a, self.last))
        return call, judge

    def op_symbolic(self, i, s):
        a = self.pick(i)
        m = a['model']
        rng = rng_for(s)
        if len(m.terms) > 14 or m.degree() > 5:
            return None
        # substitute every input by another symbol of the same polynomial, a number or a sum
        syms = m.symbols() + ['u0', 'u1']
        mapping = {}
        for v in m.symbols():
            r = rng.random()
            mapping[v] = rng.choice(syms) if r < 0.6 else rng.choice([2, 0, -1, 0.5]) if r < 0.8 else (rng.choice(syms), rng.choice(syms))
        if not any(isinstance(mapping[v], (str, tuple)) for v in m.symbols()):
            return None

        def conv(x):
            if isinstance(x, tuple):
                return sympy.Symbol(x[0]) + 2 * sympy.Symbol(x[1])
            return sympy.Symbol(x) if isinstance(x, str) else x
        args = []
        for n, idx in m.names:
            args.append(conv(mapping[n]) if idx is None else np.array([conv(mapping[sym(n, k)]) for k in idx], dtype=object))
        args.append(np.array([conv(mapping[p]) for p in m.params], dtype=object))
        if m.names[0][1] is None and isinstance(args[0], (int, float)) and not m.params and len(m.names) == 1:
            return None

        def judge(out):
            rng2 = np.random.default_rng(s)
            pt = {v: complex(*rng2.normal(size=2)) for v in syms}

            def num(x):
                return pt[x[0]] + 2 * pt[x[1]] if isinstance(x, tuple) else pt[x] if isinstance(x, str) else x
            inner = {v: num(mapping[v]) for v in m.symbols()}
            want = m.evaluate(inner)
            free = [str(f) for f in getattr(out, 'free_symbols', [])]
            if any(f not in pt for f in free):
                raise Violation('wrong-value', f'symbolic value of {self.label(a)} contains {free}')
            got = complex(sympy.sympify(out).subs({sympy.Symbol(f): pt[f] for f in free}))
            agree(got, want, m.magnitude(inner) * 100, f'symbolic value of {self.label(a)} under {mapping}')
        return lambda: a['obj'](*args), judge

    def op_roundtrip(self, i):
        a = self.pick(i)
        m = a['model']
        if any(idx is None for _, idx in m.names):
            return None

        def call():
            c, cp, pw = a['obj'].to_coeffs_and_powers()
            return c, cp, pw

        def judge(out):
            c, cp, pw = out
            total = {}
            for k in range(len(c)):
                mono = {}
                for (n, idx), rows in zip(m.names, pw):
                    if rows is None:
                        continue
                    for x, e in zip(idx, rows[k]):
                        mono[sym(n, x)] = int(e)
                for p in cp[k]:
                    mono[str(p)] = mono.get(str(p), 0) + 1
                t = tuple(sorted((x, e) for x, e in mono.items() if e))
                total[t] = total.get(t, 0) + complex(c[k])
            if not Model(m.names, m.params, total).close(m):
                raise Violation('wrong-coefficients', f'coefficients and powers of {self.label(a)} add up to '
                                f'{Model(m.names, m.params, total).expression()} instead of {m.expression()}')
            if any(r is None for r in pw):
                return
            back = guarded(lambda: cyjax.Poly.from_coeffs_and_powers(
                c, pw, cp, list(a['obj'].variable_names), list(a['obj'].variable_indices), list(a['obj'].parameters)),
                'rebuilding from coefficients')
            self.push(back, m, False, f'rebuilt {self.label(a)}')
        return call, judge

    def op_univ(self, i, s):
        a = self.pick(i)
        m = a['model']
        rng = rng_for(s)
        vs = m.var_symbols()
        if len(vs) < 2:
            return None
        v = rng.choice(vs)
        arg = rng.choice([v, sympy.Symbol(v)])
        want = m.coefficients(v)

        def judge(out):
            if len(out) != len(want):
                raise Violation('wrong-coefficients', f'{len(out)} coefficients in {v} of {self.label(a)}, expected {len(want)}')
            for k, (o, w) in enumerate(zip(out, want)):
                what = f'coefficient {k} in {v} of {self.label(a)}'
                if isinstance(o, P.Poly):
                    self.verify({'obj': o, 'model': w}, what)
                else:
                    if any(mm for mm in w.terms):
                        raise Violation('wrong-coefficients', f'{what} is the number {o}, expected {w.expression()}')
                    agree(np.asarray(o, dtype=complex), w.terms.get((), 0j), 1, what)
        return lambda: P.univariate_coefficients(a['obj'], arg), judge

    def op_show(self, i):
        a = self.pick(i)

        def call():
            return repr(a['obj']), a['obj']._repr_latex_() if hasattr(a['obj'], '_repr_latex_') else ''
        return call, lambda out: None

    def op_vcall(self, i, name, s, patch_kind, batched):
        if not self.varieties:
            return None
        v = self.varieties[i % len(self.varieties)]
        obj, q = v['obj'], v['ref']
        rng = np.random.default_rng(s)
        n = q.n
        if name == 'poly':
            terms = []
            for c, pp, zp in q.terms:
                terms.append((tuple((f'z{k}', e) for k, e in enumerate(zp)) + tuple(zip(v['names'], pp)), c))
            m = Model([('z', list(range(n)))], v['names'], terms)
            return lambda: obj.defining_poly, lambda out: self.push(out, m, True, 'defining polynomial')
        if name == 'sample':
            return self.sample(v, s, i % len(self.varieties))
        size = 3
        shape = (size,) if batched else ()
        par = rng.uniform(0.2, 1, q.n_par) * np.exp(2j * np.pi * rng.random(q.n_par))
        patch = None
        if name in ('best', 'jac', 'fs'):
            patch_kind = patch_kind or 'int'
        if patch_kind == 'int' or (patch_kind and not batched):
            patch = int(rng.integers(n))
        elif patch_kind == 'array':
            patch = rng.integers(n, size=size)
        if name == 'solve' and patch_kind == 'array':
            patch = int(rng.integers(n))
        dim = n if patch is None else n - 1
        zs = rng.uniform(0.3, 1.2, shape + (dim,)) * np.exp(2j * np.pi * rng.random(shape + (dim,)))
        keep = zs.copy(), par.copy()
        param = None if q.n_par == 0 and s % 2 and name == 'defining' else par

        def hom(z, p):
            return z if p is None else np.insert(z, p, 1.0)

        def each(f):
            if not batched:
                return f(zs, patch)
            return np.array([f(zs[k], patch if patch is None or np.ndim(patch) == 0 else int(patch[k])) for k in range(size)])

        def grad(z, p):
            g = q.grad(hom(z, p), par)
            return g if p is None else np.delete(g, p)
        what = f'{name} of variety {i % len(self.varieties)} at patch {patch}'
        dep = None
        if name == 'defining':
            call = lambda: obj.defining(zs, param, patch)
            want = each(lambda z, p: q(hom(z, p), par))
        elif name == 'grad':
            call = lambda: obj.grad_defining(zs, param, patch)
            want = each(grad)
        elif name == 'best':
            call = lambda: obj.best_dependent(zs, param, patch)
            want = each(lambda z, p: np.argmax(np.abs(grad(z, p))))
            gap = each(lambda z, p: -np.diff(np.sort(np.abs(grad(z, p)))[::-1])[0])
            if np.min(gap) < 1e-6:
                return None
        elif name == 'jac':
            dep = int(rng.integers(dim))
            call = lambda: obj.jacobian_embed(zs, param, patch, dep)
            want = each(lambda z, p: ref.jac(grad(z, p), dep))
            if np.max(np.abs(want)) > 1e4 or not np.all(np.isfinite(want)):
                return None
        elif name == 'fs':
            dep = int(rng.integers(dim))
            call = lambda: obj.induced_fs(zs, param, patch, dependent=dep if not batched else np.full(size, dep))

            def fs(z, p):
                J = ref.jac(grad(z, p), dep)
                return J @ ref.fs_metric(z, np.conj(z)) @ J.conj().T
            want = each(fs)
            if np.max(np.abs(want)) > 1e4 or not np.all(np.isfinite(want)):
                return None
        else:
            dep = int(rng.integers(dim))
            loc = zs[..., 1:]

            def call():
                return obj.solve_defining(loc, param, dep, patch)

            def judge(out):
                out = np.asarray(out)
                pts = out if batched else out[None]
                locs = loc if batched else loc[None]
                h = dep if patch is None else dep + (patch <= dep)
                deg = max(zp[h] for _, _, zp in q.terms)
                if pts.shape != (len(locs), deg, dim):
                    raise Violation('wrong-shape', f'{what} has shape {out.shape}')
                for ps, l in zip(pts, locs):
                    lead = sum(q.coef(c, pp, par) * np.prod([x ** e for k, (x, e) in enumerate(
                        zip(hom(np.insert(l, dep, 1.0), patch), zp)) if k != h]) for c, pp, zp in q.terms if zp[h] == deg)
                    if deg == 0 or abs(lead) < 1e-2:
                        continue
                    for p in ps:
                        agree(np.delete(p, dep), l, 1, f'{what}: given coordinates')
                        val, mag = q(hom(p, patch), par), q.magnitude(hom(p, patch), par)
                        if not abs(val) < 1e-6 * (mag + 1):
                            raise Violation('wrong-value', f'{what}: {p} is not a solution, the equation gives {val}')
                self.unchanged(zs, par, keep, what)
            return call, judge
        scale = np.max(np.abs(want)) * 10 + 10

        def judge(out):
            agree(out, want, scale, what)
            self.unchanged(zs, par, keep, what)
        return call, judge

    def sample(self, v, s, i):
        obj, q = v['obj'], v['ref']
        rng = np.random.default_rng(s)
        par = rng.uniform(0.2, 1, q.n_par) * np.exp(2j * np.pi * rng.random(q.n_par))
        keep = par.copy()
        count = 1 + s % 4

        def judge(out):
            zs, w = np.asarray(out[0]), np.asarray(out[1])
            what = f'sample of variety {i}'
            if zs.shape != (count, q.n) or w.shape != (count,):
                raise Violation('wrong-shape', f'{what} has shapes {zs.shape} and {w.shape}, {count} points were requested')
            zs = zs / np.abs(zs).max(axis=-1, keepdims=True)
            for z in zs:
                if not abs(q(z, par)) <= 1e-6 * (1 + q.magnitude(z, par)):
                    raise Violation('wrong-value', f'{what}: {z} is not on the variety')
            self.unchanged(keep, par, (keep, keep), what)
        return lambda: obj.sample_intersect(jax.random.PRNGKey(s), par, count, weights=True), judge

    def unchanged(self, zs, par, keep, what):
        if not (np.array_equal(zs, keep[0]) and np.array_equal(par, keep[1])):
            raise Violation('input-changed', f'{what} changed its input array')

    # -- the history
    def play(self, recorded=None, faults=None):
        """First pass (recorded is a dict to fill) without faults, second pass with them."""
        hist = []
        for k, op in enumerate(self.case['ops']):
            if op[0] not in ('poly', 'variety', 'vcall') and not self.pool:
                continue
            prep = getattr(self, 'op_' + op[0])(*op[1:])
            if prep is None:
                continue
            call, judge = prep
            what = f'operation {k} ({op[0]})'
            br = self.case['breaks'].get(str(k))
            fired = None
            if br is not None and recorded is not None:
                if faults is None:
                    with engine.Recorder() as rec:
                        out = guarded(call, what)
                    recorded[k] = engine.pick_event(rec.locs, br[0], br[1])
                    self.ev.add(k, op[0])
                    continue_judge = True
                elif recorded.get(k):
                    inj = engine.Injector(recorded[k], br[2])
                    out = None
                    try:
                        with inj:
                            out = call()
                    except engine.Injected:
                        pass
                    except Exception as e:
                        if inj.fired is None:
                            raise Violation('call-failed', f'{what} raised {type(e).__name__}: {str(e)[:200]}')
                    if inj.fired:
                        fired = inj.fired
                        faults[br[2]] = faults.get(br[2], 0) + 1
                    for e in self.pool:
                        self.meta(e, f'{self.label(e)} after interrupted {what}')
                    out = guarded(call, what + (f' after it was interrupted at {fired}' if fired else ''))
                else:
                    out = guarded(call, what)
            else:
                out = guarded(call, what)
            judge(out)
            self.uses += 1
            for j, v in enumerate(self.varieties):
                got = [str(p) for p in v['obj'].parameters], v['obj'].par_count
                if got != (v['names'], len(v['names'])):
                    raise Violation('wrong-signature', f'variety {j} after {what}: parameters are {got}, expected {v["names"]}')
            for e in self.pool:
                self.meta(e, f'{self.label(e)} after {what}')
            if self.pool:
                e = self.pool[(k * 7) % len(self.pool)]
                self.verify(e, f'{self.label(e)} after {what}', seed=k)
            self.ev.add(k, op[0], fired, len(self.pool))
            hist.append([op[0], op[1] if isinstance(op[1], (str, int)) else '', fired])
        return hist


def run(case):
    ev, faults, viol, sigs = Events(), {}, None, []
    stats = {'operations': 0}
    jax.config.update('jax_disable_jit', bool(case['eager']))
    try:
        recorded = {}
        r = Run(case, ev)
        hist = r.play(recorded if case['breaks'] else None)
        stats['operations'] += r.uses
        if case['breaks']:
            r = Run(case, ev)
            hist = r.play(recorded, faults)
            stats['operations'] += r.uses
        if len(hist) > 3:
            sigs = [digest([hist, case['eager']])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    return result(ev, viol, stats=stats, faults=faults, sigs=sigs, summary=f'{stats["operations"]} operations')
