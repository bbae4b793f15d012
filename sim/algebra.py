"""Reference model of polynomials: a dictionary from monomials to coefficients."""
import numpy as np


def sym(name, index):
    return name if index is None else f'{name}{index}'


class Model:
    """names: [(variable, indices or None)]; params: [name]; terms: {((symbol, power), ...): coefficient}."""

    def __init__(self, names, params, terms):
        self.names = [(n, None if i is None else list(i)) for n, i in names]
        self.params = list(params)
        self.terms = {}
        for m, c in terms.items() if isinstance(terms, dict) else terms:
            m = tuple(sorted((s, e) for s, e in m if e))
            self.terms[m] = self.terms.get(m, 0) + complex(c)
        self.terms = {m: c for m, c in self.terms.items() if abs(c) > 1e-13}

    def var_symbols(self):
        return [sym(n, i) for n, idx in self.names for i in ([None] if idx is None else idx)]

    def symbols(self):
        return self.var_symbols() + self.params

    def degree_in(self, s):
        return max([dict(m).get(s, 0) for m in self.terms] or [0])

    def degree(self):
        v = set(self.var_symbols())
        return max([sum(e for s, e in m if s in v) for m in self.terms] or [0])

    def merged(self, other):
        names = [(n, None if i is None else list(i)) for n, i in self.names]
        pos = {n: k for k, (n, _) in enumerate(names)}
        for n, idx in other.names:
            if n not in pos:
                names.append((n, idx))
            elif idx is not None:
                names[pos[n]] = (n, sorted(set(names[pos[n]][1]) | set(idx)))
        return names, self.params + [p for p in other.params if p not in self.params]

    def compatible(self, other):
        a, b = dict(self.names), dict(other.names)
        return all((a[n] is None) == (b[n] is None) for n in a if n in b) and \
            not set(self.params) & set(other.var_symbols()) and not set(other.params) & set(self.var_symbols())

    def add(self, other, sign=1):
        names, params = self.merged(other)
        terms = dict(self.terms)
        for m, c in other.terms.items():
            terms[m] = terms.get(m, 0) + sign * c
        return Model(names, params, terms)

    def mul(self, other):
        names, params = self.merged(other)
        terms = {}
        for m, c in self.terms.items():
            for k, d in other.terms.items():
                e = dict(m)
                for s, x in k:
                    e[s] = e.get(s, 0) + x
                t = tuple(sorted(e.items()))
                terms[t] = terms.get(t, 0) + c * d
        return Model(names, params, terms)

    def diff(self, s):
        terms = {}
        for m, c in self.terms.items():
            e = dict(m)
            k = e.get(s, 0)
            if k:
                e[s] = k - 1
                t = tuple(sorted((a, b) for a, b in e.items() if b))
                terms[t] = terms.get(t, 0) + k * c
        return Model(self.names, self.params, terms)

    def restrict(self, patch):
        """Set the patch-th coordinate of every variable to one."""
        ones = {sym(n, idx[p]) for (n, idx), p in zip(self.names, patch)}
        names = [(n, [i for k, i in enumerate(idx) if k != p]) for (n, idx), p in zip(self.names, patch)]
        terms = {}
        for m, c in self.terms.items():
            t = tuple((s, e) for s, e in m if s not in ones)
            terms[t] = terms.get(t, 0) + c
        return Model(names, self.params, terms)

    def coefficients(self, s):
        """Coefficient polynomials in s, highest power first."""
        deg = self.degree_in(s)
        names = []
        for n, idx in self.names:
            if idx is None:
                if n != s:
                    names.append((n, None))
            else:
                rest = [i for i in idx if sym(n, i) != s]
                if rest:
                    names.append((n, rest))
        out = [{} for _ in range(deg + 1)]
        for m, c in self.terms.items():
            e = dict(m)
            k = e.pop(s, 0)
            out[deg - k][tuple(sorted(e.items()))] = c
        return [Model(names, self.params, t) for t in out]

    def evaluate(self, values):
        """values: {symbol: complex number or array}."""
        tot = 0
        for m, c in self.terms.items():
            t = c
            for s, e in m:
                t = t * values[s] ** e
            tot = tot + t
        return tot

    def magnitude(self, values):
        tot = 0
        for m, c in self.terms.items():
            t = abs(c)
            for s, e in m:
                t = t * abs(values[s]) ** e
            tot = tot + t
        return tot

    def expression(self, underscore=False, order=None):
        pars = set(self.params)
        ren = {}
        if underscore:
            for n, idx in self.names:
                for i in idx or []:
                    ren[sym(n, i)] = f'{n}_{i}'
        out = []
        for m, c in sorted(self.terms.items(), key=lambda t: str(t[0])):
            f = []
            if c.imag == 0:
                f.append(f'({int(c.real)})' if c.real == int(c.real) else f'({c.real!r})')
            else:
                f.append(f'({c.real!r}+({c.imag!r})*I)')
            # parameters first, as one would write it
            for s, e in sorted(m, key=lambda t: (t[0] not in pars, t[0])):
                s = ren.get(s, s)
                f.append(f'{s}**{e}' if e > 1 else s)
            out.append('*'.join(f))
        if order is not None:
            order.shuffle(out)
        return ' + '.join(out) if out else '0'

    def close(self, other, tol=1e-9):
        keys = set(self.terms) | set(other.terms)
        scale = max([abs(c) for c in self.terms.values()] or [1])
        return all(abs(self.terms.get(k, 0) - other.terms.get(k, 0)) <= tol * max(1, scale) for k in keys)


def from_expression(expr, symbols, sympy):
    """Model terms of a sympy expression."""
    gens = [sympy.Symbol(s) for s in symbols]
    expr = sympy.expand(expr)
    extra = expr.free_symbols - set(gens)
    if extra:
        raise ValueError(f'unknown symbols {sorted(map(str, extra))}')
    if not gens or not expr.free_symbols:
        return Model([], symbols, [((), complex(expr))])
    p = sympy.Poly(expr, *gens)
    return Model([], symbols, [(tuple(zip(symbols, mono)), complex(c)) for mono, c in p.terms()])
