"""Independent reference models (plain numpy / Python, no code shared with the package)."""
import itertools
import math

import numpy as np


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))))


class HPoly:
    """Polynomial in n variables with parameters: list of (coefficient, parameter powers, powers)."""

    def __init__(self, n, n_par, terms):
        self.n, self.n_par = n, n_par
        self.terms = [(complex(c), tuple(pp), tuple(zp)) for c, pp, zp in terms]

    def coef(self, c, pp, params):
        for p, e in zip(params, pp):
            if e:
                c = c * complex(p) ** e
        return c

    def __call__(self, z, params=()):
        z = np.asarray(z, dtype=complex)
        tot = np.zeros(z.shape[:-1], dtype=complex)
        for c, pp, zp in self.terms:
            m = np.ones(z.shape[:-1], dtype=complex)
            for i, e in enumerate(zp):
                if e:
                    m = m * z[..., i] ** e
            tot = tot + self.coef(c, pp, params) * m
        return tot

    def magnitude(self, z, params=()):
        """Sum of absolute values of the terms: the scale rounding errors are measured against."""
        z = np.abs(np.asarray(z, dtype=complex))
        tot = np.zeros(z.shape[:-1])
        for c, pp, zp in self.terms:
            m = np.ones(z.shape[:-1])
            for i, e in enumerate(zp):
                if e:
                    m = m * z[..., i] ** e
            tot = tot + abs(self.coef(c, pp, params)) * m
        return tot

    def grad(self, z, params=()):
        z = np.asarray(z, dtype=complex)
        out = np.zeros(z.shape, dtype=complex)
        for c, pp, zp in self.terms:
            c = self.coef(c, pp, params)
            for j in range(self.n):
                if zp[j] == 0:
                    continue
                m = np.full(z.shape[:-1], c * zp[j], dtype=complex)
                for i, e in enumerate(zp):
                    e = e - (i == j)
                    if e:
                        m = m * z[..., i] ** e
                out[..., j] += m
        return out

    def conj(self):
        return HPoly(self.n, self.n_par, [(np.conj(c), pp, zp) for c, pp, zp in self.terms])

    def expr(self, var='z', pars=()):
        """The same polynomial as an expression string."""
        out = []
        for c, pp, zp in self.terms:
            f = []
            if c.imag == 0:
                r = c.real
                f.append(f'({int(r)})' if r == int(r) else f'({r!r})')
            else:
                f.append(f'({c.real!r}+({c.imag!r})*I)')
            f += [f'{p}**{e}' if e > 1 else str(p) for p, e in zip(pars, pp) if e]
            f += [f'{var}{i}**{e}' if e > 1 else f'{var}{i}' for i, e in enumerate(zp) if e]
            out.append('*'.join(f))
        return ' + '.join(out)


def dwork(n, factor):
    t = [(1, (0,), tuple(n if i == j else 0 for i in range(n))) for j in range(n)]
    t.append((factor, (1,), (1,) * n))
    return HPoly(n, 1, t)


def fermat(n):
    return HPoly(n, 0, [(1, (), tuple(n if i == j else 0 for i in range(n))) for j in range(n)])


def insert_one(z, patch):
    z = np.asarray(z, dtype=complex)
    return np.insert(z, patch, 1.0, axis=-1)


def fs_metric(z, zc):
    n = 1 + np.sum(z * zc)
    return (np.eye(len(z)) * n - np.outer(zc, z)) / n ** 2


def jac(grad, dep):
    """Rows: local coordinates (dep omitted); columns: affine coordinates."""
    d = len(grad)
    rows = [i for i in range(d) if i != dep]
    J = np.zeros((d - 1, d), dtype=complex)
    for r, i in enumerate(rows):
        J[r, i] = 1
        J[r, dep] = -grad[i] / grad[dep]
    return J


class Geometry:
    """Algebraic metric on a hypersurface at one affine point, from first principles.

    Everything is a function of independent z and zc (the conjugate), so mixed derivatives can
    be taken by finite differences.
    """

    def __init__(self, poly, pows, degree):
        self.poly, self.pows, self.degree = poly, np.asarray(pows), degree
        self.cpoly = poly.conj()

    def aff_grad(self, z, patch, params, conj=False):
        p = self.cpoly if conj else self.poly
        par = np.conj(params) if conj and params is not None else params
        g = p.grad(insert_one(z, patch), par if par is not None else ())
        return np.delete(g, patch, axis=-1)

    def s(self, z, patch):
        zh = insert_one(z, patch)
        return np.prod(zh[None, :] ** self.pows, axis=1)

    def ds(self, z, patch):
        zh = insert_one(z, patch)
        idx = [i for i in range(len(zh)) if i != patch]
        out = np.zeros((len(self.pows), len(idx)), dtype=complex)
        for a, i in enumerate(idx):
            q = self.pows.copy()
            e = q[:, i].copy()
            q[:, i] = np.maximum(e - 1, 0)
            out[:, a] = e * np.prod(zh[None, :] ** q, axis=1)
        return out

    def d2s(self, z, patch):
        zh = insert_one(z, patch)
        idx = [i for i in range(len(zh)) if i != patch]
        out = np.zeros((len(self.pows), len(idx), len(idx)), dtype=complex)
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                q = self.pows.copy()
                f = q[:, i].astype(float)
                q[:, i] = np.maximum(q[:, i] - 1, 0)
                f = f * q[:, j]
                if i == j:
                    f = self.pows[:, i] * (self.pows[:, i] - 1.0)
                q[:, j] = np.maximum(q[:, j] - 1, 0)
                out[:, a, b] = f * np.prod(zh[None, :] ** q, axis=1)
        return out

    @staticmethod
    def hmat(h):
        h = np.asarray(h)
        return np.diag(h) if h.ndim == 1 else h

    def psi(self, h, z, zc, patch):
        return self.s(z, patch) @ self.hmat(h) @ self.s(zc, patch)

    def g_amb(self, h, z, zc, patch):
        H = self.hmat(h)
        s, sc = self.s(z, patch), self.s(zc, patch)
        d, dc = self.ds(z, patch), self.ds(zc, patch)
        psi = s @ H @ sc
        ph = d.T @ H @ sc
        pa = s @ H @ dc
        pha = d.T @ H @ dc
        return (pha / psi - np.outer(ph, pa) / psi ** 2) / (np.pi * self.degree)

    def dep(self, z, patch, params):
        return int(np.argmax(np.abs(self.aff_grad(z, patch, params))))

    def g_loc(self, h, z, zc, patch, params, dep):
        J = jac(self.aff_grad(z, patch, params), dep)
        Jc = jac(self.aff_grad(zc, patch, params, conj=True), dep)
        return J @ self.g_amb(h, z, zc, patch) @ Jc.T

    def eta(self, h, z, patch, params, dep=None):
        dep = self.dep(z, patch, params) if dep is None else dep
        zc = np.conj(z)
        G = self.aff_grad(z, patch, params)
        return np.linalg.det(self.g_loc(h, z, zc, patch, params, dep)) * abs(G[dep]) ** 2

    def kahler(self, h, z, patch):
        return np.log(self.psi(h, z, np.conj(z), patch)) / (np.pi * self.degree)

    def ricci(self, h, z, patch, params, dep, eps=2e-4):
        """Pulled back -d dbar log det g, by finite differences in z and zc."""
        zc = np.conj(z)
        d = len(z)

        def F(u, v):
            return np.log(np.linalg.det(self.g_loc(h, u, v, patch, params, dep)))

        R = np.zeros((d, d), dtype=complex)
        for a in range(d):
            for b in range(d):
                ea, eb = np.zeros(d), np.zeros(d)
                ea[a] = eps
                eb[b] = eps
                R[a, b] = -(F(z + ea, zc + eb) - F(z + ea, zc - eb)
                            - F(z - ea, zc + eb) + F(z - ea, zc - eb)) / (4 * eps ** 2)
        J = jac(self.aff_grad(z, patch, params), dep)
        return J @ R @ np.conj(J).T

    def weight(self, z, patch, params):
        """dVolCY / dA with the normalised Fubini-Study volume."""
        dep = self.dep(z, patch, params)
        G = self.aff_grad(z, patch, params)
        J = jac(G, dep)
        g = J @ fs_metric(z, np.conj(z)) @ np.conj(J).T
        d = len(z) - 1
        det = np.linalg.det(g).real * math.factorial(d) / np.pi ** d
        return 1 / (det * abs(G[dep]) ** 2)


def monomials(n, degree):
    """All exponent vectors of the degree, in no particular order."""
    out = []
    for c in itertools.combinations_with_replacement(range(n), degree):
        e = [0] * n
        for i in c:
            e[i] += 1
        out.append(tuple(e))
    return out
