From 4bbfdc5673c068ddb3d423a220e13c1b92fde680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:31 +0000
Subject: [PATCH 01/21] fix: keep the batch sampler usable when a refill fails

Refill the buffer when a sample is requested from an exhausted buffer
instead of right after the last one was taken. Before, an error or
interrupt during the refill lost the sample about to be returned and left
the index beyond the end of the buffer, so every later draw raised an
IndexError.
---
 cyjax/ml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyjax/ml.py b/cyjax/ml.py
index 9d1a5b6..86e0562 100644
--- a/cyjax/ml.py
+++ b/cyjax/ml.py
@@ -158,11 +158,11 @@ class BatchSampler:
         self.buffer = []
 
         self.new_buffer()
-        self._index = 0
 
     def new_buffer(self):
         """Generate and buffer new samples."""
         self.buffer.clear()
+        self._index = 0
         for b in range(self.buffer_size):
             sample = self.sample(next(self.rns))
             # moving arrays to device here is crucial for performance
@@ -173,11 +173,12 @@ class BatchSampler:
         return self
 
     def __next__(self):
+        # refill only when needed, so that an error or interrupt while sampling
+        # neither loses buffered samples nor leaves the index out of range
+        if self._index >= len(self.buffer):
+            self.new_buffer()
         sample = self.buffer[self._index]
         self._index += 1
-        if self._index == self.buffer_size:
-            self.new_buffer()
-            self._index = 0
         return sample
 
 
-- 
2.43.0


From c205f950dddf53d6b63a43e81963011d14b33665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:58 +0000
Subject: [PATCH 02/21] fix: return the requested number of points for every
 degree

Sampling assumed that a line meets the variety in as many points as there
are homogeneous coordinates. A variety of lower degree returned fewer
points than asked for. The number of lines now follows from the degree.
---
 cyjax/variety.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..eec3b96 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -252,9 +252,10 @@ class VarietySingle:
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line intersects the variety in as many points as its degree
+        sample_count = np.ceil(count / (len(coefficients) - 1)).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From e5bd6a764be1fdad71569abcc3dffc71aeabe327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:51 +0000
Subject: [PATCH 03/21] fix: integrate the integrand in Monte Carlo integration

The result was the mean of the weights and ignored the integrand. The
integrand times the weight is averaged now, including for array valued
integrands. The variance over batches is computed for each component.
---
 cyjax/util.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..be8eb00 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -164,6 +164,12 @@ def unflatten_coord(arr: Union[Array, tuple[Array, ...]], old_shape: Shape) \
             lambda a: a.reshape((*old_shape, *a.shape[1:])), arr)
 
 
+def _weighted(vals, w):
+    """Multiply the value(s) at each point with the weight of the point."""
+    extra = max(jnp.ndim(vals) - jnp.ndim(w), 0)
+    return vals * jnp.reshape(w, jnp.shape(w) + (1,) * extra)
+
+
 def mc_integrate(
         key: PRNGKey, count: int, fn: Callable[[Array], Array],
         sample: Callable[[PRNGKey, int], Array], var: bool = False) \
@@ -195,8 +201,8 @@ def mc_integrate(
     """
     zs, w = sample(key, count)
 
-    vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    vals = _weighted(fn(zs), w)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
@@ -229,8 +235,8 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
 
         zs, w = sample(key, batch_size)
 
-        vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        vals = _weighted(fn(zs), w)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
@@ -240,7 +246,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From 3a2f4adbf3b5c087b68b04872b35045cf12ccfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:37 +0000
Subject: [PATCH 04/21] fix: do not reuse random keys between integration
 batches

The key of one batch was also split to obtain the key of the next one, so
batches were not independent. Each batch gets its own key now.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index be8eb00..c3e4017 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -233,7 +233,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     def step(key, _):
         k1, k2 = jax.random.split(key)
 
-        zs, w = sample(key, batch_size)
+        zs, w = sample(k1, batch_size)
 
         vals = _weighted(fn(zs), w)
         val = jnp.mean(vals, axis=0)
-- 
2.43.0


From eef2f48f82502bc6063e78dc76d812ed3aaad323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:46 +0000
Subject: [PATCH 05/21] fix: keep degenerate points out of Donaldson steps

Points with infinite or undefined coordinates turned the whole matrix into
nan although their weight was set to zero. They are masked now.
---
 cyjax/donaldson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..a451b5b 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -870,7 +870,10 @@ class AlgebraicMetric:
             key_sample = keys[i]
             (zs, patch), weights = self.variety.sample_intersect(key_sample, params, batch_size, affine=True,
                                                                  weights=True)
-            weights = jnp.nan_to_num(weights, posinf=0, neginf=0, nan=0)
+            # degenerate points must not contribute (also not as nan * 0)
+            valid = jnp.isfinite(weights) & jnp.all(jnp.isfinite(zs), axis=-1)
+            weights = jnp.where(valid, weights, 0)
+            zs = jnp.where(valid.reshape(-1, 1), zs, 1)
             # seems to be cheaper as long as not taking derivatives
             mon = self.sections(zs, patch)
             mon_c = mon.conj()
-- 
2.43.0


From abe8a8804db4f63f72d522e1a030bf2c592c9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:03 +0000
Subject: [PATCH 06/21] fix: recompute sections when the chart changes and
 return psi_hh for diagonal h

The sections and their derivatives closed over the chart given to the
constructor. Assigning a new chart therefore left them at their old values.

The second derivative of psi did not return its result for one-dimensional
h, so it fell through to the matrix formula and raised.
---
 cyjax/donaldson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index a451b5b..b16c31f 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -361,15 +361,15 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
         assert zs.shape[-1] == variety.dim_projective, \
             'coordinates do not match variety dimension'
 
-        def pow_fn(zs):
+        def pow_fn(zs, patch):
             return sections(zs, patch, **section_args)
 
         jac_fn = jax.jacfwd(pow_fn, holomorphic=True)
 
         # compute sections & gradients
         self.s = pow_fn  # computes monomials
-        self.register('s_1', jac_fn, ['zs'])
-        self.register('s_2', jax.jacfwd(jac_fn, holomorphic=True), ['zs'])
+        self.register('s_1', jac_fn, ['zs', 'patch'])
+        self.register('s_2', jax.jacfwd(jac_fn, holomorphic=True), ['zs', 'patch'])
 
         if grad_def is not None:
             self.grad_def = grad_def
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0


From f3190b21510b5abe0ddaf49eb14ac81dedef039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 07/21] fix: support complex coefficients and powers of
 parameters in polynomials

Evaluating a polynomial with a complex coefficient raised an error.
Extracting the coefficients dropped all but one numeric factor of a term,
and raised an error for powers of a parameter.
---
 cyjax/polynomial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..bdcc6a6 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -175,7 +175,7 @@ def _sympy_eval_num(val):
     elif val.func == sympy.core.numbers.ImaginaryUnit:
         return 1j
     else:
-        return float(val)
+        return float(val) if val.is_real else complex(val)
 
 
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
@@ -193,7 +193,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             index = par_index[p]
             return lambda var, par: par[index]
 
-    elif issubclass(p.func, sympy.Number):
+    elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
@@ -797,9 +797,11 @@ class Poly:
                         f'Encountered parameter {p} which ' \
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
+                elif p.func == sympy.Pow and isinstance(p.base, sympy.Symbol):
+                    for _ in range(int(p.exp)):
+                        _add_coeff(p.base)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    coeffs[-1] *= _sympy_eval_num(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
-- 
2.43.0


From 43709fcf9371d32c7ca2ca4f2050c87a286a769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 08/21] fix: evaluate parameters that share their name with a
 variable

A parameter such as z7 of a polynomial in z0, z1 was looked up among the
coordinates of z.
---
 cyjax/polynomial.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index bdcc6a6..c1ae4a3 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -180,18 +180,18 @@ def _sympy_eval_num(val):
 
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
     """Recursively return function evaluating the sympy expression."""
-    if p.func == sympy.Symbol:
+    if p in par_index:
+        index = par_index[p]
+        return lambda var, par: par[index]
+
+    elif p.func == sympy.Symbol:
         name, index = split_subscript(p)
-        if name in var_names:
-            reo = index_reorder[name]
-            if reo is None:
-                return lambda var, par: var[name]
-            else:
-                i = reo[index]
-                return lambda var, par: var[name][i]
+        reo = index_reorder[name]
+        if reo is None:
+            return lambda var, par: var[name]
         else:
-            index = par_index[p]
-            return lambda var, par: par[index]
+            i = reo[index]
+            return lambda var, par: var[name][i]
 
     elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
-- 
2.43.0


From 7026efc8944ac3c5f7405ff656c9c0f350f9889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 09/21] fix: substitute symbolic inputs of polynomials
 simultaneously

Symbols introduced for one input were replaced again if they were
also the name of another input, for example when swapping coordinates.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index c1ae4a3..7586cca 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -984,7 +984,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From d61345b37532276b879d827dacde3cadd159630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 10/21] fix: count the chart of an affine polynomial by
 position

The chart was taken for the printed index of the coordinate. For
polynomials whose indices do not start at zero this set the wrong
coordinate to one or failed.

Polynomials built from coefficients also keep variables that do not occur.
---
 cyjax/polynomial.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7586cca..422e213 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -760,7 +760,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
@@ -1132,12 +1133,13 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
-            sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
+            subs = {merge_subscript(name, ind[p]): 1
+                    for name, ind, p in zip(self.variable_names, self.variable_indices, patch)}
+            indices = [[i for pos, i in enumerate(ind) if pos != p]
                        for ind, p in zip(self.variable_indices, patch)]
-            p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
+            p = Poly(None, self.variable_names, self.parameters, indices)
+            p._sympy_poly = sympy.Poly(
+                self.sympy_poly.expr.subs(subs), *p.all_symbols(False, False), domain=self.domain)
             self._affine_poly[patch_index] = p
             return p
         else:
-- 
2.43.0


From 402f3fc18c404c91d373376abb10c61d3bc3a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 11/21] fix: make best_dependent usable and solve_defining
 accept homogeneous coordinates

best_dependent passed its arguments in the wrong order and used an axis
that does not exist for single points. solve_defining failed without a chart.
---
 cyjax/variety.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index eec3b96..fdec4fa 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)))
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
@@ -303,7 +303,7 @@ class VarietySingle:
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
+        dep_hom = dependent if patch is None else index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From 678f7878d07716872beed8eaee95b35af46626f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 12/21] fix: do not modify arrays passed to polynomials

The product of factors was accumulated in place. A scalar variable given
as a numpy array was overwritten if it came first in a product.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index c3e4017..8b09a88 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -33,7 +33,7 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
         if pr is None:
             pr = factor
         else:
-            pr *= factor
+            pr = pr * factor
     return np.ones(()) if pr is None else pr
 
 
-- 
2.43.0


From c8e20050c7e0c65f1c198fff2a8d1e4270fb5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 13/21] fix: evaluate homogeneous polynomials that are constant
 in a patch

The branches for the patches had different types if the polynomial does
not depend on the remaining coordinates in one of them.
---
 cyjax/polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 422e213..d40ef11 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1166,7 +1166,10 @@ class HomPoly(Poly):
         sig = self.__signature__
 
         def branch_fn(args, kwargs, *, patch):
-            return self.__call__(*args, **kwargs, patch=patch)
+            # constant in this patch -> would not have the type of the inputs
+            val = self.__call__(*args, **kwargs, patch=patch)
+            inputs = jax.tree_util.tree_leaves((args, kwargs))
+            return jnp.asarray(val, dtype=jnp.result_type(val, *inputs))
 
         branches = [partial(branch_fn, patch=patch) for patch in all_patches]
 
-- 
2.43.0


From 0a51e1191e53578d054a0a27f41aa11578fa1332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:52 +0000
Subject: [PATCH 14/21] fix: sample varieties with parameters called p, q or t

The auxiliary symbols for the random line coincided with such parameters.
The points were then wrong or an error was raised.
---
 cyjax/variety.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index fdec4fa..54391f6 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -245,9 +245,13 @@ class VarietySingle:
             Either the homogeneous coordinates or a tuple of affine coordinates
             and patch indices.
         """
-        ps = sympy.symarray('p', self.dim_complex)
-        qs = sympy.symarray('q', self.dim_complex)
-        t = np.array(sympy.Symbol('t'))
+        # names must not coincide with those of parameters
+        p, q, t = 'p', 'q', 't'
+        while any(str(par).startswith((p, q, t)) for par in self.parameters):
+            p, q, t = p + 'p', q + 'q', t + 't'
+        ps = sympy.symarray(p, self.dim_complex)
+        qs = sympy.symarray(q, self.dim_complex)
+        t = np.array(sympy.Symbol(t))
         z = ps + t * qs
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
-- 
2.43.0


From a7a16c30489eebb539b2fce135b58e283e4636a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:13 +0000
Subject: [PATCH 15/21] fix: detect variables of polynomials from their indexed
 symbols

When no variable names were given, every indexed symbol was taken for a
separate variable, so z0 + z1 raised a duplicate name error.

The order of detected variables and parameters also followed the iteration
order of a set. It changed from one process to the next, and so did the order
of the arguments of the polynomial. They are now sorted by name, and those of
a sympy.Poly keep the order of its generators.
---
 cyjax/polynomial.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index d40ef11..eb4283d 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -552,7 +552,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -574,7 +575,8 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        # sympy yields unpredictable order
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -600,10 +602,10 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_index = var_name_index[name] = len(variable_names)
                     variable_names.append(name)
-                    variable_indices.append(None if index is None else [index])
-                    var_appeared.append(True)
-                    continue
+                    variable_indices.append(None)
+                    var_appeared.append(False)
 
             if index is None:
                 # If it appeared before, it must have appeared with index
@@ -611,6 +613,7 @@ class Poly:
                 assert variable_indices[var_index] is None, \
                     f'Variable "{name}" appeared both with and ' \
                     f'without subscript.'
+                var_appeared[var_index] = True
                 continue
             elif have_indices:
                 # Indices already available, only make sure it is not missing.
@@ -744,7 +747,8 @@ class Poly:
         if variable_indices is None:
             variable_indices = [range(len(pws[0])) for pws in powers]
         if parameters is None:
-            parameters = list(reduce(set.union, map(set, coeffs_params)))
+            parameters = sorted(
+                reduce(set.union, map(set, coeffs_params)), key=str)
         else:
             parameters = [sympy.Symbol(p) if isinstance(p, str) else p
                           for p in parameters]
-- 
2.43.0


From ced7e2c6606c426c2dcede7044ae788f3e7c19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:26 +0000
Subject: [PATCH 16/21] fix: keep the previous training results when saving is
 interrupted

The training script overwrote its results files in place. A run that was killed
or ran out of disk space while saving left a truncated file, and the losses or
network parameters of all earlier steps were lost.

Each file is now written under a temporary name and then moved into place.
---
 scripts/train.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index 4a55497..660faf1 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -12,7 +12,9 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import io
 import logging
+import os
 
 import flax.serialization
 import hydra
@@ -37,6 +39,16 @@ except ImportError:
         return it
 
 
+def save_replace(path, write):
+    # numpy does not report all errors when it writes to a file directly
+    buffer = io.BytesIO()
+    write(buffer)
+    # an interrupted write must not damage the previous version
+    with open(f'{path}.tmp', 'wb') as save_file:
+        save_file.write(buffer.getvalue())
+    os.replace(f'{path}.tmp', path)
+
+
 def cube_param_sampler(key, batch_size, *, max_abs=1, params_count):
     vals = cyjax.random.uniform_components(key, (batch_size, params_count))
     return vals * jnp.array(max_abs)
@@ -127,7 +139,6 @@ def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None,
 
 @hydra.main(version_base='1.2', config_path="conf", config_name="quintic")
 def main(cfg: DictConfig) -> None:
-    import os
     print(os.getcwd())
     variety: cyjax.VarietySingle = hydra.utils.instantiate(cfg.variety)
     log.info(f'Training for variety:\n{variety}')
@@ -183,7 +194,7 @@ def main(cfg: DictConfig) -> None:
 
     # For monitoring the accuracy
     moduli_validation = param_sampler(next(rns), cfg.evaluation.validation_count)
-    np.save('validation_params', moduli_validation)
+    save_replace('validation_params.npy', partial(np.save, arr=moduli_validation))
 
     @partial(jax.jit, backend='cpu')
     def validation_accuracy(key, h):
@@ -214,10 +225,10 @@ def main(cfg: DictConfig) -> None:
             acc = validation_accuracy(next(rns), get_h_matrix(params))
             validation.append(acc)
             log.info(f'Accuracy after {step} steps: {np.mean(acc)}')
-            np.save('losses', losses)
-            np.save('validation', validation)
-            with open(f'final.params', 'wb') as save_file:
-                save_file.write(flax.serialization.to_bytes(params))
+            save_replace('losses.npy', partial(np.save, arr=losses))
+            save_replace('validation.npy', partial(np.save, arr=validation))
+            save_replace('final.params', lambda save_file: save_file.write(
+                flax.serialization.to_bytes(params)))
 
         time_now = time.time()
         step += 1
@@ -259,7 +270,8 @@ def main(cfg: DictConfig) -> None:
 
         accuracies = np.concatenate(accuracy_parts)
         accuracies = accuracies.reshape(moduli_grid[0].shape)
-        np.savez('sigma_final', sigmas=accuracies, moduli_grid=moduli_grid)
+        save_replace('sigma_final.npz', partial(
+            np.savez, sigmas=accuracies, moduli_grid=moduli_grid))
 
         plot_accuracies(accuracies, cfg.sampling.param_bounds, variety.parameters, marg2d=np.min)
         plt.savefig('final-min.pdf')
-- 
2.43.0


From 7980885330bc0c65de8d1a74a9e4948ea50c5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:26 +0000
Subject: [PATCH 17/21] fix: measure the training time with a monotonic clock

The time limit of the training script compared readings of the system clock.
Setting the clock forwards ended training early, and setting it back made
training run longer than configured.
---
 scripts/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index 660faf1..ca4044c 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -212,7 +212,7 @@ def main(cfg: DictConfig) -> None:
     losses = []
     validation = []
 
-    time_now = time_start = time.time()
+    time_now = time_start = time.monotonic()
     train_time = cfg.training.train_minutes * 60
     log_every = cfg.training.log_every
     step = 0
@@ -230,7 +230,7 @@ def main(cfg: DictConfig) -> None:
             save_replace('final.params', lambda save_file: save_file.write(
                 flax.serialization.to_bytes(params)))
 
-        time_now = time.time()
+        time_now = time.monotonic()
         step += 1
 
     if cfg.evaluation.run:
-- 
2.43.0


From 222e7bcc4b6d6c2645b4fc166d42cf93d7a3a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:26 +0000
Subject: [PATCH 18/21] fix: save the losses and parameters of the last
 training steps

The training script only saved its results at logged steps. Steps performed
after the last logged one were missing from the losses, and final.params was
not the network evaluated after training.
---
 scripts/train.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index ca4044c..a565040 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -212,6 +212,12 @@ def main(cfg: DictConfig) -> None:
     losses = []
     validation = []
 
+    def save_results():
+        save_replace('losses.npy', partial(np.save, arr=losses))
+        save_replace('validation.npy', partial(np.save, arr=validation))
+        save_replace('final.params', lambda save_file: save_file.write(
+            flax.serialization.to_bytes(params)))
+
     time_now = time_start = time.monotonic()
     train_time = cfg.training.train_minutes * 60
     log_every = cfg.training.log_every
@@ -225,14 +231,13 @@ def main(cfg: DictConfig) -> None:
             acc = validation_accuracy(next(rns), get_h_matrix(params))
             validation.append(acc)
             log.info(f'Accuracy after {step} steps: {np.mean(acc)}')
-            save_replace('losses.npy', partial(np.save, arr=losses))
-            save_replace('validation.npy', partial(np.save, arr=validation))
-            save_replace('final.params', lambda save_file: save_file.write(
-                flax.serialization.to_bytes(params)))
+            save_results()
 
         time_now = time.monotonic()
         step += 1
 
+    save_results()
+
     if cfg.evaluation.run:
         log.info('Evaluating accuracy after training.')
 
-- 
2.43.0


From 9fc6109bf04264fcad9eb1c02ad1a9e963e5260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:21 +0000
Subject: [PATCH 19/21] fix: give every training run its own output folder

Hydra names the folder of a run after the time in whole seconds. Runs started
within the same second wrote into the same folder and overwrote each other's
results. The folder name now includes microseconds.
---
 scripts/conf/dwork.yaml   | 7 ++++++-
 scripts/conf/quintic.yaml | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scripts/conf/dwork.yaml b/scripts/conf/dwork.yaml
index a886bd7..cc11b37 100644
--- a/scripts/conf/dwork.yaml
+++ b/scripts/conf/dwork.yaml
@@ -64,4 +64,9 @@ evaluation:
 # save data in new auto-generated folder
 hydra:
   job:
-    chdir: True
\ No newline at end of file
+    chdir: True
+  # seconds are not enough to tell apart runs that are started together
+  run:
+    dir: outputs/${now:%Y-%m-%d}/${now:%H-%M-%S-%f}
+  sweep:
+    dir: multirun/${now:%Y-%m-%d}/${now:%H-%M-%S-%f}
diff --git a/scripts/conf/quintic.yaml b/scripts/conf/quintic.yaml
index 2673dd7..98e6b0a 100644
--- a/scripts/conf/quintic.yaml
+++ b/scripts/conf/quintic.yaml
@@ -75,4 +75,9 @@ evaluation:
 # save data in new auto-generated folder
 hydra:
   job:
-    chdir: True
\ No newline at end of file
+    chdir: True
+  # seconds are not enough to tell apart runs that are started together
+  run:
+    dir: outputs/${now:%Y-%m-%d}/${now:%H-%M-%S-%f}
+  sweep:
+    dir: multirun/${now:%Y-%m-%d}/${now:%H-%M-%S-%f}
-- 
2.43.0


From 18fde605b6d76e587e836b66db6e8ce60c664db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:38 +0000
Subject: [PATCH 20/21] fix: use all bits of the start time for the key of
 unseeded runs

A key keeps only the lower 32 bits of an integer.
Two unseeded runs started a multiple of 2^32 nanoseconds (4.29 s) apart therefore used the same random numbers.
---
 scripts/train.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/train.py b/scripts/train.py
index a565040..2f417eb 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -173,7 +173,9 @@ def main(cfg: DictConfig) -> None:
     # Initialize pseudo-randomness
     seed = cfg.random_seed
     if seed is None:
-        seed = jax.random.PRNGKey(time.time_ns())
+        # a key is only made from the lower 32 bits of an integer
+        high, low = divmod(time.time_ns(), 2 ** 32)
+        seed = jax.random.fold_in(jax.random.PRNGKey(high), low)
     else:
         seed = jax.random.PRNGKey(seed)
     log.info(f'Using random key {seed}')
-- 
2.43.0


From 087b821782fbe02f2de550d949cd727f745337b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:38 +0000
Subject: [PATCH 21/21] fix: draw the radii of overlap points from different
 random numbers

The radius of the coordinate of the other chart was drawn with the number of the first coordinate.
For any other chart, both radii were then fixed by the same number and the
distribution was not invariant under the change of chart.
---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0

