From 47ef19abf0eb18a58367d1fdbe839a2c966b3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 01/41] fix: std_error() failed on models without constraints

---
 maxlike/maxlike_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..da25270 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,12 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
+        cut = -len(self.constraint)
         if cut == 0:
             cut = None
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 04dfffe8267b4374068caca0a9cf0a1e90665d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 02/41] fix: broyden fit with verbose > 0 referenced an
 undefined name

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index da25270..41d5b47 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -536,7 +536,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 6b8901ffd4b75ae130d13cb522cb23054d8b8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 03/41] fix: Sum.eval dropped the constant term and Sum.add did
 not weight it

---
 maxlike/func/func_op.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..b1c3c63 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
@@ -217,6 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
+        val += self.b
         return val, grad, hess
 
 
-- 
2.43.0


From b50eb38cb6f7b87e67cc448f02722c57e85779d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 04/41] fix: FuncWrap turned any ValueError of the wrapped
 function into a zero derivative

---
 maxlike/func/func_op.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index b1c3c63..fa143d9 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,9 +52,9 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
+                    if i in obj.param_map:
                         grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
+                    else:
                         grad.append(Tensor(0))
                 return val, grad, hess
 
@@ -69,21 +69,19 @@ class FuncWrap(Func):
         return self._expand(self.foo(self.param_map(params)))
 
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
+        if i not in self.param_map:
             return Tensor(0)
+        return self._expand(
+            self.foo.grad(self.param_map(params),
+                          self.param_map.index(i)))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
+        if i not in self.param_map or j not in self.param_map:
             return Tensor(0)
+        return self._expand(
+            self.foo.hess(self.param_map(params),
+                          self.param_map.index(i),
+                          self.param_map.index(j)))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
@@ -91,7 +89,7 @@ class FuncWrap(Func):
         grad, hess = [], []
         idx_list = []
         for i in range(len(params)):
-            try:
+            if i in self.param_map:
                 idx = self.param_map.index(i)
                 grad.append(self._expand(foo_grad[idx]))
                 hess_line = []
@@ -102,7 +100,7 @@ class FuncWrap(Func):
                         self._expand(foo_hess[idx][jdx]))
                 hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
                 hess.append(hess_line)
-            except ValueError:
+            else:
                 idx = None
                 grad.append(Tensor(0))
                 hess.append([Tensor(0)] * (i + 1))
-- 
2.43.0


From a43ff0dc8dd9fbb1054fce8cc34a8e302e391620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 05/41] fix: a Sum.add or Product.add that fails half way kept
 part of the terms

---
 maxlike/func/func_op.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index fa143d9..13499c7 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -174,18 +174,23 @@ class Sum(Func):
         elif isinstance(dim_map, int):
             dim_map = [dim_map]
 
-        if isinstance(foo, Affine):
-            self.b += weight * foo.b
-            self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
-        elif isinstance(foo, Sum):
-            self.b += weight * foo.b
-            for w, atom in foo.atoms:
-                self.add(
-                    atom.foo,
-                    atom.param_map(param_map),
-                    atom.feat_map(feat_map),
-                    atom.dim_map(dim_map),
-                    w * weight)
+        if isinstance(foo, (Affine, Sum)):
+            # collects the terms apart, to add either all of them or none
+            terms = Sum(self.n_feat, self.n_dim)
+            if isinstance(foo, Affine):
+                terms.add(foo.base, param_map, feat_map, dim_map,
+                          weight * foo.a)
+            else:
+                for w, atom in foo.atoms:
+                    terms.add(
+                        atom.foo,
+                        atom.param_map(param_map),
+                        atom.feat_map(feat_map),
+                        atom.dim_map(dim_map),
+                        w * weight)
+            b = self.b + terms.b + weight * foo.b
+            self.atoms.extend(terms.atoms)
+            self.b = b
         else:
             self.atoms.append((
                 weight, FuncWrap(
@@ -237,12 +242,15 @@ class Product(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Product):
+            # collects the factors apart, to add either all of them or none
+            factors = Product(self.n_feat, self.n_dim)
             for atom in foo.atoms:
-                self.add(
+                factors.add(
                     atom.foo,
                     atom.param_map(param_map),
                     atom.feat_map(feat_map),
                     atom.dim_map(dim_map))
+            self.atoms.extend(factors.atoms)
         else:
             self.atoms.append(FuncWrap(
                 foo, param_map,
-- 
2.43.0


From 12eb81177f055e9d1b798718005fa2f7e9347e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/41] fix: add_param lost all params on a bad value, and
 shared the caller's arrays

---
 maxlike/maxlike_base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 41d5b47..b10fd5b 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,13 +18,16 @@ class Param(object):
 
     def __init__(self, values, mask=None):
         
+        # copies, to not share any buffer with the caller
+        values = np.array(values)
         if mask is None or mask is False:
-            mask = np.zeros_like(values, dtype=np.bool)
+            mask = np.zeros(values.shape, dtype=bool)
         else:
+            mask = np.array(mask, dtype=bool)
             assert mask.shape == values.shape
 
-        object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'values', values)
+        object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
@@ -36,7 +39,7 @@ class Param(object):
         return (~self.mask).sum()
 
     def as_masked(self):
-        return np.ma.array(self.values, mask=self.mask)
+        return np.ma.array(self.values, mask=self.mask, copy=True)
 
     def __array__(self, *args, **kwargs):
         return np.asarray(self.values)
@@ -115,11 +118,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             Boolean arrays with value = True if the parameter has a
             fixed value.
         """
-        try:
-            self.params = self.params + (Param(values, mask=fixed), )
-        except AttributeError:
-            self.params = ()
-            self.add_param(values, fixed)
+        param = Param(values, mask=fixed)
+        self.params = getattr(self, 'params', ()) + (param, )
 
     def get_params(self):
         return [p.as_masked() for p in self.params]
-- 
2.43.0


From 597a37d4dfb6d215adedc1c98378851164418930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 07/41] fix: creating a Param consumed the global random stream

---
 maxlike/maxlike_base.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index b10fd5b..fec1062 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -3,7 +3,6 @@ import numpy as np
 from functools import wraps
 from collections import OrderedDict
 from scipy.linalg import pinvh
-from random import getrandbits
 from six import with_metaclass
 from .tensor import Tensor
 
@@ -29,7 +28,6 @@ class Param(object):
         object.__setattr__(self, 'values', values)
         object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
-        object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
 
     def compressed(self):
@@ -44,9 +42,6 @@ class Param(object):
     def __array__(self, *args, **kwargs):
         return np.asarray(self.values)
 
-    def __hash__(self):
-        return self.hash
-
     def __setattr__(self, *ignored):
         raise NotImplementedError
 
-- 
2.43.0


From 9bee0a13bdae83b72a7d60eeaf5d3c7e82c58c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 08/41] fix: a bad fit() argument left half of the new data set
 installed

---
 maxlike/maxlike_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index fec1062..01d105c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -455,8 +455,13 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
 
         dim = getattr(self, 'dim', 0)
-        for k in kwargs:
-            self.__dict__[k] = Tensor(kwargs[k], dim=dim)
+        data = {}
+        for k, v in kwargs.items():
+            if isinstance(v, Tensor):
+                data[k] = Tensor(np.array(v), dim=v.dim)
+            else:
+                data[k] = Tensor(np.array(v), dim=dim)
+        self.__dict__.update(data)
 
         method = method.lower()
 
-- 
2.43.0


From 36086cd1b449874c75c401242051c5f56187a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 09/41] fix: Tensor() turned the array of the caller read-only

---
 maxlike/tensor/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..11d7f08 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -453,7 +453,9 @@ class Tensor(BaseTensor):
         if dtype is None:
             dtype = TENSOR_DTYPE
 
-        object.__setattr__(self, 'values', np.asarray(values, dtype=dtype))
+        # a view, to not make read-only the array of the caller
+        object.__setattr__(self, 'values',
+                           np.asarray(values, dtype=dtype).view())
         self.values.flags["WRITEABLE"] = False
 
         super(Tensor, self).__init__(
-- 
2.43.0


From fa02a2ce7a366ad8323a4bfa6670085762192bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 10/41] fix: a broyden fit that fails overwrote the hessian, or
 the params, of the last fit

---
 maxlike/maxlike_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 01d105c..be56717 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -516,12 +516,12 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if not (self.converged and
+                if (self.converged and
                         hasattr(self, 'flat_hess_') and
                         self.flat_hess_.shape[0] == grad.shape[0]):
-                    self.flat_hess_ = self.flat_hess(params, y, der, hess).data
-
-                J = pinvh(self.flat_hess_)
+                    J = pinvh(self.flat_hess_)
+                else:
+                    J = pinvh(self.flat_hess(params, y, der, hess).data)
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
@@ -539,8 +539,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
+                        flat_hess = pinvh(J)
                         self.params = params
-                        self.flat_hess_ = pinvh(J)
+                        self.flat_hess_ = flat_hess
                         self.converged = True
                         return True
                     
-- 
2.43.0


From a63b20bb576111bec620f572704d899c4e5d3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 11/41] fix: the skellam root finders looped forever, or
 returned an exception class

---
 maxlike/skellam.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..8a07d4d 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,8 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError(
+                "poisson_cdf_root did not converge after %d steps" % max_steps)
     return a
 
 
@@ -156,7 +157,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "skellam_cdf_root did not converge after %d steps" % max_steps)
     return a, b
 
 
@@ -203,6 +205,9 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "conditional_skellam_cdf_root did not converge after " +
+                "%d steps" % max_steps)
     return a
-- 
2.43.0


From 323a2bbf934894979c960e06743763959d4c3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 12/41] fix: constraints and regularizations failed on params
 not in ascending order

---
 maxlike/maxlike_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index be56717..7c47c3c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -360,14 +360,22 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    jdx = param_map[j]
+                    if jdx > idx:  # only the lower blocks are kept
+                        hess[jdx][idx] += gamma * hess_g[i][j].transpose()
+                    else:
+                        hess[idx][jdx] += gamma * hess_g[i][j]
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    jdx = param_map[j]
+                    if jdx > idx:  # only the lower blocks are kept
+                        hess[jdx][idx] -= hess_h[i][j].transpose()
+                    else:
+                        hess[idx][jdx] -= hess_h[i][j]
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From eada579804a5d4267ba78f58ecd362489ed87b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 13/41] fix: Sum and Product failed on terms with params not in
 ascending order

---
 maxlike/func/func_op.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 13499c7..3579303 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -78,10 +78,12 @@ class FuncWrap(Func):
     def hess(self, params, i, j):
         if i not in self.param_map or j not in self.param_map:
             return Tensor(0)
-        return self._expand(
-            self.foo.hess(self.param_map(params),
-                          self.param_map.index(i),
-                          self.param_map.index(j)))
+        idx = self.param_map.index(i)
+        jdx = self.param_map.index(j)
+        params = self.param_map(params)
+        if jdx > idx:  # foo only has the lower blocks
+            return self._expand(self.foo.hess(params, jdx, idx).transpose())
+        return self._expand(self.foo.hess(params, idx, jdx))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
@@ -95,9 +97,13 @@ class FuncWrap(Func):
                 hess_line = []
                 for j in range(i):
                     jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
+                    if jdx is None:
+                        hess_line.append(Tensor(0))
+                    elif jdx > idx:  # foo only has the lower blocks
+                        hess_line.append(
+                            self._expand(foo_hess[jdx][idx].transpose()))
+                    else:
+                        hess_line.append(self._expand(foo_hess[idx][jdx]))
                 hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
                 hess.append(hess_line)
             else:
-- 
2.43.0


From 452dd4939669aca241ce470966d2bcaeae35c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 14/41] fix: newton fit could fail by a rounding error when
 starting from the optimum

---
 maxlike/maxlike_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 7c47c3c..d3651b2 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -483,6 +483,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         if method == "newton":
 
             max_inner_steps = 5
+            # decreases of the objective function below its rounding error
+            # (e.g, when starting from the optimum) don't reject a step
+            eps = 1e-12
             for k in range(max_steps):
                 step, g, grad, hess = self.newton_step(params)
                 prev_g = g
@@ -495,7 +498,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     new_flat_params = flat_params - mult * step
                     params = self._reshape_params(new_flat_params)
                     g = self.g(params, self.model(params))
-                    if g >= prev_g:
+                    if g >= prev_g - eps * abs(prev_g):
                         flat_params = new_flat_params
                         break
                     else:
-- 
2.43.0


From 060b2328eb543095d2d006d7dd2875471c040118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 15/41] fix: scalar Tensor plus a Tensor with diagonal axes
 lost the off diagonal

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 11d7f08..0a86925 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -836,6 +836,12 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if op_type in [TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB] and \
+                    self.values != 0:
+                # the mapped axes have zeros outside of the diagonal
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 11ac44288c7de1f0d82156e4b1d8396e4d460bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 16/41] fix: functions, constraints and regularizations shared
 arrays and lists with the caller

---
 maxlike/func/func.py      | 10 +++++-----
 maxlike/func/func_base.py |  2 +-
 maxlike/maxlike_base.py   |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..6f30718 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -10,7 +10,7 @@ class Linear(Func):
             weight_list = [weight_list]
         else:
             assert isinstance(weight_list, (list, tuple))
-        self.weights = weight_list
+        self.weights = [np.array(w) for w in weight_list]
 
     def __call__(self, params):
         return sum(((w * np.asarray(p)).sum()
@@ -29,8 +29,8 @@ class Linear(Func):
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
 
     def __init__(self, u=0, s=1):
-        self.u = u
-        self.s = s
+        self.u = np.array(u)
+        self.s = np.array(s)
 
     def __call__(self, params):
         val = 0
@@ -65,7 +65,7 @@ class X(Func):
 class Constant(Func):
 
     def __init__(self, vector):
-        self.vector = np.asarray(vector)
+        self.vector = np.array(vector)
 
     def __call__(self, params):
         return Tensor(self.vector)
@@ -88,7 +88,7 @@ class Scalar(Func):
 class Vector(Func):
 
     def __init__(self, vector):
-        self.vector = np.asarray(vector)
+        self.vector = np.array(vector)
 
     def __call__(self, params):
         return Tensor(np.asarray(params[0]) * self.vector)
diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..7622bdf 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -250,7 +250,7 @@ class Compose(Func):
         if not isinstance(g_list, (list, tuple)):
             self.g_list = [g_list]
         else:
-            self.g_list = g_list
+            self.g_list = list(g_list)
 
         self.f = f
 
diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index d3651b2..18be292 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -133,7 +133,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         if isinstance(param_map, int):
             param_map = [param_map]
 
-        self.constraint.append((param_map, 0, g))
+        self.constraint.append((list(param_map), 0, g))
 
     def add_regularization(self, param_map, h):
         """
@@ -149,7 +149,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         if isinstance(param_map, int):
             param_map = [param_map]
 
-        self.reg.append((param_map, h))
+        self.reg.append((list(param_map), h))
 
     def akaine_information_criterion(self, nb_extra_params=0):
         """
-- 
2.43.0


From 135f8af44528806d4adaa4d478cfbd47df16c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 17/41] fix: the root finders returned the first guess when an
 evaluation is undefined (NaN)

---
 maxlike/skellam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 8a07d4d..ebb5786 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -79,7 +79,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while abs(e) > abs(tol):
+    while not abs(e) <= abs(tol):
         f, df = poisson_cdf(a, n)
         e = target - f
         step = e / df
@@ -137,7 +137,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while e > abs(tol):
+    while not e <= abs(tol):
         skellam = skellam_cdf_pair(a, b, n, tol)
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
@@ -179,7 +179,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     size = tol2size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
-    while e > abs(tol):
+    while not e <= abs(tol):
         size = tol2size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
-- 
2.43.0


From e796b19be35a16c09aba97b3171d6658ce79a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 18/41] fix: transposing a Tensor mixed up the axes unless
 x_dim == y_dim == 1

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0a86925..b12cb68 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -619,8 +619,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 450f6b7402863c9dcaab23b2961538011f5de875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 19/41] fix: summing a Tensor over some of its axes lost
 diagonals, or did not sum

---
 maxlike/tensor/tensor.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index b12cb68..41846af 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -232,7 +232,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
@@ -250,6 +250,9 @@ class GenericTensor(BaseTensor):
             if len(idx) == self.n:
                 sum_val = True
 
+        n = self.n - len(idx)
+        dim = 0 if sum_dim is True else self.dim
+
         if sum_dim is True:
             idx += (self.n + np.arange(self.dim)).tolist()
 
@@ -273,13 +276,12 @@ class GenericTensor(BaseTensor):
                 values = values + el.sum(sum_val, sum_dim).\
                     values[tuple(idx)] * (size / el_size)
 
-            dim = 0 if sum_dim is True else self.dim
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        return GenericTensor(self.x_dim, self.y_dim, n, dim, new_elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
@@ -533,7 +535,14 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # the mappings to the axes that are not summed stay
+        x_map, y_map = (array('b', [
+            -1 if f < 0 or f in sum_val else f - sum(s < f for s in sum_val)
+            for f in mapping]) for mapping in (self.x_map, self.y_map))
+
+        return Tensor(val, self.x_dim, self.y_dim, dim,
+                      x_map if max(x_map or [-1]) >= 0 else None,
+                      y_map if max(y_map or [-1]) >= 0 else None)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 72f08cf3db815b77a787b0ec59e4718f60ef3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 20/41] fix: GenericTensor misaligned its terms in toarray,
 kept raw arrays and zeros as terms

---
 maxlike/tensor/tensor.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 41846af..51ce8b0 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -227,8 +227,15 @@ class GenericTensor(BaseTensor):
         object.__setattr__(self, 'elements', tuple(elements))
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
-                    for el in self.elements])
+        arr = 0
+        for el in self.elements:
+            # the elements can miss some of the spaces
+            idx = []
+            for has, dim in ((el.x_dim, self.x_dim), (el.y_dim, self.y_dim),
+                             (el.n, self.n), (el.dim, self.dim)):
+                idx += [slice(None)] * has + [None] * (dim - has)
+            arr = arr + el.toarray()[tuple(idx)]
+        return arr
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
@@ -359,7 +366,15 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
+        if isinstance(other, np.ndarray):
+            other = Tensor(other)
+
+        if op_type == TensorOp.MUL and not isinstance(other, GenericTensor) \
+                and np.ndim(getattr(other, 'values', other)) == 0 \
+                and float(other) == 0:
+            return Tensor(0)
+
+        if isinstance(other, (int, float)):
             x_dim = self.x_dim
             y_dim = self.y_dim
             n = self.n
@@ -372,7 +387,7 @@ class GenericTensor(BaseTensor):
             dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, (int, float, Tensor)):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
-- 
2.43.0


From ff07094124acce4d942c65f672be7da63a8828b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 21/41] fix: products of diagonal with full tensors failed or
 were wrong, but for one x axis with features

---
 maxlike/tensor/tensor.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 51ce8b0..4d1d3f3 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -45,11 +45,15 @@ def arr_swapaxes(arr, q, p, mapping):
 
 def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
-        if f < 0:
+        if f < 0 or arr.shape[q + k] == 1:
+            continue
+        if arr.shape[p + f] == 1:
+            # constant along the axis of the diagonal
+            arr = arr.swapaxes(q + k, p + f)
             continue
         arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        arr = np.moveaxis(arr, -1, p + f - 1)
+        arr = np.expand_dims(arr, q + k)
     return arr
 
 
@@ -72,10 +76,10 @@ def arr_expand_cross_diag(arr, p, map1, map2):
     for i, j in zip(map1, map2):
         if i == j:
             continue
-        n = arr.shape[p + i]
+        n = max(arr.shape[p + i], arr.shape[p + j])
         idx[p + i] = n
         idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
+        arr = arr * np.eye(n).reshape(idx)
         idx[p + i] = 1
         idx[p + j] = 1
     return arr
@@ -923,34 +927,32 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
+        p = x_dim + y_dim
+        l_values = l_values[l_idx]
+        r_values = r_values[r_idx]
 
         if self.x_map:
             x_map = self.x_map
             l_values = arr_expand_cross_diag(
                 l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
+            if not other.x_map:
+                r_values = arr_take_diag(r_values, 0, p, self.x_map)
         else:
             x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
+            l_values = arr_take_diag(l_values, 0, p, other.x_map)
 
         if self.y_map:
             y_map = self.y_map
             l_values = arr_expand_cross_diag(
                 l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
+            if not other.y_map:
+                r_values = arr_take_diag(r_values, x_dim, p, self.y_map)
         else:
             y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+            l_values = arr_take_diag(l_values, x_dim, p, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From e0604ea24dd4fb6d067eb397ab3f7ec6d5f005ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 22/41] fix: Tensor.dot_right failed for a tensor without
 diagonals and another with

---
 maxlike/tensor/tensor.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 4d1d3f3..25af0cf 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -85,23 +85,6 @@ def arr_expand_cross_diag(arr, p, map1, map2):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
-        else:
-            arr = arr.swapaxes(p + k, p + f)
-    return arr
-
-
 class TensorOp(Enum):
     ID = partial(lambda x: x)
     RSUB = partial(lambda x, y: np.subtract(y, x))
@@ -779,15 +762,17 @@ class Tensor(BaseTensor):
 
         val = self.values
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
-        val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
-        val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
+        if self.x_map:
+            l_values = other.values
+            x_map = compose_mappings(self.x_map, other.x_map)
+            y_map = compose_mappings(self.x_map, other.y_map)
+        else:
+            # the sum runs over the diagonals of other
+            l_values = other.toarray()
+            x_map = y_map = array('b')
 
-        x_map = compose_mappings(self.x_map, other.x_map)
-        y_map = compose_mappings(self.x_map, other.y_map)
+        val = l_values[tuple(l_idx)] * val[tuple(r_idx)]
+        val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
         val = val.sum(tuple(p + np.arange(other.n)))
         return Tensor(val,
                       x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
-- 
2.43.0


From c515f62777711adf092ae41dd94c62ae7c79eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 23/41] fix: Tensor.sum(False, False) moved the extra
 dimensions into the values

---
 maxlike/tensor/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 25af0cf..8390a54 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -492,8 +492,9 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
-            if sum_dim is True:
-                val = val.sum(tuple(p + self.n + np.arange(self.dim)))
+            if sum_dim is not True:
+                return self
+            val = val.sum(tuple(p + self.n + np.arange(self.dim)))
             return Tensor(val, self.x_dim, self.y_dim, 0,
                           self.x_map, self.y_map)
 
-- 
2.43.0


From 08713a742cde24dd6e5c74f523d772b7f36c2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 24/41] fix: compositions with parts of zero derivative failed,
 or gave zeros of wrong axes

---
 maxlike/func/func_base.py | 10 +++++-----
 maxlike/tensor/tensor.py  | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 7622bdf..2ab31b4 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -263,7 +263,7 @@ class Compose(Func):
                 g_val = [g(params) for g in obj.g_list]
                 h_val = sum((obj.f.grad(g_val, k).dot_right(
                              g.hess(params, i, j).drop_dim())
-                             for k, g in enumerate(obj.g_list)))
+                             for k, g in enumerate(obj.g_list)), Tensor(0))
                 return h_val
 
             def eval(obj, params):
@@ -272,10 +272,10 @@ class Compose(Func):
                 g_grad = [[d.drop_dim() for d in grad] for grad in g_grad]
                 val, f_grad, f_hess = obj.f.eval(g_val)
                 grad = [sum((f_grad[k].dot_left(d_k[i])
-                             for k, d_k in enumerate(g_grad)))
+                             for k, d_k in enumerate(g_grad)), Tensor(0))
                         for i in range(n)]
                 hess = [[sum((f_grad[k].dot_right(h_k[i][j].drop_dim())
-                              for k, h_k in enumerate(g_hess)))
+                              for k, h_k in enumerate(g_hess)), Tensor(0))
                          for j in range(i + 1)] for i in range(n)]
                 return val, grad, hess
             
@@ -290,7 +290,7 @@ class Compose(Func):
         g_val = [g(params) for g in self.g_list]
         return sum([self.f.grad(g_val, k).\
                     dot_left(g.grad(params, i).drop_dim())
-                    for k, g in enumerate(self.g_list)])
+                    for k, g in enumerate(self.g_list)], Tensor(0))
 
     def hess(self, params, i, j):
         g_val = [g(params) for g in self.g_list]
@@ -331,7 +331,7 @@ class Compose(Func):
 
             grad.append(sum((
                 f_grad[k].dot_left(d_k[i])
-                for k, d_k in enumerate(g_grad))))
+                for k, d_k in enumerate(g_grad)), Tensor(0)))
 
             hess_line = []
             for j in range(i + 1):
diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8390a54..c35c27c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -201,6 +201,14 @@ class BaseTensor(object, with_metaclass(abc.ABCMeta)):
         raise NotImplementedError
 
 
+def is_zero(tensor):
+    """
+    Tensor(0), the derivative of whatever does not depend on a param
+    """
+    return isinstance(tensor, Tensor) and \
+        tensor.values.ndim == 0 and tensor.values == 0
+
+
 class GenericTensor(BaseTensor):
 
     __slots__ = ['elements']
@@ -675,8 +683,8 @@ class Tensor(BaseTensor):
         if (other.n > 0) & (other.n == self.y_dim):
             return self.transpose().dot_left(other)
 
-        if (other.values.ndim == 0) and (other.values == 0):
-            return 0
+        if is_zero(other):
+            return Tensor(0)
 
         raise ValueError
 
@@ -692,6 +700,9 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
+        if is_zero(self) or is_zero(other):
+            return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -737,11 +748,8 @@ class Tensor(BaseTensor):
             *
         """
 
-        try:
-            if other.values.ndim == 0 and other.values == 0:
-                return 0
-        except:
-            pass
+        if is_zero(self) or is_zero(other):
+            return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
-- 
2.43.0


From ae7a5352b2c3f8df470f230935603c8c0552eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 25/41] fix: eval of functions without second derivative
 rejected a bare param

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 2ab31b4..5cfd495 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -280,7 +280,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3579303..549a768 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, eval_wrap, null_method, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -59,7 +59,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_method(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 1089911ecca69d04f1c8c88cb9e6a99210342db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 26/41] fix: FuncWrap lost derivatives when a param is mapped
 twice, Collapse of a zero derivative failed

---
 maxlike/func/func_op.py  | 70 +++++++++++++++++-----------------------
 maxlike/tensor/tensor.py |  3 ++
 2 files changed, 33 insertions(+), 40 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 549a768..387453e 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -17,6 +17,9 @@ class IndexMap(list):
     def __call__(self, params):
         return tuple([params[k] for k in self])
 
+    def where(self, i):
+        return [k for k, idx in enumerate(self) if idx == i]
+
 
 class FuncWrap(Func):
 
@@ -52,10 +55,8 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    if i in obj.param_map:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    else:
-                        grad.append(Tensor(0))
+                    grad.append(obj._total(
+                        foo_grad[k] for k in obj.param_map.where(i)))
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -65,52 +66,41 @@ class FuncWrap(Func):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
                  expand(self.dim_map, self.n_dim, dim=True)
 
+    def _total(self, terms):
+        # one term for each of the args of foo that are mapped to the param
+        terms = [self._expand(x) for x in terms]
+        return reduce(lambda x, y: x + y, terms) if terms else Tensor(0)
+
+    @staticmethod
+    def _block(hess, k, l):
+        # foo only has the lower blocks
+        return hess(l, k).transpose() if l > k else hess(k, l)
+
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
     def grad(self, params, i):
-        if i not in self.param_map:
-            return Tensor(0)
-        return self._expand(
-            self.foo.grad(self.param_map(params),
-                          self.param_map.index(i)))
+        foo_params = self.param_map(params)
+        return self._total(
+            self.foo.grad(foo_params, k) for k in self.param_map.where(i))
 
     def hess(self, params, i, j):
-        if i not in self.param_map or j not in self.param_map:
-            return Tensor(0)
-        idx = self.param_map.index(i)
-        jdx = self.param_map.index(j)
-        params = self.param_map(params)
-        if jdx > idx:  # foo only has the lower blocks
-            return self._expand(self.foo.hess(params, jdx, idx).transpose())
-        return self._expand(self.foo.hess(params, idx, jdx))
+        foo_params = self.param_map(params)
+        return self._total(
+            self._block(lambda *kl: self.foo.hess(foo_params, *kl), k, l)
+            for k in self.param_map.where(i)
+            for l in self.param_map.where(j))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
-        grad, hess = [], []
-        idx_list = []
-        for i in range(len(params)):
-            if i in self.param_map:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    if jdx is None:
-                        hess_line.append(Tensor(0))
-                    elif jdx > idx:  # foo only has the lower blocks
-                        hess_line.append(
-                            self._expand(foo_hess[jdx][idx].transpose()))
-                    else:
-                        hess_line.append(self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            else:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+        idx = [self.param_map.where(i) for i in range(len(params))]
+        grad = [self._total(foo_grad[k] for k in idx_i) for idx_i in idx]
+        hess = [[self._total(
+                    self._block(lambda k, l: foo_hess[k][l], k, l)
+                    for k in idx_i for l in idx_j)
+                 for idx_j in idx[:i + 1]]
+                for i, idx_i in enumerate(idx)]
         return val, grad, hess
 
 
diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c35c27c..c94110a 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -496,6 +496,9 @@ class Tensor(BaseTensor):
         return arr
 
     def sum(self, sum_val=True, sum_dim=True):
+        if is_zero(self):
+            return self
+
         val = self.values
         p = self.x_dim + self.y_dim
 
-- 
2.43.0


From a3a86919b2226d29752aed49b1978c6bec3f4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 27/41] fix: products of Tensors with some axes diagonal and
 others full were wrong

---
 maxlike/tensor/tensor.py | 73 ++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c94110a..db5651b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -74,7 +74,7 @@ def arr_expand_diag(arr, q, p, mapping):
 def arr_expand_cross_diag(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for i, j in zip(map1, map2):
-        if i == j:
+        if i == j or i < 0 or j < 0:
             continue
         n = max(arr.shape[p + i], arr.shape[p + j])
         idx[p + i] = n
@@ -691,6 +691,17 @@ class Tensor(BaseTensor):
 
         raise ValueError
 
+    def _split_mapping(self, mapping):
+        """
+        Splits a mapping to the x axes in two, to the axes that are full
+        and to the axes that are diagonal
+        """
+        diag = [f >= 0 for f in self.x_map] or [False] * self.x_dim
+        full = [-1 if f < 0 or diag[f] else f for f in mapping]
+        diag = [f if f >= 0 and diag[f] else -1 for f in mapping]
+        return array('b', full), \
+               array('b', diag if max(diag or [-1]) >= 0 else [])
+
     def dot_left(self, other):
         """
         Matrix - Vector inner product
@@ -728,11 +739,11 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, p, self.x_map)
         val = np.multiply(other.values[tuple(l_idx)], val[tuple(r_idx)])
         val = arr_swapaxes(val, other.x_dim, other.x_dim + p, self.x_map)
-        if self.x_map:
-            x_map = compose_mappings(self.x_map, other.x_map)
-        else:
-            x_map = array('b')
-            val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
+
+        # the diagonals of other, over axes that are summed and over others
+        sum_map, keep_map = self._split_mapping(other.x_map)
+        val = arr_swapaxes(val, 0, other.x_dim, sum_map)
+        x_map = compose_mappings(self.x_map, keep_map)
 
         val = val.sum(tuple(other.x_dim + np.arange(other.n)))
         return Tensor(val, x_dim=other.x_dim, y_dim=self.y_dim, dim=dim,
@@ -774,14 +785,15 @@ class Tensor(BaseTensor):
 
         val = self.values
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
-        if self.x_map:
-            l_values = other.values
-            x_map = compose_mappings(self.x_map, other.x_map)
-            y_map = compose_mappings(self.x_map, other.y_map)
-        else:
-            # the sum runs over the diagonals of other
-            l_values = other.toarray()
-            x_map = y_map = array('b')
+
+        # the diagonals of other, over axes that are summed and over others
+        l_values = other.values
+        sum_map, keep_map = self._split_mapping(other.x_map)
+        l_values = arr_expand_diag(l_values, 0, p, sum_map)
+        x_map = compose_mappings(self.x_map, keep_map)
+        sum_map, keep_map = self._split_mapping(other.y_map)
+        l_values = arr_expand_diag(l_values, other.x_dim, p, sum_map)
+        y_map = compose_mappings(self.x_map, keep_map)
 
         val = l_values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
@@ -928,25 +940,20 @@ class Tensor(BaseTensor):
         l_values = l_values[l_idx]
         r_values = r_values[r_idx]
 
-        if self.x_map:
-            x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
-            if not other.x_map:
-                r_values = arr_take_diag(r_values, 0, p, self.x_map)
-        else:
-            x_map = other.x_map
-            l_values = arr_take_diag(l_values, 0, p, other.x_map)
-
-        if self.y_map:
-            y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
-            if not other.y_map:
-                r_values = arr_take_diag(r_values, x_dim, p, self.y_map)
-        else:
-            y_map = other.y_map
-            l_values = arr_take_diag(l_values, x_dim, p, other.y_map)
+        maps = []
+        for q, q_dim, l_map, r_map in ((0, x_dim, self.x_map, other.x_map),
+                                       (x_dim, y_dim, self.y_map, other.y_map)):
+            # an axis can be diagonal in both, in one of them or in none
+            l_map = list(l_map) or [-1] * q_dim
+            r_map = list(r_map) or [-1] * q_dim
+            l_values = arr_expand_cross_diag(l_values, p, l_map, r_map)
+            l_values = arr_take_diag(l_values, q, p, [
+                f if e < 0 else -1 for e, f in zip(l_map, r_map)])
+            r_values = arr_take_diag(r_values, q, p, [
+                e if f < 0 else -1 for e, f in zip(l_map, r_map)])
+            q_map = [e if e >= 0 else f for e, f in zip(l_map, r_map)]
+            maps.append(array('b', q_map if max(q_map or [-1]) >= 0 else []))
+        x_map, y_map = maps
 
         return Tensor(
             op_type.value(l_values, r_values),
-- 
2.43.0


From 3f5edc037e43f43300654fb025d497c03dd2c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 28/41] fix: Tensor(0) times a Tensor gave zeros without the
 axes of the derivative

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index db5651b..2605585 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -873,6 +873,9 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if op_type == TensorOp.MUL and self.values == 0:
+                return self
+
             if op_type in [TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB] and \
                     self.values != 0:
                 # the mapped axes have zeros outside of the diagonal
-- 
2.43.0


From 628b223353eb4bd5166f3e90997f0b740e46f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 29/41] fix: Collapse gave wrong derivatives of sums with terms
 that are constant along some axes

---
 maxlike/func/func_op.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 387453e..f4bb3d6 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, eval_wrap, null_method, isnull
 from six.moves import reduce
@@ -111,27 +112,30 @@ class Collapse(Func):
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
+    def _sum(self, x):
+        return x.sum(sum_val=self.sum_val, sum_dim=self.sum_dim)
+
+    def _ones(self, val):
+        # the derivatives of some terms are constant along some of the axes
+        return Tensor(np.ones(np.shape(val.toarray())), dim=val.dim)
+
     def __call__(self, params):
-        return self.foo(params).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum(self.foo(params))
 
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        ones = self._ones(self.foo(params))
+        return self._sum(self.foo.grad(params, i) * ones)
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        ones = self._ones(self.foo(params))
+        return self._sum(self.foo.hess(params, i, j) * ones)
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
-        return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+        ones = self._ones(val)
+        return self._sum(val), \
+               [self._sum(d * ones) for d in grad], \
+               [[self._sum(h * ones) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
-- 
2.43.0


From 709fe13ed6a8775e0be76186122b40e4e7032782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 30/41] fix: fits with constraints, and broyden fits, failed
 for an integer initial guess

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 18be292..e7625a3 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,7 +18,7 @@ class Param(object):
     def __init__(self, values, mask=None):
         
         # copies, to not share any buffer with the caller
-        values = np.array(values)
+        values = np.array(values, dtype=np.float64)
         if mask is None or mask is False:
             mask = np.zeros(values.shape, dtype=bool)
         else:
-- 
2.43.0


From 4123b6002ca2864541b606b14f30389968b45764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:33 +0000
Subject: [PATCH 31/41] fix: hessians of compositions failed on sums of zero
 terms of products

---
 maxlike/tensor/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2605585..e4cffa6 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -205,6 +205,11 @@ def is_zero(tensor):
     """
     Tensor(0), the derivative of whatever does not depend on a param
     """
+    if isinstance(tensor, GenericTensor):
+        return not (tensor.x_dim or tensor.y_dim or
+                    tensor.n or tensor.dim) and \
+            all(is_zero(el) for el in tensor.elements)
+
     return isinstance(tensor, Tensor) and \
         tensor.values.ndim == 0 and tensor.values == 0
 
-- 
2.43.0


From 22d31f3962da4f4f4a039e9cb274d11a833f2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 32/41] fix: CollapseMatrix ignored its conditions

---
 maxlike/func/matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..292a43d 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -14,11 +14,14 @@ class CollapseMatrix(Func):
         sgn(A*x + B*y + C) == s
         """
         if conditions is None:
-            self.conditions = [
+            conditions = [
                 (1, -1, 0, 1),
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif np.ndim(conditions) == 1:
+            conditions = [conditions]
+        self.conditions = [tuple(c) for c in conditions]
 
     def __call__(self, params):
         """
-- 
2.43.0


From cc80aa1bf6ac7740b79c8967864c1d5b43fdb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 33/41] fix: constraints and regularizations on a param used
 twice lost half of the mixed second derivatives

---
 maxlike/maxlike_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index e7625a3..64069ea 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -365,6 +365,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         hess[jdx][idx] += gamma * hess_g[i][j].transpose()
                     else:
                         hess[idx][jdx] += gamma * hess_g[i][j]
+                        if jdx == idx and j < i:  # a param used twice
+                            hess[idx][idx] += gamma * hess_g[i][j].transpose()
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
@@ -376,6 +378,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         hess[jdx][idx] -= hess_h[i][j].transpose()
                     else:
                         hess[idx][jdx] -= hess_h[i][j]
+                        if jdx == idx and j < i:  # a param used twice
+                            hess[idx][idx] -= hess_h[i][j].transpose()
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 5136ed951e20fc740fd63054bb26f54baf2d1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:35 +0000
Subject: [PATCH 34/41] fix: functions could not be divided by a number (python
 2 name of the operator)

---
 maxlike/func/func_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 5cfd495..46451b8 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -193,7 +193,7 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
     def __matmul__(self, other):
-- 
2.43.0


From 9a650d1fbd69d68eb159f1a121abd8b8d8853e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:06 +0000
Subject: [PATCH 35/41] fix: mixed second derivatives of MarkovMatrix were
 wrong with a skew

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 292a43d..a80798f 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -140,7 +140,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From 74f79d9d3d29a800fc3dabf1614c366e1be7726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:06 +0000
Subject: [PATCH 36/41] fix: sums of diagonal terms over different axes failed
 or came out wrong when reduced

---
 maxlike/tensor/tensor.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index e4cffa6..4296612 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -220,11 +220,13 @@ class GenericTensor(BaseTensor):
 
     def __init__(self, x_dim=0, y_dim=0, n=0, dim=0, elements=None):
         super(GenericTensor, self).__init__(x_dim, y_dim, n, dim)
-        # all of the elements need to have the same shape
+        # all of the elements need to have the same spaces
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        object.__setattr__(self, 'elements', tuple(
+            el if is_zero(el) else el.with_spaces(x_dim, y_dim, n, dim)
+            for el in elements))
 
     def toarray(self):
         arr = 0
@@ -417,6 +419,8 @@ class GenericTensor(BaseTensor):
             elif op_type in [TensorOp.MUL, TensorOp.DIV]:
                 for k, el in enumerate(new_elements):
                     new_elements[k] = el.bin_op(other, op_type)
+                if all(is_zero(el) for el in new_elements):
+                    return Tensor(0)
             else:
                 raise InvalidOperation
 
@@ -1008,6 +1012,18 @@ class Tensor(BaseTensor):
             raise InvalidOperation('Invalid ufunc:', name)
         return self.bin_op(inputs[0], op_type)
 
+    def with_spaces(self, x_dim, y_dim, n, dim):
+        """
+        The same tensor, constant along the axes of the spaces it misses
+        """
+        if (self.x_dim, self.y_dim, self.n, self.dim) == (x_dim, y_dim, n, dim):
+            return self
+
+        return Tensor(
+            self.values[self.__reshape_idx(x_dim, y_dim, n, dim)],
+            x_dim=x_dim, y_dim=y_dim, dim=dim,
+            x_map=self.x_map, y_map=self.y_map)
+
     def __reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
         if self.x_dim > 0:
-- 
2.43.0


From fbd1e4d2807c8417bbc9200cbd8c7755d72a9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:09 +0000
Subject: [PATCH 37/41] fix: numpy functions of Tensors used one operand twice
 or recursed endlessly

---
 maxlike/tensor/tensor.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 4296612..c3549e9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -456,6 +456,13 @@ class GenericTensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if method != '__call__':
+            raise InvalidOperation('Invalid ufunc method:', method)
+        if inputs[0] is self:
+            # the other operand is on the right side
+            op_type = {TensorOp.RSUB: TensorOp.SUB,
+                       TensorOp.RDIV: TensorOp.DIV}.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
 
@@ -997,7 +1004,19 @@ class Tensor(BaseTensor):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
+            other = inputs[1] if inputs[0] is self else inputs[0]
+            if isinstance(other, Tensor):
+                if (other.x_dim > 0) | (other.y_dim > 0):
+                    raise InvalidOperation(
+                        "{} only supported for Tensor".format(name) +
+                        "for x_dim == y_dim == 0")
+                n = max(self.n, other.n)
+                dim = max(self.dim, other.dim)
+                return Tensor(
+                    ufunc(self.values[self.__reshape_idx(0, 0, n, dim)],
+                          other.values[other.__reshape_idx(0, 0, n, dim)]),
+                    x_dim=0, y_dim=0, dim=dim)
+            return Tensor(ufunc(self.values, other),
                           x_dim=0, y_dim=0, dim=self.dim)
 
         try:
@@ -1010,6 +1029,13 @@ class Tensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if method != '__call__':
+            raise InvalidOperation('Invalid ufunc method:', method)
+        if inputs[0] is self:
+            # the other operand is on the right side
+            op_type = {TensorOp.RSUB: TensorOp.SUB,
+                       TensorOp.RDIV: TensorOp.DIV}.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
     def with_spaces(self, x_dim, y_dim, n, dim):
-- 
2.43.0


From 85438e4d61655f813660db27567f98bc6c6cd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:13 +0000
Subject: [PATCH 38/41] fix: Markov functions, Collapse and FuncWrap kept
 arrays and lists of the caller

---
 maxlike/func/func_op.py | 4 ++++
 maxlike/func/matrix.py  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f4bb3d6..8e343e9 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -38,6 +38,8 @@ class FuncWrap(Func):
         if feat_map is None:
             feat_map = []
         self.feat_map = IndexMap(feat_map)
+        if isinstance(feat_flip, list):
+            feat_flip = list(feat_flip)
         self.feat_flip = feat_flip
         if dim_map is None:
             self.dim_map = IndexMap(range(n_dim))
@@ -109,6 +111,8 @@ class Collapse(Func):
 
     def __init__(self, foo, sum_val=True, sum_dim=True):
         self.foo = foo
+        if isinstance(sum_val, list):
+            sum_val = tuple(sum_val)
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index a80798f..469ff81 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -66,7 +66,7 @@ class MarkovMatrix(Func):
         self.steps = steps
         if skew is None:
             skew = np.ones((size, size))
-        self.skew = skew
+        self.skew = np.array(skew)
 
     def __call__(self, params):
         s1 = np.asarray(params[0] / self.steps)
@@ -180,7 +180,7 @@ class MarkovVector(Func):
         self.steps = steps
         if skew is None:
             skew = np.ones((2 * size - 1,))
-        self.skew = skew
+        self.skew = np.array(skew)
 
     def __call__(self, params):
         s1 = np.asarray(params[0] / self.steps)
-- 
2.43.0


From 83d5bef4df895fe9c130aebc10d32e676e9cfd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:17 +0000
Subject: [PATCH 39/41] fix: derivatives without indices of functions over null
 derivatives were no lists

---
 maxlike/func/func_base.py | 12 ++++++------
 maxlike/func/func_op.py   |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 46451b8..0b73c36 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,8 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_method(obj, wrap):
+    return MethodType(wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +208,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +255,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_method(self, vector_wrap)
+            self.hess = null_method(self, matrix_wrap)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 8e343e9..3ed3a12 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,7 @@
 import numpy as np
 from ..tensor import Tensor
-from .func_base import Func, Affine, eval_wrap, null_method, isnull
+from .func_base import (
+    Func, Affine, vector_wrap, matrix_wrap, eval_wrap, null_method, isnull)
 from six.moves import reduce
 from types import MethodType
 
@@ -48,7 +49,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -62,7 +63,7 @@ class FuncWrap(Func):
                         foo_grad[k] for k in obj.param_map.where(i)))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
             self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
-- 
2.43.0


From 1b8b5056d7c5342d59cb5c36932d04d4359f93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:21 +0000
Subject: [PATCH 40/41] fix: a function scaled or shifted by an array kept the
 array it was given

---
 maxlike/func/func_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index 0b73c36..38ebe3e 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -213,6 +213,11 @@ class Affine(Func):
         if isnull(base.hess):
             self.hess = null_method(self, matrix_wrap)
 
+        if isinstance(a, np.ndarray):
+            a = np.array(a)
+        if isinstance(b, np.ndarray):
+            b = np.array(b)
+
         if isinstance(base, Affine):
             self.base = base.base
             self.a = a * base.a
-- 
2.43.0


From 9c42d90db625c305400df3e50a08bffcae96c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:25 +0000
Subject: [PATCH 41/41] fix: arrays of scaled and shifted functions were
 misplaced in sums

---
 maxlike/func/func_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3ed3a12..f0e1d70 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -179,7 +179,9 @@ class Sum(Func):
         elif isinstance(dim_map, int):
             dim_map = [dim_map]
 
-        if isinstance(foo, (Affine, Sum)):
+        # arrays of an Affine go along its own axes, mapped by FuncWrap
+        if isinstance(foo, Sum) or (isinstance(foo, Affine) and
+                                    np.ndim(foo.a) == np.ndim(foo.b) == 0):
             # collects the terms apart, to add either all of them or none
             terms = Sum(self.n_feat, self.n_dim)
             if isinstance(foo, Affine):
-- 
2.43.0

