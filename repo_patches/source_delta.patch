From ce25df6a5f9b7f96c5d53ff166908b03ecb0b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 01/66] fix: add complex constants to models with real or
 integer data

---
 qsymm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..27abcc1 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -330,7 +330,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -345,7 +345,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[1] = result[1] + other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
-- 
2.43.0


From 1d6602fb054af92b77dbd83e33a53c8c42b3fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 02/66] fix: reject elementwise products of dense and sparse
 models

---
 qsymm/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 27abcc1..95542b6 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -372,8 +372,9 @@ class Model(UserDict):
                          if (key * other in keep or not keep)),
                          self.zeros_like())
         elif isinstance(other, Model):
-            if not (issubclass(self.format, (Number, np.ndarray)) or
-                    issubclass(other.format, (Number, np.ndarray))):
+            if not (issubclass(self.format, Number) or issubclass(other.format, Number) or
+                    (issubclass(self.format, np.ndarray) and
+                     issubclass(other.format, np.ndarray))):
                 raise ValueError('Elementwise multiplication only allowed for scalar '
                                  'and ndarra data types. With sparse matrices use `@` '
                                  'for matrix multiplication.')
-- 
2.43.0


From d8f1070f948d71094f1562f10a263c6d1685abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 03/66] fix: convert sparse and LinearOperator models to dense
 and csr

---
 qsymm/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 95542b6..07b7ce7 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -621,7 +621,8 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
         return result
 
     def toarray(self):
@@ -633,10 +634,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From 0a674ae06707a9e32e779b5ebcb69fd463aef7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 04/66] fix: store constants added to models under a key in
 standard form

---
 qsymm/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 07b7ce7..0f7e864 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -265,6 +265,9 @@ class Model(UserDict):
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
+        if isinstance(key, Number):
+            # Store the key of the constant term in the same form as other keys
+            key = self._constant_key(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
@@ -273,6 +276,9 @@ class Model(UserDict):
             raise ValueError('Format of item ({}) must match the format ({}) '
                              'and shape ({}) of Model'.format(item, self.format, self.shape))
 
+    def _constant_key(self, key):
+        return _symbol_normalizer(key)
+
     # Allow getting values using text keys
     def __getitem__(self, key):
         if key in self.data:
@@ -828,6 +834,9 @@ class BlochModel(Model):
                                 shape=shape,
                                 format=format))
 
+    def _constant_key(self, key):
+        return BlochCoeff(np.zeros(len(self.momenta)), sympy.sympify(key))
+
     # Allow getting values using text keys
     def __getitem__(self, key):
         if key in self.data:
-- 
2.43.0


From 1b270626226f3acf465ef31417a298d2cdbb42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 05/66] fix: keep the sparse format of models when transposing

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0f7e864..7e6099f 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -574,7 +574,11 @@ class Model(UserDict):
     def T(self):
         """Transpose"""
         result = self.zeros_like()
-        result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # The transpose of some sparse formats is in a different format
+            result.data = {key: self.format(val.T) for key, val in self.items()}
+        else:
+            result.data = {key: val.T for key, val in self.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From 48cfa302bd891a2dc514b6618d3e62042d5e3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 06/66] fix: sum terms given under keys with the same standard
 form

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 7e6099f..0946fca 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -196,9 +196,12 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            self.data = {}
+            for k, v in hamiltonian.items():
+                k = symbol_normalizer(k)
+                if k in self.keep or not self.keep:
+                    # Different input keys may have the same standard form
+                    self.data[k] = self.data[k] + v if k in self.data else v
 
         else:
             # Try to parse the input with kwant_continuum.sympify
-- 
2.43.0


From 477fbd2d49659a473e6f03c8f0a8b836abdcede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 07/66] fix: keep BlochCoeffs out of the cache of symbolic keys

---
 qsymm/model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0946fca..8ff6ad4 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -73,6 +73,8 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, tuple):
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
@@ -1012,12 +1014,18 @@ def _symbol_normalizer(key):
     return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
 
 
-@lru_cache(maxsize=1000)
 def _bloch_normalizer(key, momenta):
+    # Keep `BlochCoeff`s out of the cache, they have the same hash as their
+    # symbolic part and are only compared approximately.
     if isinstance(key, BlochCoeff):
         return key
     else:
-        return _to_bloch_coeff(key, momenta)
+        return _cached_bloch_coeff(key, momenta)
+
+
+@lru_cache(maxsize=1000)
+def _cached_bloch_coeff(key, momenta):
+    return _to_bloch_coeff(key, momenta)
 
 
 def _shape_and_format(val):
-- 
2.43.0


From ae2a4a5353cf2d608740b3e35969f8999ed1c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 08/66] fix: look up hopping terms of lattice models by text
 keys

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 8ff6ad4..9e87919 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1025,7 +1025,7 @@ def _bloch_normalizer(key, momenta):
 
 @lru_cache(maxsize=1000)
 def _cached_bloch_coeff(key, momenta):
-    return _to_bloch_coeff(key, momenta)
+    return _to_bloch_coeff(_symbol_normalizer(key), momenta)
 
 
 def _shape_and_format(val):
-- 
2.43.0


From e2988ddd9d5b444b7016edcc04310a1ffcc5835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 09/66] fix: make inequality of BlochCoeffs consistent with
 equality

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 9e87919..9c93fbf 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -79,6 +79,10 @@ class BlochCoeff(tuple):
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
 
+    def __ne__(self, other):
+        # `tuple` has its own `__ne__`, which does not use `__eq__`
+        return not self == other
+
     def __mul__(self, other):
         hop1, coeff1 = self
         if isinstance(other, sympy.Expr):
-- 
2.43.0


From f87b216f92cfdeaf506982451be45027d23ce3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 10/66] fix: evaluate numerical exponentials that make up a
 whole key in subs

---
 qsymm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 9c93fbf..1739dad 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -560,7 +560,8 @@ class Model(UserDict):
             # find all exponentials.
             key = sympy.expand(key, power_base=True, power_exp=True,
                                mul=True, log=False, multinomial=False)
-            find_expos = [ele for ele in key.args if ele.is_Pow]
+            # The key may be a single exponential.
+            find_expos = [ele for ele in sympy.Mul.make_args(key) if ele.is_Pow]
             if len(find_expos):
                 rest = key / np.prod(find_expos)
                 # If an exponential evaluates to a number, replace it with that number.
-- 
2.43.0


From 7a24fa5d909bc46b58cacb647208e5e55f675051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 11/66] fix: apply keep to parsed and normalized input of Model

---
 qsymm/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1739dad..6e98420 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -205,7 +205,8 @@ class Model(UserDict):
             self.data = {}
             for k, v in hamiltonian.items():
                 k = symbol_normalizer(k)
-                if k in self.keep or not self.keep:
+                # If the keys are normalized, `keep` is applied after that
+                if k in self.keep or not self.keep or normalize:
                     # Different input keys may have the same standard form
                     self.data[k] = self.data[k] + v if k in self.data else v
 
@@ -269,8 +270,10 @@ class Model(UserDict):
                     new_key = sympy.Mul(*symbols)
                     new_val = complex(sympy.Mul(*numbers))  * val
                     self[new_key] += new_val
-            # remove zero entries, apply symbol_normalizer
+            # remove zero entries, apply symbol_normalizer and keep
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            if self.keep:
+                self.data = {k: v for k, v in self.items() if k in self.keep}
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
-- 
2.43.0


From 8c35a901330c6227bc10b1e0bd9d37d3beeae472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 12/66] fix: keep the retained terms of both operands in sums
 and empty products

---
 qsymm/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 6e98420..57e0ebc 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -329,8 +329,10 @@ class Model(UserDict):
         # Temporarily allow adding malshaped empty Models
         elif (isinstance(other, type(self)) and other.data=={}):
             result = self.copy()
+            result.keep = self.keep | other.keep
         elif (isinstance(other, type(self)) and self.data=={}):
             result = other.copy()
+            result.keep = self.keep | other.keep
         elif isinstance(other, type(self)):
             if not (self.format is other.format and self.shape == other.shape):
                 raise ValueError('Addition is only possible for Models with the same shape and data type.')
@@ -338,6 +340,7 @@ class Model(UserDict):
             if self.momenta != other.momenta:
                 raise ValueError("Can only add Models with the same momenta")
             result = self.zeros_like()
+            result.keep = self.keep | other.keep
             for key in self.keys() & other.keys():
                 result[key] = self[key] + other[key]
             for key in self.keys() - other.keys():
@@ -407,6 +410,7 @@ class Model(UserDict):
             # Find out the shape of the result even if it is empty
             if isinstance(result, Number) and result == 0:
                 result = self.zeros_like()
+                result.keep = keep
                 result.shape, result.format = _shape_and_format(self[1] * other[1])
         else:
             # Otherwise try to multiply every value with other
@@ -451,6 +455,7 @@ class Model(UserDict):
             # Find out the shape of the result even if it is empty
             if isinstance(result, Number) and result == 0:
                 result = self.zeros_like()
+                result.keep = keep
                 result.shape, result.format = _shape_and_format(self[1] @ other[1])
         else:
             # Otherwise try to multiply every value with other
@@ -496,12 +501,15 @@ class Model(UserDict):
     def transform_symbolic(self, func):
         """Transform keys by applying func to all of them. Useful for
         symbolic substitutions, differentiation, etc."""
+        # The transformed keys do not appear in `keep`
+        zero = self.zeros_like()
+        zero.keep = set()
         # Add possible duplicate keys that only differ in constant factors
         result = sum((type(self)({func(key): copy(val)},
                                  normalize=True,
                                  momenta=self.momenta)
                          for key, val in self.items()),
-                     self.zeros_like())
+                     zero)
         return result
 
     def rotate_momenta(self, R):
-- 
2.43.0


From 2bad4d976dae14d71009d3c724bf7ac14fe88d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 13/66] fix: evaluate complex symbolic prefactors in
 Model.evalf

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 57e0ebc..fe5c27f 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -641,7 +641,11 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(float(key.evalf(subs=subs)) * val for key, val in self.items())
+        def value(key):
+            key = key.subs(e, sympy.E).evalf(subs=subs)
+            return float(key) if key.is_real else complex(key)
+
+        return sum(value(key) * val for key, val in self.items())
 
     def tocsr(self):
         """Convert to sparse csr format."""
-- 
2.43.0


From 8142825125545b81464b50b2523b77b7ca0a4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 14/66] fix: track momenta substituted by name or
 simultaneously

---
 qsymm/model.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fe5c27f..51c9096 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -546,21 +546,27 @@ class Model(UserDict):
         elif isinstance(args[0], dict): # Input is a dictionary
             args = ([(key, value) for key, value in args[0].items()], )
 
+        # Symbols can be given by name
+        pairs = [(sympy.sympify(old), sympy.sympify(new)) for (old, new) in args[0]]
+        # Simultaneous substitutions act on the original momenta all at once,
+        # otherwise they are done one after the other.
+        steps = [pairs] if kwargs.get('simultaneous', False) else [[pair] for pair in pairs]
+
         momenta = self.momenta
-        for (old, new) in args[0]:
-            # Substitution of a momentum variable with a symbol
-            # is a renaming of the momentum.
-            if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
-                                for momentum in momenta)
-            # If no momenta appear in the replacement for a momentum, we consider
-            # that momentum removed.
-            # Replacement is not a sympy object.
-            elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
-            # Replacement is a sympy object, but does not contain momenta.
-            elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+        for step in steps:
+            replacements = dict(step)
+            new_momenta = []
+            for momentum in momenta:
+                new = replacements.get(momentum, momentum)
+                # Substitution of a momentum variable with a symbol
+                # is a renaming of the momentum.
+                if isinstance(new, sympy.Symbol):
+                    new_momenta.append(new)
+                # If no momenta appear in the replacement for a momentum, we consider
+                # that momentum removed.
+                elif any(k in new.atoms() for k in momenta):
+                    new_momenta.append(momentum)
+            momenta = tuple(new_momenta)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From 408f0920bfd405a9d27affb05caabdb7fcda50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 15/66] fix: nsimplify scalar models in tosympy

---
 qsymm/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 51c9096..e66c16a 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -632,7 +632,9 @@ class Model(UserDict):
     def tosympy(self, nsimplify=False):
         """Return sympy representation of the Model.
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
-        if not nsimplify:
+        if nsimplify and self.shape == ():
+            result = sum(key * sympy.nsimplify(val) for key, val in self.items())
+        elif not nsimplify:
             result = sympy.sympify(sum(key * val for key, val in self.toarray().items()))
         else:
             # Vectorize nsimplify
-- 
2.43.0


From 8794b898f65b0aed5bfb969df463a2094266a90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 16/66] fix: bring exponents with brackets in keys to standard
 form

---
 qsymm/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e66c16a..c21c027 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1039,7 +1039,11 @@ def _find_momenta(momenta):
 
 @lru_cache(maxsize=1000)
 def _symbol_normalizer(key):
-    return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
+    key = sympy.sympify(key, locals={'e': e})
+    # Multiply out exponents, otherwise sums in them are not split
+    key = key.xreplace({power: power.base**power.exp.expand()
+                        for power in key.atoms(sympy.Pow)})
+    return sympy.expand_power_exp(key)
 
 
 def _bloch_normalizer(key, momenta):
-- 
2.43.0


From 0ad974ede2e2a674da5716057bccf03a513a187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 17/66] fix: compare sparse matrices without nonzero entries by
 value

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..90b5df8 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. The `size` of a sparse matrix
+    # is the number of nonzero entries, so it can't be used.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From aac915a3ee41a258680d30654fbef57874507496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 18/66] fix: use the Frobenius norm for sparse terms in
 eliminate_zeros

---
 qsymm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index c21c027..0c0954a 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -761,8 +761,9 @@ class Model(UserDict):
         # For empty model do nothing
         if self.data == {}:
             return result
-        # Write it explicitely so it works with sparse arrays
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                return scipy.sparse.linalg.norm(mat)
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From efc429d33ee9de97f349e21b5ded7100bf2799fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 19/66] fix: round sparse models and keep all nonzero rounded
 terms

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0c0954a..bc5511a 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -625,7 +625,7 @@ class Model(UserDict):
         result = self.zeros_like()
         for key, val in self.items():
             val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if not allclose(val, 0, rtol=0, atol=0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 96168198367b14838279dfed64899c0f78e829e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:34 +0000
Subject: [PATCH 20/66] fix: order symmetries independently of rounding errors

---
 qsymm/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..80c7d85 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -213,7 +213,11 @@ class PointGroupElement:
         elif (Rs == identity) ^ (Ro == identity):
             return Rs == identity
         else:
-            return Rs < Ro
+            # Compare the first entries that differ by more than rounding errors
+            for s, o in zip(np.array(Rs).flat, np.array(Ro).flat):
+                if not np.isclose(s, o):
+                    return bool(s < o)
+            return False
 
     def __hash__(self):
         # U is not hashed, if R is floating point it is also not hashed
-- 
2.43.0


From b9df15728549db6e000403e741184646d21a1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 21/66] fix: make exact hexagonal rotation consistent with its
 spin rotation

---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 80c7d85..4b6a94f 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -824,8 +824,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -836,8 +836,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From bce2adb1d53e71dfd4b628f83ac263663b1a3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 22/66] fix: accept any iterable of generators in
 generate_group

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4b6a94f..796c421 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -594,7 +594,7 @@ def generate_group(gens):
     group : set of PointGroupElement
         group generated by gens, closed under multiplication
     """
-    gens = set(gens.copy())
+    gens = set(gens)
     # here we keep all the elements generated so far
     group = gens.copy()
     # these are the elements generated in the previous step
-- 
2.43.0


From 297eae07347082861308255214b0ca5b4c76b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 23/66] fix: reject spin together with ph in hexagonal

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 796c421..ecf8ecd 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -815,6 +815,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From 5d9f7715fac52f8ef83f68c9d6812b0abc202bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 24/66] fix: sign of the x and y components of d-orbital
 angular momentum

---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ecf8ecd..30d4433 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1226,16 +1226,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 8b56fd7f15d7e94184d55b56c57a6fdae1629fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 25/66] fix: reject spins that are not integer or half-integer

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 30d4433..ac6e8da 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1149,7 +1149,7 @@ def spin_matrices(s, include_0=False):
         `(4, 2*s + 1, 2*s + 1)`.
     """
     d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
+    assert np.isclose(d, 2*s + 1)
     d = int(d)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
-- 
2.43.0


From e026770f576929890b50c7d2d65ceae0d3e1ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 26/66] fix: name rotations and mirrors about axes with
 vanishing sum of components

---
 qsymm/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ac6e8da..0d58d7f 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1086,14 +1086,14 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n *= (-1 if np.sum(n) < 0 else 1)
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From 002e3e2162eaff4673fa0a48717b068a1ee010c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 27/66] fix: print continuous generators without conserved
 quantity

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 0d58d7f..da0d371 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1061,6 +1061,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From cda285cde24726eab76f84958583e8ac12eaa39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 28/66] fix: show the correct axis of continuous rotation
 generators

---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index da0d371..97716e9 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1046,7 +1046,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From 654255dbf7dec3ff87a2bd6f08519171d468c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 29/66] fix: show the sign and scale of the rotation angle of
 continuous generators

---
 qsymm/groups.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 97716e9..4acb6cd 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1043,15 +1043,30 @@ def pretty_print_cgg(g, latex=False):
     if L is not None and allclose(L, np.zeros(L.shape)):
         L = None
 
+    def name_angle(scale):
+        # Multiple of the parameter ϕ that is the angle of the rotation
+        phi = r'\phi' if latex else 'ϕ'
+        if np.isclose(scale, 1):
+            return phi
+        elif np.isclose(scale, -1):
+            return '-' + phi
+        else:
+            return '{:.3g} {}'.format(scale, phi)
+
     if R is not None and R.shape[0] == 3:
-        n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
-        n /= la.norm(n)
+        n = np.array([np.trace(l @ R) for l in L_matrices()]).real / 2  # Noqa: E741
+        scale = la.norm(n)
+        n /= scale
         if latex:
-            rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
+            rot_name = r'R_{{\phi}} = R\left({}, {}\right)\\'.format(name_angle(scale), _round_axis(n))
         else:
-            rot_name = '\nR_ϕ = R(ϕ, {})'.format(_round_axis(n))
+            rot_name = '\nR_ϕ = R({}, {})'.format(name_angle(scale), _round_axis(n))
     elif R is not None and R.shape[0] == 2:
-        rot_name = r'R_{{\phi}} = R\left(\phi\right)\\' if latex else 'R_ϕ = R(ϕ)\n'
+        scale = np.trace(L_matrices(2)[0] @ R).real / 2
+        if latex:
+            rot_name = r'R_{{\phi}} = R\left({}\right)\\'.format(name_angle(scale))
+        else:
+            rot_name = '\nR_ϕ = R({})'.format(name_angle(scale))
     else:
         rot_name = ''
 
-- 
2.43.0


From 45581bf395e41dba02bd50f2b67babdc21df8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 30/66] fix: map sites to their images in
 symmetry_from_permutation

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4acb6cd..4e0c324 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1308,7 +1308,7 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From 23753905c8de7e81234ae2fe4091b19b65f4bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 31/66] fix: reject rotation generators that are not both
 Hermitian and antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 4e0c324..d6a1f64 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -537,7 +537,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From f8947391e9c8907760e44e56f322a29f5135a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 32/66] fix: nullspace of a sparse matrix with dense algebra

spmatrix.A was removed from scipy, use toarray().
---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 90b5df8..62cda86 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -260,7 +260,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
-- 
2.43.0


From 78e8a0945d8f6000d1b6c4add508fc986fae675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 33/66] fix: sparse nullspace for null space dimensions the
 step size overshoots

Increasing the number of vectors by a fixed step raised an error although
the null space was small enough, and small matrices could not be treated at
all. Also respect k_max for the zero matrix.
---
 qsymm/linalg.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 62cda86..ac09c02 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -223,33 +223,28 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         A.eliminate_zeros()
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
-            return np.eye(A.shape[1])
+            return np.eye(A.shape[1])[:(k_max if k_max > 0 else None)]
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-        if k_max > 0:
-            # If k_max is specified, find k_max smallest eigenvalues
+        if k_max == 0:
+            raise ValueError('k_max must be nonzero.')
+        # If k_max is specified, find k_max smallest eigenvalues. Otherwise
+        # successively find more eigenvalues until some not close to zero,
+        # increasing the number of vectors to find in each step.
+        k_step = k = abs(k_max)
+        while k < A.shape[0] - 1:
             evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                     k=k_max, return_eigenvectors=True)
-        elif k_max < 0:
-            # Successively find more eigenvalues until some not close to zero
-            # Number of new null space vectors to find in each step
-            k_step = abs(k_max)
-            k_max = min(A.shape[0] - 2, k_step)
-            while k_max < A.shape[0] - 1:
-                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                         k=k_max, return_eigenvectors=True)
-                if np.max(np.abs(evals)) > atol:
-                    # We found the first large one
-                    break
-                else:
-                    # All small, need to increase k_max
-                    k_max += k_step
-            else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                                     k=k, return_eigenvectors=True)
+            if k_max > 0 or np.max(np.abs(evals)) > atol:
+                break
+            # All small, need to find more
+            k += k_step
         else:
-            raise ValueError('k_max must be nonzero.')
+            # The sparse solver only finds up to A.shape[0]-2 eigenvectors
+            evals, evecs = la.eigh(A.toarray())
+            if k_max > 0:
+                evals, evecs = evals[:k_max], evecs[:, :k_max]
 
         # Only keep eigenvectors with small eigenvalues
         nnz = np.isclose(evals, 0, atol=atol)
-- 
2.43.0


From d95de65de7b2f89242cb1a5d115d64c4e731be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 34/66] fix: sparse nullspace of all sparse formats without
 modifying the input

---
 qsymm/linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index ac09c02..89baaf5 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -217,9 +217,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Do sparse eigenvalue solving
         # sigma used for shift-invert, should be a small negative value
         sigma = -1e-1
-        # Make sure A is sparse matrix
-        if isinstance(A, np.ndarray):
-            A = scipy.sparse.csr_matrix(A)
+        # Make sure A is a csr matrix, don't modify the input
+        A = scipy.sparse.csr_matrix(A, copy=True)
         A.eliminate_zeros()
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
-- 
2.43.0


From 17f9d695788677f880cd0537705f36a8da034dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 35/66] fix: rref of a zero matrix with return_S=True

Also correct the direction of S in the docstring.
---
 qsymm/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 89baaf5..a0baa0f 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -504,7 +504,7 @@ def rref(m, rtol = 1e-3, return_S=False):
         to reduced row echelon form. Only returned if return_S = True.
 
     Note: If r is the reduced row echelon form of the input matrix m, then
-        m = S.dot(r).
+        r = S.dot(m).
     """
 
     red = np.array(m)
@@ -528,11 +528,12 @@ def rref(m, rtol = 1e-3, return_S=False):
         P[i, i] = coeff
         return P
 
+    S = np.eye(rows, dtype=complex)
+
     # Stop if m is identically zero
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From 2faeed5f7201b88eaa29932705025bd074980292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 36/66] fix: solve_mat_eqn with complex conjugation

The solutions of X HL = HR X^* form a vector space over the reals, complex
combinations of the Hermitian basis gave matrices that are not solutions.
---
 qsymm/linalg.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index a0baa0f..e42d65d 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -416,7 +416,9 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     -------
     ndarray of shape (l, n, n), or list of csr_matrix
         List of linearly independent square matrices
-        that span all solutions of the eaquations.
+        that span all solutions of the eaquations. The solutions are spanned
+        with real coefficients if hermitian or conjugate is used, with
+        complex coefficients otherwise.
     """
     if sparse is None:
         sparse = isinstance(HL[0], scipy.sparse.spmatrix)
@@ -434,23 +436,27 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
         raise ValueError('HL and HR must be a list of square matrices.')
 
     dim = HL[0].shape[-1]
+    # With conjugation the solutions only form a vector space over the reals
+    reals = hermitian or any(conjugate)
     # number of basis matrices
     N = dim**2 - (1 if traceless else 0)
     if N == 0:
         return np.empty((0, dim, dim))
 
     # Prepare for differences in sparse and dense algebra
+    def basis(sparse=sparse):
+        yield from matrix_basis(dim, traceless=traceless, sparse=sparse)
+        if reals and not hermitian:
+            # Without hermiticity a real basis also needs skew-Hermitian matrices
+            yield from matrix_basis(dim, traceless=traceless, antihermitian=True,
+                                    sparse=sparse)
     if sparse:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
         def flatten(x):
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -467,7 +473,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if reals:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -476,9 +482,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     ns = nullspace(null_mat, sparse=sparse, k_max=k_max)
     # Make all solutions
     # 'ij,jkl->ikl'
-    def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
-    return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
+    return np.array([sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns])
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From c9f0801d0cee454520d1bb383596f24814a14416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 37/66] fix: shape of the result of solve_mat_eqn without
 solutions

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index e42d65d..4ad240f 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -482,7 +482,8 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     ns = nullspace(null_mat, sparse=sparse, k_max=k_max)
     # Make all solutions
     # 'ij,jkl->ikl'
-    return np.array([sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns])
+    sols = [sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns]
+    return np.array(sols).reshape((-1, dim, dim))
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From 713d0c0c3f7ec08be4eab1ff9cbf5b321a6fb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 38/66] fix: incomplete null space from the sparse solver

The Lanczos algorithm misses some of the degenerate null vectors or fails
when the matrix has few distinct singular values. Keep searching in the
orthocomplement of the vectors found so far until no more is found.
---
 qsymm/linalg.py | 56 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 4ad240f..2dfe2b4 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -228,29 +228,41 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
 
         if k_max == 0:
             raise ValueError('k_max must be nonzero.')
-        # If k_max is specified, find k_max smallest eigenvalues. Otherwise
-        # successively find more eigenvalues until some not close to zero,
-        # increasing the number of vectors to find in each step.
-        k_step = k = abs(k_max)
-        while k < A.shape[0] - 1:
-            evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                     k=k, return_eigenvectors=True)
-            if k_max > 0 or np.max(np.abs(evals)) > atol:
+        n = A.shape[0]
+        ns = np.empty((n, 0))
+        lu = sla.splu(scipy.sparse.csc_matrix(A - sigma * scipy.sparse.identity(n)))
+
+        # Shift-invert operator restricted to the orthocomplement of the null
+        # space vectors that are already known.
+        def op_inv(x):
+            x = lu.solve(x.reshape(-1) - ns @ (ns.T.conj() @ x.reshape(-1)))
+            return x - ns @ (ns.T.conj() @ x)
+
+        # Successively find more null space vectors until no more is found. The
+        # Lanczos algorithm can miss some of the degenerate eigenvectors, so an
+        # eigenvalue that is not close to zero does not mean that we have them all.
+        while k_max < 0 or ns.shape[1] < k_max:
+            # Number of vectors to find in this step
+            k = abs(k_max) - (ns.shape[1] if k_max > 0 else 0)
+            try:
+                if k > n - ns.shape[1] - 2:
+                    raise sla.ArpackError(-3, {-3: 'Too many eigenvectors requested.'})
+                op = sla.LinearOperator((n, n), matvec=op_inv, dtype=A.dtype)
+                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM', k=k, OPinv=op,
+                                         return_eigenvectors=True)
+            except sla.ArpackError:
+                # The sparse solver fails if the number of vectors sought is close to
+                # the size of the matrix, or if there are few distinct eigenvalues.
+                evals, ns = la.eigh(A.toarray())
+                ns = ns[:, np.isclose(evals, 0, atol=atol)]
+                if k_max > 0:
+                    ns = ns[:, :k_max]
                 break
-            # All small, need to find more
-            k += k_step
-        else:
-            # The sparse solver only finds up to A.shape[0]-2 eigenvectors
-            evals, evecs = la.eigh(A.toarray())
-            if k_max > 0:
-                evals, evecs = evals[:k_max], evecs[:, :k_max]
-
-        # Only keep eigenvectors with small eigenvalues
-        nnz = np.isclose(evals, 0, atol=atol)
-        ns = evecs[:, nnz]
-        # Orthonormalize null space
-        if ns.shape[1] > 0:
-            ns, _ = la.qr(ns, mode='economic')
+            new = evecs[:, np.isclose(evals, 0, atol=atol)]
+            if new.shape[1] == 0:
+                break
+            # Orthonormalize null space
+            ns, _ = la.qr(np.hstack((ns, new)), mode='economic')
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-- 
2.43.0


From 11a0e277729f4f5819cd426a3207ccb9db493237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 39/66] fix: recognize a non-semisimple algebra in casimir
 regardless of scale

The determinant of a singular Killing form is not small in general.
---
 qsymm/symmetry_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..299497b 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -133,7 +133,7 @@ def killing(gens):
 def casimir(gens):
     # Calculate quadratic Casimir operator
     g = killing(gens)
-    if np.isclose(la.det(g), 0):
+    if np.linalg.matrix_rank(g, tol=1e-8 * la.norm(gens)**2) < len(g):
         raise ValueError('Lie-algebra not semisimple!')
     # 'ab,aik,bkj->ij'
     return np.tensordot(la.inv(g), gens.dot(gens), axes=((0, 1), (0, 2)))
-- 
2.43.0


From ec45722ae307d2ec08b34dd8e18e41f4810abb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 40/66] fix: keep generators of the center Hermitian in
 separate_lie_algebra

A slightly non-Hermitian center element was diagonalized as if it was
Hermitian, which split degenerate subspaces and gave wrong blocks.
---
 qsymm/symmetry_finder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 299497b..c53bd24 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -159,6 +159,10 @@ def separate_lie_algebra(gens):
         generators of semisimple part, shape (ms, N, N)
     """
     g = killing(gens)
+    # The Killing form of Hermitian generators is real. Discard the numerical
+    # error such that generators of the center stay exactly Hermitian.
+    if np.allclose(g.imag, 0):
+        g = g.real
     c, s = nullspace(g, return_complement=True)
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
-- 
2.43.0


From faf9b130cece40234f793fa9107375f7c2a47f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:45 +0000
Subject: [PATCH 41/66] fix: continuous rotations of families with
 one-dimensional blocks

The Hilbert-space action on such blocks is empty, building its constraint
matrix raised an error (e.g. for a spinless k**2 Hamiltonian).
---
 qsymm/symmetry_finder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index c53bd24..9476a8b 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -725,7 +725,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         R = None
         Ls = matrix_basis(blockdim, traceless=True)
         trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if trf_hams:
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.empty((len(Rblock), 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From 60cab179cdf78642b85d42f606afcd0320950b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:45 +0000
Subject: [PATCH 42/66] fix: apply ContinuousGroupGenerator to sparse models

The result is sparse, a generator with both real-space and Hilbert-space
parts raised an error (also in continuous_symmetries of sparse models).
---
 qsymm/groups.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index d6a1f64..f0ff43d 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -9,6 +9,7 @@ from collections import OrderedDict
 import numpy as np
 import tinyarray as ta
 import scipy.linalg as la
+import scipy.sparse
 import sympy
 from sympy.matrices.matrices import MatrixBase
 
@@ -575,7 +576,13 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            onsite = model @ (1j*U) + (-1j*U) @ model
+            if issubclass(model.format, scipy.sparse.spmatrix):
+                # The product of a sparse and a dense matrix is dense
+                onsite.format = model.format
+                for key, val in list(onsite.items()):
+                    onsite[key] = model.format(val)
+            result += onsite
         return result
 
 
-- 
2.43.0


From a99dbdc2be924a1542080814a81cc165d4d53d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 43/66] fix: find the symmetries of a vanishing Hamiltonian

Models without terms, or with only zero terms, raised IndexError.
---
 qsymm/symmetry_finder.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 9476a8b..eed165c 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -77,7 +77,7 @@ def symmetries(model, candidates=None, continuous_rotations=False,
                          '`np.ndarray` or `scipy.sparse.spmatrix` data type.')
 
     # Find onsite conserved quantites and projectors onto blocks.
-    Ps = _reduce_hamiltonian(np.array(list(model.values())), sparse=sparse_linalg)
+    Ps = _reduce_hamiltonian(np.array(list(model.values()) or [np.zeros(model.shape)]), sparse=sparse_linalg)
     cont_sym = conserved_quantities(Ps, prettify=prettify, num_digits=num_digits)
 
     # Find continuous rotations
@@ -412,7 +412,8 @@ def discrete_symmetries(model, candidates, Ps=None, generators=False,
     m = len(symmetry_candidates)
     # Reduce Hamiltonian by onsite unitaries
     if not Ps:
-        Ps = _reduce_hamiltonian(list(model.values()), sparse=sparse_linalg)
+        Ps = _reduce_hamiltonian(list(model.values()) or [np.zeros(model.shape)],
+                                 sparse=sparse_linalg)
     # After every step, symlist is guaranteed to form a group, start with the trivial group
     e = next(iter(candidates)).identity()
     e.U = np.eye(Ps[0].shape[1])
@@ -508,6 +509,9 @@ def _find_unitary(model, Ps, g, sparse=False, checks=False):
         matR = Rmodel[key]
         HL.append(matR)
         ev_test = ev_test and allclose(matL, matL.T.conj()) and allclose(matR, matR.T.conj())
+    if not HR:
+        # Every candidate is a symmetry of the zero Hamiltonian
+        HR, HL = [np.zeros(model.shape)], [np.zeros(model.shape)]
     # Need to carry conjugation on left side through P
     if g.conjugate:
         PsL = [P.conj() for P in Ps]
@@ -690,7 +694,8 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         # BlochModel cannot have continuous rotation symmetry
         return []
     if not Ps:
-        Ps = _reduce_hamiltonian(list(model.values()), sparse=sparse_linalg)
+        Ps = _reduce_hamiltonian(list(model.values()) or [np.zeros(model.shape)],
+                                 sparse=sparse_linalg)
     reduced_hamiltonians = _reduced_model(model, Ps)
     dim = len(model.momenta)
     if dim <= 1:
@@ -700,7 +705,7 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         return matrix_basis(dim, antihermitian=True, real=True)
     # length of Rs
     NR = dim * (dim - 1) / 2
-    blockdims = [list(rham.values())[0].shape[0] for rham in reduced_hamiltonians]
+    blockdims = [rham.shape[0] for rham in reduced_hamiltonians]
     # Blocks corresponding to real space rotations
     Rblocks = []
     # Blocks corresponding to Hilbert space transformations
@@ -786,7 +791,7 @@ def _reduced_model(model, Ps=None):
         raise ValueError('Symmetry finding is only supported for Models with '
                          '`np.ndarray` or `scipy.sparse.spmatrix` data type.')
     if Ps is None:
-        Ps = _reduce_hamiltonian(np.array([H for H in model.values()]))
+        Ps = _reduce_hamiltonian(np.array(list(model.values()) or [np.zeros(model.shape)]))
     reduced_hamiltonians = []
     for P in Ps:
         Hr = P[0].T.conj() @ model @ P[0]
-- 
2.43.0


From a41d69aaa172e417868e90facee6a6c107852b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 44/66] fix: generate only constant terms in zero dimensions

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..3b0b6ac 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -222,7 +222,8 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        # The only monomial is the constant of zeroth degree
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From fb3b8fc29de6a377b233bfd6e44e56fb2c5d400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 45/66] fix: accept any iterable of symmetries in
 continuum_hamiltonian

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 3b0b6ac..03bbc18 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -60,7 +60,8 @@ def continuum_hamiltonian(symmetries, dim, total_power, all_powers=None,
         total_power = range(max_power + 1)
 
     # Generate a Hamiltonian family
-    N = list(symmetries)[0].U.shape[0] # Dimension of Hamiltonian matrix
+    symmetries = list(symmetries)
+    N = symmetries[0].U.shape[0] # Dimension of Hamiltonian matrix
     momenta = momenta[:dim]
     # Symmetries do not mix the total degree of momenta. We can thus work separately at each
     # fixed degree.
-- 
2.43.0


From 07e8f225f44bc5fe22be6d92bcd2d15395b98e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 46/66] fix: check all symmetries if the family is an iterator

---
 qsymm/hamiltonian_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 03bbc18..056ab9b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -361,6 +361,9 @@ def check_symmetry(family, symmetries, num_digits=None):
     ValueError
         If the family does not satisfy the symmetry.
     """
+    # Iterated over once for every symmetry
+    family = list(family)
+
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
     for symmetry in symmetries:
-- 
2.43.0


From 6e1c0429d7cdda141f1e34b6f999c13ff35b4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 47/66] fix: accept any iterable of symmetries in
 continuum_pairing

---
 qsymm/hamiltonian_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 056ab9b..c2e7874 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -140,8 +140,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
     if phases is None:
-        phases = np.ones(len(symmetries))
-    symmetries = deepcopy(symmetries)
+        phases = it.repeat(1)
+    symmetries = [deepcopy(sym) for sym in symmetries]
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From 8974f3a922c10b7064267d612419df1218b010ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 48/66] fix: return pairing terms with the requested momenta

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c2e7874..fa27261 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -153,6 +153,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     ph = np.array([[0, 1], [ph_square, 0]])
     ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))
     symmetries.append(ph)
+    all_momenta = momenta
     momenta = momenta[:dim]
     momentum_variables = continuum_variables(dim, total_power, all_powers=all_powers, momenta=momenta)
     # matrix basis for all matrices in off-diagonal blocks
@@ -179,8 +180,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     # Cast the pairing terms into new Model objects, to ensure that each object has the correct
     # shape.
-    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}) for monomial in
-              family]
+    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()},
+                    momenta=all_momenta) for monomial in family]
     return [mon for mon in family if len(mon)]
 
 
-- 
2.43.0


From e04421a8d9ba5b6ff4fde87f6b5f9300a410c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 49/66] fix: do not alter the symmetries passed to bloch_family

---
 qsymm/hamiltonian_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index fa27261..b4f5310 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -714,8 +714,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
+        pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True)
+              for g in pg]
         pg = generate_group(set(pg))
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
-- 
2.43.0


From 3ef3b158186a2623f1c92dee2ecb5432c6a26599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 50/66] fix: generate Bloch families without point group
 symmetries

---
 qsymm/hamiltonian_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index b4f5310..a0f4747 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -402,11 +402,12 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     family: iterable of Model or BlochModel objects, that represents the
         family with the symmetry constraints applied. """
 
-    if not family:
-        return family
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    # Without members or symmetries there is nothing to constrain
+    if not family or not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -716,7 +717,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Make sure that group is generated while keeping track of unitary part.
         pg = [PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True)
               for g in pg]
-        pg = generate_group(set(pg))
+        # Without point group symmetries only the identity is left
+        pg = generate_group(set(pg)) or [PointGroupElement(np.eye(dim, dtype=int), U=np.eye(N))]
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-- 
2.43.0


From 10ee04228b4527b34fca9e8dce590d3f40e9b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 51/66] fix: accept momentum names and noncommutative symbols
 in bloch_family

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index a0f4747..9ebdb5d 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -678,6 +678,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
 
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
+    momenta = _find_momenta(tuple(momenta))
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
 
     # Add zero hoppings for onsites
-- 
2.43.0


From cbd2716012910e9f4e2df3d5c59cb6619df97b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 52/66] fix: accept exact hopping vectors in bloch_family with
 bloch_model=True

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 9ebdb5d..cb2c0cb 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -692,7 +692,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))
         block_basis = np.concatenate((block_basis, 1j*block_basis))
         if bloch_model:
-            bloch_coeff = BlochCoeff(np.array(vec), sympy.sympify(1))
+            bloch_coeff = BlochCoeff(np.array(vec, dtype=float), sympy.sympify(1))
         else:
             # Hopping direction in real space
             # Dot product with momentum vector
-- 
2.43.0


From e8e850412b278011bea763d66164fd9ea950a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 53/66] fix: print names of zero-dimensional symmetries

---
 qsymm/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index f0ff43d..e53c8a7 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -932,7 +932,10 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        # Only the identity exists in 0D
+        rot_name = '1'
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From 7ac4b77a838c83d60d8520e0087a411928f0340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 54/66] fix: accept momentum names in continuum_variables

---
 qsymm/hamiltonian_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index cb2c0cb..a4f5879 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -230,8 +230,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
-- 
2.43.0


From bc296cfc41a9a26fff764d324ae8874d57bef77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:24 +0000
Subject: [PATCH 55/66] fix: constrain families that are not closed under the
 symmetries

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index a4f5879..d4487ae 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -425,7 +425,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From f91cc53157297d686241d6114012598c035cdb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 56/66] fix: make substitutions of a dictionary independent of
 its order

---
 qsymm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index bc5511a..df59adf 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -544,7 +544,12 @@ class Model(UserDict):
         if len(args) == 2:  # Input is a single pair
             args = ([(args[0], args[1])], )
         elif isinstance(args[0], dict): # Input is a dictionary
-            args = ([(key, value) for key, value in args[0].items()], )
+            # Fix the order the same way as ``sympy.Expr.subs`` does, such that it
+            # does not depend on the order of the dictionary.
+            items = [(sympy.sympify(key), value) for key, value in args[0].items()]
+            items.sort(key=lambda item: (-sum(1 for _ in sympy.preorder_traversal(item[0])),
+                                         sympy.default_sort_key(item[0])))
+            args = (items, )
 
         # Symbols can be given by name
         pairs = [(sympy.sympify(old), sympy.sympify(new)) for (old, new) in args[0]]
-- 
2.43.0


From 0bf34dfc6f512c8f917e5d81b5ab3a7ef556e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 57/66] fix: copy the data of sparse matrices in Models

---
 qsymm/model.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index df59adf..54cbefe 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -255,7 +255,7 @@ class Model(UserDict):
             # * removing entries which values care np.allclose to zero
             # Do not copy key, as Sympy objects are immutable anyway,
             # and making a copy breaks equality checking and hashing.
-            old_data = {key: copy(val) for key, val in self.items()}
+            old_data = {key: _copy_value(val) for key, val in self.items()}
             self.data = {}
             for key, val in old_data.items():
                 for summand in key.expand().powsimp(combine='exp').as_ordered_terms():
@@ -344,9 +344,9 @@ class Model(UserDict):
             for key in self.keys() & other.keys():
                 result[key] = self[key] + other[key]
             for key in self.keys() - other.keys():
-                result[key] = copy(self[key])
+                result[key] = _copy_value(self[key])
             for key in other.keys() - self.keys():
-                result[key] = copy(other[key])
+                result[key] = _copy_value(other[key])
         elif ((isinstance(other, self.format) and self.shape == other.shape)
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
@@ -386,7 +386,7 @@ class Model(UserDict):
             result.data = {key: val * other for key, val in self.items()}
         elif isinstance(other, Basic):
             keep = self.keep
-            result = sum((type(self)({key * other: copy(val)},
+            result = sum((type(self)({key * other: _copy_value(val)},
                                      keep=keep,
                                      momenta=self.momenta)
                          for key, val in self.items()
@@ -428,7 +428,7 @@ class Model(UserDict):
             # The order 'key * other' is important: we want to force
             # the implementation of __mul__ of 'key' to be used. This
             # is correct as long as the symbols in 'key' and 'other' commute.
-            result = sum((type(self)({key * other: copy(val)},
+            result = sum((type(self)({key * other: _copy_value(val)},
                                      keep=keep,
                                      momenta=self.momenta)
                          for key, val in self.items()
@@ -505,7 +505,7 @@ class Model(UserDict):
         zero = self.zeros_like()
         zero.keep = set()
         # Add possible duplicate keys that only differ in constant factors
-        result = sum((type(self)({func(key): copy(val)},
+        result = sum((type(self)({func(key): _copy_value(val)},
                                  normalize=True,
                                  momenta=self.momenta)
                          for key, val in self.items()),
@@ -694,7 +694,7 @@ class Model(UserDict):
         # This is faster than deepcopy of the dict
         # Do not copy the keys, as Sympy objects (and BlochCoeffs) are
         # immutable anyway, and making a copy breaks equality checking and hashing.
-        result.data = {k: copy(v) for k, v in self.items()}
+        result.data = {k: _copy_value(v) for k, v in self.items()}
         return result
 
     def lambdify(self, nsimplify=False, *, onsite=False, hopping=False):
@@ -772,7 +772,7 @@ class Model(UserDict):
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-        result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}
+        result.data = {key: _copy_value(val) for key, val in self.items() if not norm(val) < tol}
         return result
 
 
@@ -899,7 +899,7 @@ class BlochModel(Model):
         # do rotation on hopping vectors with transpose matrix
         R_T = np.array(R).astype(float).T
         result = self.zeros_like()
-        result.data = {BlochCoeff(R_T @ hop, coeff): copy(val) for (hop, coeff), val in self.items()}
+        result.data = {BlochCoeff(R_T @ hop, coeff): _copy_value(val) for (hop, coeff), val in self.items()}
         return result
 
     def conj(self):
@@ -922,7 +922,7 @@ class BlochModel(Model):
 
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
-        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
+        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): _copy_value(val)
                       for key, val in self.items()},
                      momenta=self.momenta,
                      keep={key.tosympy(self.momenta, nsimplify=nsimplify)
@@ -1066,6 +1066,11 @@ def _cached_bloch_coeff(key, momenta):
     return _to_bloch_coeff(_symbol_normalizer(key), momenta)
 
 
+def _copy_value(val):
+    # `copy.copy` of a sparse matrix shares the data arrays with the original
+    return val.copy() if isinstance(val, scipy.sparse.spmatrix) else copy(val)
+
+
 def _shape_and_format(val):
     # Find shape and type of val
     format = type(val)
-- 
2.43.0


From f088b53a116a654bd09a0dec2b5866c6a6aa4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 58/66] fix: make BlochCoeff and BlochModel deepcopyable and
 picklable

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 54cbefe..01f8c6e 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -100,6 +100,10 @@ class BlochCoeff(tuple):
         else:
             raise NotImplementedError
 
+    def __getnewargs__(self):
+        # Needed to pickle and deepcopy
+        return tuple(self)
+
     def __copy__(self):
         return self.copy()
 
-- 
2.43.0


From f6cd0f7af9211aea0ee114ffc66b368e0150a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 59/66] fix: topological charge of 1x1 matrices in class D

---
 qsymm/kwant_rmt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..d1af1f3 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -281,10 +281,13 @@ def circular(n, sym='A', charge=None, rng=None):
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
         if (charge > 0) != (det > 0):
-            idx = np.arange(n)
-            idx[-1] -= 1
-            idx[-2] += 1
-            s = s[idx]
+            if n == 1:
+                s = -s
+            else:
+                idx = np.arange(n)
+                idx[-1] -= 1
+                idx[-2] += 1
+                s = s[idx]
 
     # Add the proper time-reversal symmetry:
     if sym in ('AI', 'CI'):
-- 
2.43.0


From 30124ce1b7931a670ecdb6286293498033a3c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 60/66] fix: LLL: do not raise if a ratio of Gram-Schmidt norms
 equals c

---
 qsymm/kwant_linalg_lll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/kwant_linalg_lll.py b/qsymm/kwant_linalg_lll.py
index 2f10c1e..1e16f39 100644
--- a/qsymm/kwant_linalg_lll.py
+++ b/qsymm/kwant_linalg_lll.py
@@ -61,7 +61,8 @@ def is_c_reduced(vecs, c):
     """Check if a basis is c-reduced."""
     vecs = gs(vecs)
     r = np.apply_along_axis(lambda x: np.linalg.norm(x)**2, 1, vecs)
-    return np.all((r[: -1] / r[1:]) < c)
+    # Allow for rounding errors if a ratio is equal to c.
+    return np.all((r[: -1] / r[1:]) < c * (1 + 1e-9))
 
 
 def lll(basis, c=1.34):
-- 
2.43.0


From d1dd70b5d3591131fc78e65e5b144219b408df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 61/66] fix: Bravais point group independent of the unit of
 length

---
 qsymm/symmetry_finder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index eed165c..3148412 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -831,6 +831,9 @@ def bravais_point_group(periods, tr=False, ph=False, generators=False, verbose=F
 
     # get lll reduced basis
     periods, _ = lll(periods)
+    # The symmetries do not depend on the unit of length, but the absolute
+    # tolerances in the following do.
+    periods = periods / np.min(la.norm(periods, axis=1))
     # get nearest neighbors
     neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods
     neighbors = neighbors[:len(neighbors)//2]
-- 
2.43.0


From 4d3452c29dcc23c558452116c5b022e23c8715e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 62/66] fix: subtract_family: return terms orthogonal to the
 subtracted family

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index d4487ae..1ef1484 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -557,8 +557,9 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
     _, ort_basis1 = nullspace(basis1, atol=tol, return_complement=True)
     if not allclose((projected_basis1.dot(ort_basis1.T.conj())).dot(ort_basis1), projected_basis1, atol=tol):
         raise ValueError('Projecting onto the complement of family2 did not result in a subspace of family1')
-    # Find the coefficients of linearly independent vectors
-    _, projected_coeffs1 = nullspace(projected_basis1.T, atol=tol, return_complement=True)
+    # Find an orthonormal basis of the projected space and express it with family1
+    _, projected_basis1 = nullspace(projected_basis1, atol=tol, return_complement=True)
+    projected_coeffs1 = projected_basis1.dot(la.pinv(basis1, atol=tol))
     rfamily = []
     for vec in projected_coeffs1:
         rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))
-- 
2.43.0


From f3309d43660d3bcab121ac3b12c373a4143d3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 63/66] fix: tosympy of models without terms keeps their shape

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 01f8c6e..87b1157 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -641,7 +641,10 @@ class Model(UserDict):
     def tosympy(self, nsimplify=False):
         """Return sympy representation of the Model.
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
-        if nsimplify and self.shape == ():
+        if not self.data and self.shape is not None and len(self.shape) == 2:
+            # No terms to tell the shape of the result
+            result = sympy.zeros(*self.shape)
+        elif nsimplify and self.shape == ():
             result = sum(key * sympy.nsimplify(val) for key, val in self.items())
         elif not nsimplify:
             result = sympy.sympify(sum(key * val for key, val in self.toarray().items()))
-- 
2.43.0


From 775454bb4f3134d8277db5fdd9280bee03df263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 64/66] fix: list a function only once among the arguments of
 lambdify

---
 qsymm/kwant_continuum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 7d16e30..5e67e30 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -101,8 +101,8 @@ def lambdify(expr, locals=None):
     """
     expr = sympify(expr, locals)
 
-    args = [s.name for s in expr.atoms(sympy.Symbol)]
-    args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
+    args = {s.name for s in expr.atoms(sympy.Symbol)}
+    args |= {str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)}
 
     return sympy.lambdify(sorted(args), expr)
 
-- 
2.43.0


From b49c71181cc6b3e27e08c8a80f441954d5060b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 65/66] fix: inverse of integer matrices whose determinant has
 rounding errors

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 2dfe2b4..d5f3e97 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -630,6 +630,7 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    # The determinant is calculated in floating point
+    if _A != A or abs(np.round(la.det(A))) != 1:
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From e21407e926a290bd0415b01e4e52bdd6f9805ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 66/66] fix: size-reduce all vectors of the LLL-reduced basis

---
 qsymm/kwant_linalg_lll.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/kwant_linalg_lll.py b/qsymm/kwant_linalg_lll.py
index 1e16f39..e319667 100644
--- a/qsymm/kwant_linalg_lll.py
+++ b/qsymm/kwant_linalg_lll.py
@@ -132,6 +132,9 @@ def lll(basis, c=1.34):
             if abs(u[i+1, i]) > 0.5:
                 ll_reduce(i+1)
             i = max(i-1, 0)
+    # Vectors after the exchanged ones are not size-reduced in the loop.
+    for i in range(m):
+        ll_reduce(i)
     # TODO: change to rcond=None once we depend on numpy >= 1.14.
     coefs = np.linalg.lstsq(vecs_orig.T, vecs.T, rcond=-1)[0]
     if not np.allclose(np.round(coefs), coefs, atol=1e-6):
-- 
2.43.0

