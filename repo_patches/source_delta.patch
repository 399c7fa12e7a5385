From b8b41f52cb4389009f6cc672c6f3b8f8eec30258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:36 +0000
Subject: [PATCH 001/118] fix: parse the whole denominator of a rational
 coefficient or exponent

The non-greedy pattern stopped after one digit, so 'a^1/16' was read as
'6 a^1' and products that round-trip through a string were corrupted.
---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..3248736 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 9e067df957004b3979ce37cd0df582757bb45bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:48 +0000
Subject: [PATCH 002/118] fix: read signed scientific notation as a single
 coefficient

'1e-3 a' was split into a variable called 'e' and a coefficient of -3.
---
 src/goats/core/symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 3248736..4208039 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -854,8 +854,8 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            longest = len(matches['constant'][0]) >= len(matches['variable'][0])
+            key = 'constant' if longest else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From 01befa5e0690bccb967f426b851e948d5eb705ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:58 +0000
Subject: [PATCH 003/118] fix: keep zero coefficients and exponents instead of
 replacing them by one

---
 src/goats/core/symbolic.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 4208039..2d68e74 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,13 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(1 if exponent is None else exponent)
         """The numerical exponent."""
 
     @property
@@ -1015,13 +1017,15 @@ class OperandFactory(PartFactory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            )
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1031,7 +1035,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
@@ -1320,7 +1324,7 @@ def standard(this, missing: str='1', joiner: str='*') -> str:
     exponentiation by real numbers. Instantiation automatically calls this
     function.
     """
-    if not this:
+    if not this and not isinstance(this, numbers.Number):
         return missing
     if isinstance(this, str):
         return this
-- 
2.43.0


From 0f45374cbbbe07099f14093cd40605dc467e6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:21 +0000
Subject: [PATCH 004/118] fix: express SI to Gaussian conversions with the
 speed of light in cm/s

---
 src/goats/core/metric.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..362298a 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -752,7 +752,7 @@ _CONVERSIONS = {
     ('H / m', '1'): 1e7 / 4*PI,
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 2169a91b4315c885daa60ed90b33edc3d5ad1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:21 +0000
Subject: [PATCH 005/118] fix: divide by 4*pi when converting permeability to
 cgs

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 362298a..30bfe2c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -749,7 +749,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
-- 
2.43.0


From 2b6cb108756e941963586da758a0cfdc65e05602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:30 +0000
Subject: [PATCH 006/118] fix: correct the cgs value of the first radiation
 constant

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From 6dac3031c1938ee1b87377f5ef0f3144616257dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:14 +0000
Subject: [PATCH 007/118] fix: do not convert units whose dimensions are
 unknown by dropping them

---
 src/goats/core/metric.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 30bfe2c..057ed0c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1752,18 +1752,23 @@ class Conversion(iterables.ReprStrMixin):
         """Attempt to compute a conversion via unit dimensions."""
         decomposed = []
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
-                )
+            try:
+                reduction = NamedUnit(term.base).reduce()
+            except (SystemAmbiguityError, UnitParsingError):
+                return
+            if not reduction:
+                # We can't convert by dimensions without every term's dimension.
+                return
+            decomposed.extend(
+                [
+                    symbolic.Term(
+                        coefficient=reduction.scale**term.exponent,
+                        base=this.base,
+                        exponent=term.exponent*this.exponent,
+                    )
+                    for this in reduction.units
+                ]
+            )
         if symbolic.Expression(decomposed) == '1':
             return 1.0
         return self._resolve_terms(decomposed)
-- 
2.43.0


From 48aa6d98dfcdbec8dddf581fd2552a8e234a8334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:08 +0000
Subject: [PATCH 008/118] fix: keep the scale of dimensionless units when
 converting

---
 src/goats/core/metric.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 057ed0c..fafcab9 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1789,9 +1789,11 @@ class Conversion(iterables.ReprStrMixin):
             u1 = term.base
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
-        dimensions = NamedUnit(u0).dimensions.values()
-        if u0 in named_units and all(d == '1' for d in dimensions):
-            return 1.0, target
+        named = NamedUnit(u0)
+        if u0 in named_units and all(d == '1' for d in named.dimensions.values()):
+            canonical = CANONICAL['units']['mks'][named.quantity]
+            factor = self._convert_as_strings(u0, canonical) or named.scale
+            return factor ** exponent, target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From f620fe419ce1728ad9b6659b975925b5f76930c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:12 +0000
Subject: [PATCH 009/118] fix: do not let a prefixed symbol shadow the symbol
 of another unit

---
 src/goats/core/metric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index fafcab9..89b428b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -915,6 +915,9 @@ finally by physical quantity.
 def build_unit_aliases(prefix, unit):
     """Define all aliases for the given metric prefix and base unit."""
     key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
+    if prefix['symbol'] and any(key[-1] == u['symbol'] for u in _units):
+        # The symbol already represents an unprefixed unit (e.g., 'cd').
+        key.pop()
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
     return tuple(key)
@@ -1092,6 +1095,9 @@ class _NamedUnitMeta(abc.ABCMeta):
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
         symbol = f"{magnitude.symbol}{reference.symbol}"
+        if identify(symbol) != (magnitude, reference):
+            # The symbol belongs to a different unit (e.g., 'cd').
+            symbol = name
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
-- 
2.43.0


From 0f3e436502f038374521780400d5c5c30dd9a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:12 +0000
Subject: [PATCH 010/118] fix: suggest words that extend a misspelled name at
 its end

---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From e6263dbfe0e8b1c57de2022f207e8529c8dcfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:34 +0000
Subject: [PATCH 011/118] fix: update metadata when evaluating in-place
 operators

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..7370086 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f"_{k}", v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From 8bcacb00f8f5ee5bfceda6b9e0701fb7b807dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:29 +0000
Subject: [PATCH 012/118] fix: search all values that satisfy the bound in
 find_nearest

---
 src/goats/core/numerical.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..43c7734 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,19 +107,16 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        allowed = array >= target
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        allowed = array <= target
+    else:
+        allowed = numpy.ones(array.shape, dtype=bool)
+    if allowed.any():
+        distance = numpy.where(allowed, distance, numpy.inf)
+    index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 94fb542975e2871eb3fc7a9802b3222a976dcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:29 +0000
Subject: [PATCH 013/118] fix: compute the flow angle from the scalar product
 of B and V

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From c880eb760945ed2f561eb1e2b4c41a0911049426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:23 +0000
Subject: [PATCH 014/118] fix: interpolate over two-dimensional references that
 contain the target

---
 src/goats/core/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..0327d26 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return numpy.array([y[0] for y in arr])
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 1fed9a3f6d5096002370b33037d79cd1b9d63e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:44 +0000
Subject: [PATCH 015/118] fix: honor every index and slice when extracting a
 subarray

---
 src/goats/core/physical.py |  4 ++--
 src/goats/core/variable.py | 34 ++++++++++++++++++----------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..0674180 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -365,7 +365,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(self.shape[i])[arg]
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -384,7 +384,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..e429e40 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -119,23 +119,24 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         unwrapped = iterables.unwrap(args)
         indices = self._normalize_indices(unwrapped)
         array = self._get_array(indices)
-        result = numpy.array(array, ndmin=self.ndim)
         if array.ndim != self.ndim:
-            with contextlib.suppress(TypeError):
-                shape = [
-                    self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
-                ]
-                return self._copy_with(data=result.reshape(shape))
-        return self._copy_with(data=result)
+            return self._copy_with(data=array.reshape(self._get_shape(indices)))
+        return self._copy_with(data=numpy.array(array))
+
+    def _get_shape(self, indices):
+        """Helper for computing shape in `__getitem__`."""
+        user = indices if isinstance(indices, tuple) else (indices,)
+        sizes = [
+            self._get_axis_size(i, v)
+            for i, v in enumerate(self._expand_ellipsis(user))
+        ]
+        return (*sizes, *self.shape[len(sizes):])
 
     def _get_axis_size(self, i: int, v):
         """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
-            return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
-        return self.shape[i]
+            return len(range(self.shape[i])[v])
+        return 1
 
     def _normalize_indices(self, args):
         """Compute appropriate array indices from `args`.
@@ -148,12 +149,13 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         """
         if iterables.hastype(args, self._builtin, tuple, strict=True):
             return args
-        if not isinstance(args, (tuple, list)):
+        if not isinstance(args, tuple):
             args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
+            range(self.shape[i])[arg] if isinstance(arg, slice)
+            else [arg] if isinstance(arg, int)
+            else arg
             for i, arg in enumerate(expanded)
         ]
         return numpy.ix_(*list(indices))
@@ -170,7 +172,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 9e37fad3089feae60b92666c833a34d1287ee5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 016/118] fix: create arrays from the current values of an
 existing array

---
 src/goats/core/physical.py | 3 +++
 src/goats/core/variable.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 0674180..32eaaab 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -240,6 +240,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
+        if isinstance(__data, Array):
+            # The original data may not reflect the current unit.
+            self._data = __data._array
         self._scale = 1.0
         self._full_array = getattr(__data, '_array', None)
         self._ndim = None
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index e429e40..c227774 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -35,7 +35,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
     def __init__(self, __interface) -> None:
         # Initialize the parent class.
         super().__init__(
-            __interface.data
+            __interface._array if isinstance(__interface, Array)
+            else __interface.data
             if isinstance(__interface, measurable.Quantified)
             else __interface
         )
-- 
2.43.0


From 49f003d8aecef95e5a2425b48f8f314c21d2b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:49 +0000
Subject: [PATCH 017/118] fix: keep dimensions in step with the axes that mean
 and squeeze remove

---
 src/goats/core/variable.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index c227774..205a460 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -627,29 +627,41 @@ class Quantity(Array):
 
 
 @Quantity.implements(numpy.squeeze)
-def _squeeze(v: Quantity, **kwargs):
+def _squeeze(v: Quantity, axis=None):
     """Remove singular axes."""
-    data = v._array.squeeze(**kwargs)
+    data = v._array.squeeze(axis=axis)
+    removed = (
+        {i for i, d in enumerate(v.shape) if d == 1} if axis is None
+        else _normalize_axes(axis, v.ndim)
+    )
     dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
 @Quantity.implements(numpy.mean)
-def _mean(v: Quantity, **kwargs):
+def _mean(v: Quantity, axis=None, **kwargs):
     """Compute the mean of the underlying array."""
-    data = v._array.mean(**kwargs)
-    axis = kwargs.get('axis')
+    data = v._array.mean(axis=axis, **kwargs)
     if axis is None:
         return data
+    removed = (
+        set() if kwargs.get('keepdims')
+        else _normalize_axes(axis, v.ndim)
+    )
     dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
+def _normalize_axes(axis, ndim: int):
+    """Convert `axis` to a set of non-negative integers."""
+    axes = axis if isinstance(axis, typing.Iterable) else [axis]
+    return {int(i) % ndim for i in axes}
+
+
 S = typing.TypeVar('S', bound='Interface')
 
 
-- 
2.43.0


From a25b4879876735f304279d9b712dd4b49fc22191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:01 +0000
Subject: [PATCH 018/118] fix: convert variables to the interface's metric
 system instead of relabeling them

---
 src/goats/core/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 205a460..775f89c 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -706,12 +706,12 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
+        built = Quantity(
             __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
+            dimensions=__v.dimensions,
+            unit=__v.unit,
         )
+        return built[str(self.system)] if self.system else built
 
     @property
     def system(self):
-- 
2.43.0


From 9b9587fe78b4327eed15d1629f3d1dea0921290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:17 +0000
Subject: [PATCH 019/118] fix: convert index values of any sequence type and
 reject inconsistent units

---
 src/goats/core/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 7be25c9..71e714c 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -175,8 +175,8 @@ class Array(Quantity):
         if unit == self.unit:
             return self
         new = metadata.Unit(unit)
-        values = self.values * (new // self.unit)
         if self.unit | new:
+            values = numpy.array(self.values) * (new // self.unit)
             return type(self)(
                 Data(self._points, values=values),
                 unit=new,
-- 
2.43.0


From d2b6bf83ad818f51af42b8faac3db6d283ca3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:17 +0000
Subject: [PATCH 020/118] fix: leave an existing axis unchanged when creating
 an axis from it

---
 src/goats/core/axis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..23ec47c 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -99,6 +99,9 @@ class Quantity(iterables.ReprStrMixin):
         return super().__new__(cls)
 
     def __init__(self, __a: Indexer, unit=None) -> None:
+        if __a is self:
+            # `__new__` returned an existing instance.
+            return
         self._indexer = __a
         self._unit = metadata.Unit(unit) if unit else None
         self._reference = None
-- 
2.43.0


From 0f40c662fd7276e82556a4d060027661d83a8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:48 +0000
Subject: [PATCH 021/118] fix: resolve slices of an axis as slices of its
 indices

---
 src/goats/core/axis.py      | 2 +-
 src/goats/core/iterables.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 23ec47c..7eed5a4 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -42,7 +42,7 @@ class Indexer(iterables.ReprStrMixin):
         if not user:
             return range(self.size)
         if isinstance(user[0], slice):
-            return iterables.slice_to_range(user[0], stop=self.size)
+            return range(self.size)[user[0]]
         if isinstance(user[0], range):
             return user[0]
         return user
diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..fa46efc 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -190,7 +190,7 @@ def slice_to_range(s: slice, stop: int=0) -> range:
     if stop is None:
         raise TypeError(f"Cannot convert {s} to a range.")
     start = s.start or 0
-    stop = s.stop or stop
+    stop = stop if s.stop is None else s.stop
     step = s.step or 1
     return range(start, stop, step)
 
-- 
2.43.0


From 0c059f05f0ed3d284734fec5cef754deb81f6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:56 +0000
Subject: [PATCH 022/118] fix: read a square root that follows another operator
 or a coefficient

---
 src/goats/core/symbolic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 2d68e74..44e372a 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -591,6 +591,7 @@ class OperandFactory(PartFactory):
             ),
             'variable': re.compile(
                 fr'(?P<coefficient>{self.rational})?'
+                fr'(?!sqrt\s*\{opening})'
                 fr'(?P<base>{self.base})'
                 fr'(?P<exponent>{exponent})?',
                 re.VERBOSE,
@@ -1237,8 +1238,15 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
+        power = initial.exponent
+        if current.operator in {'multiply', 'divide'}:
+            # The square root of an operand may follow another operator.
+            prefix = self.operators.parse(current.string)
+            if prefix and prefix.result == 'sqrt':
+                power *= fractions.Fraction(1, 2)
+                current.string = prefix.remainder
         if parsed := self.operands.parse(current.string):
-            current.operand = parsed.result ** initial.exponent
+            current.operand = parsed.result ** power
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From e34758c177fd82b1d86fe7e54945104a8eabde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 023/118] fix: leave an existing expression unchanged when
 creating an expression from it

---
 src/goats/core/symbolic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 44e372a..eb337d6 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1448,6 +1448,8 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
         """
 
     def __init__(self, expression, **kwargs) -> None:
+        if expression is self:
+            return # `__new__` returned an existing (hashable) instance.
         string = standard(expression, joiner=' * ')
         terms = Parser(**kwargs).parse(string)
         self.terms = reduce(terms)
-- 
2.43.0


From f92df262b8e2bb7bcbfb5edf38f4c2832551a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:16 +0000
Subject: [PATCH 024/118] fix: compute equal hashes for equal terms

---
 src/goats/core/symbolic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index eb337d6..77b5bed 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -417,7 +417,8 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        # NOTE: The numerical attributes of equal terms are equal as floats.
+        return hash((float(self.coefficient), self.base, float(self.exponent)))
 
 
 def asterms(these: typing.Iterable[str]):
-- 
2.43.0


From e9c2cc6314556da233fb95e745a882640ae09643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:42 +0000
Subject: [PATCH 025/118] fix: keep rational constants exact when parsing an
 expression

---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 77b5bed..23bc330 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -894,7 +894,7 @@ class OperandFactory(PartFactory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return PartMatch(
-            result=Term(coefficient=float(coefficient)),
+            result=Term(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From c408adc11ee89d960fde55ebefe5aa0c6655b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:45 +0000
Subject: [PATCH 026/118] fix: treat a number before a group as the coefficient
 of that group

---
 src/goats/core/symbolic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 23bc330..7689351 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -862,6 +862,11 @@ class OperandFactory(PartFactory):
             key = 'constant' if longest else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
+        if matches['constant']:
+            end = matches['constant'].end()
+            if self.patterns['opening'].match(target[end:]):
+                # The constant is the coefficient of a complex operand.
+                return
         for key, match in matches.items():
             if match:
                 return self._get_build_method(key)(match)
-- 
2.43.0


From 4edf3441b90e2158d3daa8e4e9ed82a5b3ca7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:53 +0000
Subject: [PATCH 027/118] fix: do not drop a symbol that precedes a group

---
 src/goats/core/symbolic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 7689351..73a3b9f 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -916,7 +916,8 @@ class OperandFactory(PartFactory):
             return
         i0, end = bounds
         result = {'base': target[i0+1:end-1]}
-        if match := self._match_simplex(target[:i0], mode='fullmatch'):
+        match = self._match_simplex(target[:i0], mode='fullmatch')
+        if match and match.result.base == '1':
             result['coefficient'] = match.result.coefficient
             i0 = 0
         if mode == 'match' and i0 != 0:
-- 
2.43.0


From 883910d9f30e5a855067f2fe9002dba311fe78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:39 +0000
Subject: [PATCH 028/118] fix: correct the mks dimension of permittivity

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 89b428b..de4473b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From a0d31347ca6d39a70760a22831b0055b9667f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:47 +0000
Subject: [PATCH 029/118] fix: express displacement per square centimeter in
 cgs

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index de4473b..e7fca92 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From 69ae800e5c60a882d295eb9530d381ba5d544dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:56 +0000
Subject: [PATCH 030/118] fix: define the quantity of the lux unit

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index e7fca92..8615616 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From 81bbc80fcebe80f41628b1190bb612036bd032bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:57 +0000
Subject: [PATCH 031/118] fix: accept the symbols of micro and ohm in
 expressions

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 73a3b9f..2605c1a 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -30,7 +30,7 @@ class Patterns(collections.UserDict):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -252,7 +252,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
@@ -573,7 +573,7 @@ class OperandFactory(PartFactory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
-- 
2.43.0


From f60d31f5204d7f4f9a2d564a460c71a49b06fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:39 +0000
Subject: [PATCH 032/118] fix: find defined conversions of compound units
 however they are written

---
 src/goats/core/metric.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 8615616..4e6b707 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1,6 +1,7 @@
 import abc
 import collections.abc
 import contextlib
+import functools
 import numbers
 import typing
 
@@ -1609,12 +1610,29 @@ class Conversion(iterables.ReprStrMixin):
         methods: typing.Iterable[typing.Callable[[str, str], float]],
     ) -> typing.Optional[float]:
         """Call conversion methods on this instance's units."""
+        u0, u1 = (self._find_node(unit) for unit in (self.u0, self.u1))
         for method in methods:
             self._checked = []
-            if conversion := method(self.u0, self.u1):
+            if conversion := method(u0, u1):
                 return conversion
         raise UnitConversionError(self.u0, self.u1)
 
+    def _find_node(self, unit: str):
+        """Find the defined form of `unit`, regardless of how it is written."""
+        if unit in self.units or unit in named_units:
+            return unit
+        expression = symbolic.Expression(unit)
+        for node in self.units:
+            if expression == self._parse_node(node):
+                return node
+        return unit
+
+    @staticmethod
+    @functools.lru_cache(maxsize=None)
+    def _parse_node(node: str):
+        """Parse a defined unit, if necessary."""
+        return symbolic.Expression(node)
+
     def _convert_as_strings(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to convert `u0` to `u1` as strings.
         
-- 
2.43.0


From 2c5fa45665174825e287e6bed214ec62f6114469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:09 +0000
Subject: [PATCH 033/118] fix: represent every spelling of a unit by the same
 object

---
 src/goats/core/metric.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4e6b707..82c8819 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1095,6 +1095,10 @@ class _NamedUnitMeta(abc.ABCMeta):
         magnitude, reference = identify(string)
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
+        if available := cls._instances.get(name):
+            # The argument is another spelling of an existing unit.
+            cls._instances.alias(name, string)
+            return available
         symbol = f"{magnitude.symbol}{reference.symbol}"
         if identify(symbol) != (magnitude, reference):
             # The symbol belongs to a different unit (e.g., 'cd').
@@ -1111,7 +1115,7 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        cls._instances[(name, symbol, string)] = instance
         return instance
 
 
@@ -2012,7 +2016,11 @@ class _UnitMeta(abc.ABCMeta):
             # If `name` corresponds to a named unit register both the name and
             # symbol (e.g., 'centimeter' and 'cm').
             this = NamedUnit(name)
-            key = (this.name, this.symbol)
+            if this.name in cls._instances:
+                # The argument is another spelling of an existing unit.
+                cls._instances.alias(this.name, name)
+                return cls._instances[this.name]
+            key = (this.name, this.symbol, name)
         except UnitParsingError:
             # If attempting to parse a named unit from `name` failed, register
             # the canonical string and, if applicable, the string argument.
-- 
2.43.0


From dc0acff4fdcb9a05865a4adcd4e7421b34a6a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:25 +0000
Subject: [PATCH 034/118] fix: find the unit of a dimension however it is
 written

---
 src/goats/core/metric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 82c8819..1be6e60 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2791,6 +2791,7 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        target = Dimension(target)
         for quantity, dimension in self.dimensions.items():
             if dimension == target:
                 return Unit(self.units[quantity])
-- 
2.43.0


From dfb333c306d599a80da17cc89251f4eb596b06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 035/118] fix: treat dimensions in a different order as
 different

---
 src/goats/core/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..82eb9af 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -826,9 +826,10 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same dimensions."""
+        if isinstance(other, Dimensions):
+            return other._names == self._names
         return (
-            isinstance(other, Dimensions) and other._names == self._names
-            or (
+            (
                 isinstance(other, str)
                 and len(self) == 1
                 and other == self._names[0]
-- 
2.43.0


From 28ef2966f0a7fd7dfc33acf53907a59a09e17037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:33 +0000
Subject: [PATCH 036/118] fix: support numpy functions that provide no
 signature

---
 src/goats/core/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 82eb9af..b2a4877 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -4,6 +4,7 @@ Objects and functions for operating on metadata.
 
 import abc
 import collections.abc
+import contextlib
 import fractions
 import inspect
 import math
@@ -352,7 +353,9 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
         operator.__name__ = self.name or f'__{method.__name__}__'
         operator.__doc__ = method.__doc__
         if callable(method) and not isinstance(method, type):
-            operator.__text_signature__ = str(inspect.signature(method))
+            with contextlib.suppress(ValueError):
+                # not all callables (e.g., `numpy` ufuncs) provide a signature
+                operator.__text_signature__ = str(inspect.signature(method))
         return operator
 
     def __eq__(self, __o):
-- 
2.43.0


From 86af569651873fb2902b6b9fe0e59222e4e7f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:18 +0000
Subject: [PATCH 037/118] fix: check units when comparing arrays

---
 src/goats/core/physical.py | 14 ++++++++++++++
 src/goats/core/variable.py | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 32eaaab..1ba0fc2 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -277,6 +277,10 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return False
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """Called for self != other."""
+        return not self == other
+
     def __len__(self):
         """Called for len(self)."""
         try:
@@ -426,6 +430,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS:
+            self._check_comparable(*args)
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
@@ -444,6 +450,14 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return None
         return self._new_from_func(data, updates=meta)
 
+    _COMPARISONS = ('less', 'less_equal', 'greater', 'greater_equal')
+
+    def _check_comparable(self, *args):
+        """Raise an exception if it doesn't make sense to compare `args`."""
+        for attribute in self.meta.parameters:
+            if attribute != 'name' and not metadata.consistent(attribute, *args):
+                raise ValueError(f"Inconsistent metadata for {attribute!r}")
+
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input object types based on `ufunc`."""
         if ufunc.__name__ == 'power':
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 775f89c..e04abe5 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -74,6 +74,10 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return NotImplemented
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """Called for self != other."""
+        return not self == other
+
     def __len__(self):
         """Called for len(self)."""
         try:
@@ -212,6 +216,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS:
+            self._check_comparable(*args)
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
@@ -230,6 +236,14 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return None
         return self._new_from_func(data, updates=meta)
 
+    _COMPARISONS = ('less', 'less_equal', 'greater', 'greater_equal')
+
+    def _check_comparable(self, *args):
+        """Raise an exception if it doesn't make sense to compare `args`."""
+        for attribute in self.meta.parameters:
+            if attribute != 'name' and not metadata.consistent(attribute, *args):
+                raise ValueError(f"Inconsistent metadata for {attribute!r}")
+
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input arrays into arrays appropriate to `ufunc`."""
         if ufunc.__name__ == 'power':
-- 
2.43.0


From 51a998abf48b301745ecce3b389d96bbf791a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:32 +0000
Subject: [PATCH 038/118] fix: don't call a dimensionless unit consistent with
 every unit of one metric system

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1be6e60..41d2bac 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2300,7 +2300,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         that = type(self)(other)
         for system in SYSTEMS:
             defined = self.dimensions[system]
-            given = that.dimensions.values()
+            given = [d for d in that.dimensions.values() if d]
             if defined and any(d == defined for d in given):
                 return True
         if self.quantity == that.quantity:
-- 
2.43.0


From d73e7609109aa5fac5b6b826018cb1064091c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:00 +0000
Subject: [PATCH 039/118] fix: keep the unit and name when creating a scalar or
 vector from an existing one

---
 src/goats/core/physical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 1ba0fc2..dc4970e 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,10 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, measurable.Quantity):
+            attrs = ('unit', 'name')
+            known = {k: getattr(__data, k) for k in attrs if hasattr(__data, k)}
+            meta = {**known, **meta}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -161,7 +165,7 @@ class Vector(Quantity):
         if isinstance(__data, measurable.Measurement):
             meta = {'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From 8e5c4380daa57fd0a348dccfc8a6964bd5f8a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:14 +0000
Subject: [PATCH 040/118] fix: accept any unit-like object as the new unit of a
 vector

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index dc4970e..aa05f27 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -181,7 +181,7 @@ class Vector(Quantity):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, str):
+        if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
         if isinstance(index, typing.SupportsIndex) and index < 0:
             index += len(self)
-- 
2.43.0


From 687fd64d6b7541abe4cc32c24a9e3f48b8278888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:00 +0000
Subject: [PATCH 041/118] fix: keep the name of a quantity when changing its
 unit

---
 src/goats/core/measurable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 7370086..f3b989d 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -233,7 +233,8 @@ class Quantity(Quantified):
         object if doing so here would be inefficient.
         """
         data = self._data * (unit // self._unit)
-        return type(self)(data, unit=unit)
+        meta = {k: getattr(self, k) for k in self.meta.parameters}
+        return type(self)(data, **{**meta, 'unit': unit})
 
     def __measure__(self):
         """Create a measurement from this quantity's data and unit."""
-- 
2.43.0


From e23aa7d536f8b444773400bd4b991306d1b3b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 042/118] fix: convert between long names of units that have no
 direct conversion

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 41d2bac..3b61976 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1623,8 +1623,11 @@ class Conversion(iterables.ReprStrMixin):
 
     def _find_node(self, unit: str):
         """Find the defined form of `unit`, regardless of how it is written."""
-        if unit in self.units or unit in named_units:
+        if unit in self.units:
             return unit
+        if unit in named_units:
+            aliases = self._get_aliases_of(unit)
+            return next((u for u in aliases if u in self.units), unit)
         expression = symbolic.Expression(unit)
         for node in self.units:
             if expression == self._parse_node(node):
-- 
2.43.0


From a4d980e705c0a892cfb8dc4056607825a54fd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:49 +0000
Subject: [PATCH 043/118] fix: let each pair of terms use every defined
 conversion

---
 src/goats/core/metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 3b61976..cf8524c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1810,19 +1810,21 @@ class Conversion(iterables.ReprStrMixin):
         terms: typing.Iterable[symbolic.Term],
     ) -> typing.Optional[typing.Union[float, symbolic.Term]]:
         """Attempt to convert `target` to a term in `terms`."""
-        u0 = target.base
         exponent = target.exponent
         like_terms = [
             term for term in terms
             if term != target and term.exponent == -exponent
         ]
         for term in like_terms:
-            u1 = term.base
+            self._checked = []
+            u0, u1 = (self._find_node(u.base) for u in (target, term))
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
+        u0 = target.base
         named = NamedUnit(u0)
         if u0 in named_units and all(d == '1' for d in named.dimensions.values()):
             canonical = CANONICAL['units']['mks'][named.quantity]
+            self._checked = []
             factor = self._convert_as_strings(u0, canonical) or named.scale
             return factor ** exponent, target
 
-- 
2.43.0


From de909d56030e59239f2a133fb45c7dbb9ef76c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:02 +0000
Subject: [PATCH 044/118] fix: broadcast or reject operands whose shared
 dimensions differ in length

---
 src/goats/core/variable.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index e04abe5..d68195b 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -622,15 +622,11 @@ class Quantity(Array):
         correct_type = all(isinstance(v, type(self)) for v in inputs)
         if multiplicative and correct_type:
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
-            tmp = {}
-            for v in inputs:
-                tmp.update(v.shape_dict)
-            full_shape = tuple(tmp[d] for d in dims)
-            indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
             for v in inputs:
-                idx = tuple(indices[dims.index(d)] for d in v.shape_dict)
-                arrays.append(v._get_array(idx))
+                order = [v.dimensions.index(d) for d in dims if d in v.shape_dict]
+                shape = [v.shape_dict.get(d, 1) for d in dims]
+                arrays.append(v._array.transpose(order).reshape(shape))
             return arrays
         return super()._ufunc_hook(ufunc, *inputs)
 
-- 
2.43.0


From 05107cdd57fd54b558fa386a70683135c1000def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 045/118] fix: subscript an array with a list of indices

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index aa05f27..42b96f9 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -372,7 +372,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         This method handles all cases that don't meet the criteria for
         `_subscript_standard`.
         """
-        if not isinstance(args, (tuple, list)):
+        if not isinstance(args, tuple):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-- 
2.43.0


From f1adc582fd08dd7b01f8bebd5e0ac15d93b5c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 046/118] fix: accept numpy integers as indices

---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 42b96f9..a898e00 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -324,7 +324,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (int, numpy.integer, slice, type(...), type(None))
 
     @typing.overload
     def __getitem__(
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index d68195b..b401af5 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -117,7 +117,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (int, numpy.integer, slice, type(...), type(None))
 
     def __getitem__(self, *args):
         """Extract a subarray."""
@@ -159,7 +159,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         expanded = self._expand_ellipsis(args)
         indices = [
             range(self.shape[i])[arg] if isinstance(arg, slice)
-            else [arg] if isinstance(arg, int)
+            else [arg] if isinstance(arg, (int, numpy.integer))
             else arg
             for i, arg in enumerate(expanded)
         ]
-- 
2.43.0


From 33a7aebe143786714e1a86e67b4ae4a1e840a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:49 +0000
Subject: [PATCH 047/118] fix: support an ellipsis beside an array of indices

---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index a898e00..42add8c 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -391,7 +391,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index b401af5..e410b4e 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -173,7 +173,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-- 
2.43.0


From a420d3afa9dc1b646b8da0da3a4d96b518a8d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 048/118] fix: compute equal hashes for equal groups of aliases

---
 src/goats/core/aliased.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..f48bba4 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
@@ -624,18 +624,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         return self._flat_dict.get(key)
 
     def _look_up_key(self, target: Group):
-        """Find the aliased key equivalent to `target`.
-        
-        Notes
-        -----
-        Checking ``key in self.as_dict`` doesn't always work because `dict`
-        look-up will first compare the key's hash value to those of existing
-        keys before comparing the key itself. This may fail in the first stage
-        due to the fact that `MappingKey.__hash__` uses `tuple.__hash__`, which
-        depends on order, despite the fact that the second stage should pass
-        because `MappingKey.__eq__` does not depend on order. See
-        https://stackoverflow.com/q/327311/4739101.
-        """
+        """Find the aliased key equivalent to `target`."""
         try:
             found = next(key for key in self.as_dict if key == target)
         except StopIteration:
-- 
2.43.0


From b2a69d9a6d8af1920140b60c7dd8c0fbdd12dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 049/118] fix: keep merged groups of aliases disjoint and their
 names intact

---
 src/goats/core/aliased.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index f48bba4..07e4075 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -149,29 +149,31 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         """Combine this instance's groups with other groups."""
         these = self._groups.copy()
         for this in others:
-            groups = this if isinstance(this, Groups) else [this]
+            groups = this if isinstance(this, Groups) else [Group(this)]
             for group in groups:
-                if found := self._search(group):
-                    these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                separate = []
+                for existing in these:
+                    if group.isdisjoint(existing):
+                        separate.append(existing)
+                    else:
+                        group = existing | group
+                these = [*separate, group]
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
+    @classmethod
+    def _from_iterable(cls: typing.Type[GroupsType], it) -> GroupsType:
+        """Create an instance from the result of a set operation."""
+        return cls().merge(*it)
 
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        group = Group(__x)
+        for i in group:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(group)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From b869445643ffd0274982215e43981b9b3523af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 050/118] fix: create an aliased mapping from entries that
 declare no aliases

---
 src/goats/core/aliased.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 07e4075..b99087c 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -254,6 +254,7 @@ def keysfrom(
         ]
     return [
         Group(k) | Group(v.get(aliases, ()))
+        if isinstance(v, typing.Mapping) else Group(k)
         for k, v in mapping.items()
     ]
 
@@ -346,6 +347,7 @@ def _build_from_key(
     keys = keysfrom(mapping, aliases=aliases)
     values = [
         {k: v for k, v in group.items() if k != aliases}
+        if isinstance(group, typing.Mapping) else group
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
     return dict(zip(keys, values))
-- 
2.43.0


From 354b90e61197070dd812dbe492425f862b51c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 051/118] fix: keep the values of an aliased mapping when
 copying or merging

---
 src/goats/core/aliased.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b99087c..579f5f4 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -267,6 +267,9 @@ def _build_mapping(
     # Is it empty?
     if not mapping:
         return {}
+    # Does it already have aliased keys?
+    if not aliases and all(isinstance(key, Group) for key in mapping):
+        return _build_from_aliases(mapping)
     # Did the user provide explicit aliases?
     if aliases:
         return _build_from_key(mapping, aliases=aliases)
-- 
2.43.0


From 1fa992f852c3fc5060f01b8eeb3207ae9fa54e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 052/118] fix: iterate over the names of an inverted name map

---
 src/goats/core/aliased.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 579f5f4..bab8788 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -994,6 +994,7 @@ class NameMap(iterables.MappingBase):
             for aliases, name in self._mapping.items(aliased=True)
         }
         self._mapping = Mapping(inverted)
+        super().__init__(self._mapping.keys())
         return self
 
     def __getitem__(self, key: str):
-- 
2.43.0


From 34223e233a07450d0a50c302a04f5dd4125aadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:33 +0000
Subject: [PATCH 053/118] fix: join overlapping groups of aliases and reject
 aliases of unknown keys

---
 src/goats/core/aliased.py | 82 +++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index bab8788..fa7219d 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -289,17 +289,56 @@ def _build_mapping(
 def _build_from_aliases(
     mapping: typing.Mapping[_KT, _VT],
 ) -> typing.Dict[Group, _VT]:
-    """Build a `dict` that maps aliased keys to user values."""
+    """Build a `dict` that maps aliased keys to user values.
+
+    Keys that have at least one alias in common represent the same item, which
+    takes the last of their values.
+    """
     out = {}
+    owners = {}
     for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
-        out[aliased_key] = value
+        _assign(out, owners, Group(key), value)
     return out
 
 
+def _assign(
+    items: typing.Dict[Group, _VT],
+    owners: typing.Dict[_KT, Group],
+    group: Group,
+    value: _VT,
+) -> None:
+    """Assign `value` to `group` and to all groups that overlap with it.
+
+    Parameters
+    ----------
+    items
+        The existing items. This function will modify it in place.
+
+    owners
+        The mapping from each alias in `items` to the group that contains it.
+        This function will modify it in place.
+
+    group
+        The aliases to which to assign the given value.
+
+    value : any
+        The value to assign.
+    """
+    found = []
+    for alias in group:
+        owner = owners.get(alias)
+        if owner is not None and not any(owner is known for known in found):
+            found.append(owner)
+    if len(found) == 1 and len(found[0] | group) == len(found[0]):
+        items[found[0]] = value
+        return
+    for owner in found:
+        group = group | owner
+        del items[owner]
+    items[group] = value
+    owners.update({alias: group for alias in group})
+
+
 def _build_from_key(
     mapping: typing.Mapping[str, typing.Mapping[str, typing.Any]],
     aliases: typing.Union[str, Groups[str]]=None,
@@ -740,9 +779,12 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         include : bool, default=False
             If true, include the current key in the returned aliases.
         """
-        if include:
-            return self._resolve(key)
-        return self._resolve(key) - [key]
+        resolved = self._resolve(key)
+        if resolved is None:
+            raise KeyError(
+                f"{str(key)!r} does not correspond to a known name or alias"
+            ) from None
+        return resolved if include else resolved - [key]
 
     def __eq__(self, other: typing.Mapping) -> bool:
         """Define equality between this and another object."""
@@ -834,9 +876,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
 
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
-        resolved = self._resolve(key) or Group(key)
-        self.as_dict[resolved] = value
-        self._refresh()
+        _assign(self.as_dict, self._flat_dict, Group(key), value)
 
     def __delitem__(self, key: str):
         """Remove the item corresponding to `key`."""
@@ -867,20 +907,20 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         include : bool, default=False
             If true, include the current key in the returned aliases.
         """
+        current = super().alias(key, include=True)
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
-            if alias in self._flat_keys():
-                current = super().alias(key)
-                this = ", ".join(str(a) for a in current)
-                if len(current) > 1:
+        for alias in aliases:
+            owner = self._resolve(alias)
+            if owner is not None and owner is not current:
+                others = [str(a) for a in owner if a != alias]
+                this = ", ".join(others or [str(alias)])
+                if len(others) > 1:
                     this = f'({this})'
                 raise KeyError(
-                    f"'{key}' is already an alias for {this!r}"
+                    f"'{alias}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+        _assign(self.as_dict, self._flat_dict, current | aliases, self[key])
 
 
 class NameMap(iterables.MappingBase):
-- 
2.43.0


From 48f572ea7a552b3f1d33f0ea94e85df3dd6b1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:12 +0000
Subject: [PATCH 054/118] fix: call a table request ambiguous exactly when
 several entries match it

---
 src/goats/core/iterables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index fa46efc..7a8c257 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1105,11 +1105,10 @@ class Table(MappingBase):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
+                if subset and len(request) == n_checked:
+                    raise AmbiguousRequestError(request)
         if strict and len(subset) == 1:
             return subset[0]
         raise TableLookupError(request)
-- 
2.43.0


From d537c3bc0d43496c5191427dce2f729853ff1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:12 +0000
Subject: [PATCH 055/118] fix: support look-up in an empty table

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 7a8c257..22c93cf 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1014,7 +1014,7 @@ class Table(MappingBase):
         """All the keys common to the individual mappings."""
         if self._keys is None:
             all_keys = [list(entry.keys()) for entry in self._entries]
-            self._keys = set(all_keys[0]).intersection(*all_keys[1:])
+            self._keys = set(*all_keys[:1]).intersection(*all_keys[1:])
         return self._keys
 
     def __getitem__(self, key: _KT) -> typing.Tuple[_VT]:
-- 
2.43.0


From 6da135e12ed3b4e1821dc5905e084ff56604618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:12 +0000
Subject: [PATCH 056/118] fix: do not replace a registered object by one with
 the same default key

---
 src/goats/core/iterables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 22c93cf..ca6ad8a 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -851,9 +851,11 @@ class ObjectRegistry(collections.abc.Mapping):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
-                return new_default_key
+                while True:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
+                    if new_default_key not in self._items:
+                        return new_default_key
 
     def reset(self) -> None:
         """Reset the internal mapping to its initial state."""
-- 
2.43.0


From 99c5d790ed55634e6b5dd6e74434027416cccb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:12 +0000
Subject: [PATCH 057/118] fix: substitute the value of a known exception for
 its subclasses

---
 src/goats/core/iterables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ca6ad8a..b415efd 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1672,8 +1672,11 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[this] for this in type(err).mro()
+                if this in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From 1e0b2990ec4c29c99a00798075b92561eb530dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:17 +0000
Subject: [PATCH 058/118] fix: look up keys of a uniform mapping without
 endless recursion

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index b415efd..0cb39ac 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -653,7 +653,7 @@ class UniformMapping(MappingBase):
 
     def __getitem__(self, key: str):
         """Create an instance of the type from the mapping."""
-        if key in self:
+        if key in self._mapping:
             kwargs = {p: self._mapping[key].get(p) for p in self._init}
             return self._type(**kwargs)
         raise KeyError(key) from None
-- 
2.43.0


From 1995124fa2e7f5581ba4949924b7838c5f1c04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:28 +0000
Subject: [PATCH 059/118] fix: compute distances between integers without
 overflow

---
 src/goats/core/numerical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 43c7734..74eaa28 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,7 +107,8 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    distance = numpy.abs(array - target)
+    numeric = array.astype(float) if array.dtype.kind in 'biu' else array
+    distance = numpy.abs(numeric - target)
     if bound == 'lower':
         allowed = array >= target
     elif bound == 'upper':
-- 
2.43.0


From 553b1b46a6b556828e9d1d0c4a6a57f1af58aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:28 +0000
Subject: [PATCH 060/118] fix: honor the strict keyword when casting an object
 of any type

---
 src/goats/core/numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 74eaa28..10cdfaf 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -158,7 +158,7 @@ def cast(
     for t in types:
         try:
             return t(arg)
-        except ValueError:
+        except (TypeError, ValueError):
             pass
     if strict:
         raise TypeError(f"Can't convert {arg!r} to a number") from None
-- 
2.43.0


From 10a793e8106e9ef3a22771260173c386b542cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:34 +0000
Subject: [PATCH 061/118] fix: round small plain numbers to zero without
 modifying the argument

---
 src/goats/core/numerical.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 10cdfaf..05c9a69 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -279,13 +279,8 @@ def zero_floor(
     value: typing.Union[float, numpy.ndarray],
 ) -> typing.Union[float, numpy.ndarray]:
     """Round a small number, or array of small numbers, to zero."""
-    if value.shape:
-        condition = numpy.asarray(
-            numpy.abs(value) < sys.float_info.epsilon
-        ).nonzero()
-        value[condition] = 0.0
-    else:
-        value = 0.0 if numpy.abs(value) < sys.float_info.epsilon else value
-    return value
+    return numpy.where(
+        numpy.abs(value) < sys.float_info.epsilon, 0.0, value
+    )[()]
 
 
-- 
2.43.0


From 0ca50937d69625354ba4fe3bde040c48ede8ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:34 +0000
Subject: [PATCH 062/118] fix: convert scalars and points on the z axis to
 spherical coordinates

---
 src/goats/core/numerical.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 05c9a69..064b46b 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -211,19 +211,12 @@ def xyz2rtp(*args):
         x, y, z = args
     else:
         raise ArgsNumberError
-    r = numpy.sqrt(x*x + y*y + z*z)
-    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
-    t = numpy.arccos(z/r)
-    t[numpy.asarray(r == 0).nonzero()] = 0.0
+    x, y, z = (numpy.asarray(i, dtype=float) for i in (x, y, z))
+    r = zero_floor(numpy.sqrt(x*x + y*y + z*z))
+    t = numpy.where(r == 0, 0.0, numpy.arccos(z / numpy.where(r == 0, 1.0, r)))
     p = numpy.arctan2(y, x)
-    p[numpy.asarray(p < 0.0).nonzero()] += 2*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j >= 0 for (i, j) in zip(x, y)]
-    ).nonzero()] = +0.5*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j < 0  for (i, j) in zip(x, y)]
-    ).nonzero()] = -0.5*numpy.pi
-    return (r, t, p)
+    p = numpy.where(p < 0.0, p + 2*numpy.pi, p)
+    return (r[()], t[()], p[()])
 
 
 def rtp2xyz(*args):
-- 
2.43.0


From 321638aa802db3e1393df8405121346cf70d882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:34 +0000
Subject: [PATCH 063/118] fix: perpendicular speed of parallel fields is zero
 rather than nan

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..2d17059 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -132,7 +132,7 @@ def v_perp(
     """The velocity-field component parallel to the magnetic field."""
     mag = v_mag(vr, vt, vp)
     para = v_para(vr, vt, vp, br, bt, bp)
-    return numpy.sqrt(mag**2 - para**2)
+    return numpy.sqrt(numpy.maximum(mag**2 - para**2, 0.0))
 
 
 @registry.register
-- 
2.43.0


From 7830db9843f9919065058f89c52d59e26cd5dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:34 +0000
Subject: [PATCH 064/118] fix: compare the minimum energy to the energies of
 each species

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 2d17059..80b7c21 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -369,10 +369,10 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From 0c0f2cbfbfa9f544ba593d429b9169095a699d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:34 +0000
Subject: [PATCH 065/118] fix: pass dependencies of a computed quantity in
 parameter order

---
 src/goats/core/computed.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 80b7c21..bc202fb 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -439,19 +439,18 @@ class Method(collections.abc.Mapping, iterables.ReprStrMixin):
 
     def parse(self, dependencies: typing.Mapping):
         """Extract arrays and floats from `dependencies`."""
-        arrays = []
-        floats = []
+        args = []
         for name in self.parameters:
             arg = dependencies[name]
             if isinstance(arg, variable.Quantity):
-                arrays.append(numpy.array(arg))
+                args.append(numpy.array(arg))
             elif isinstance(arg, physical.Scalar):
-                floats.append(float(arg))
+                args.append(float(arg))
             elif (
                 isinstance(arg, typing.Iterable)
                 and all(isinstance(a, physical.Scalar) for a in arg)
-            ): floats.extend([float(a) for a in arg])
-        return *arrays, *floats
+            ): args.extend([float(a) for a in arg])
+        return tuple(args)
 
     def __len__(self):
         """The number of available metadata attributes."""
-- 
2.43.0


From 96291e6c099e081b662785531289a6fd27860b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:43 +0000
Subject: [PATCH 066/118] fix: check observer spelling against individual names

---
 src/goats/core/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..9076a9b 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,11 +91,11 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = self.context.keys
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-            self._spellcheck.words |= keys
+            self._spellcheck.words = set(keys)
         return self._spellcheck.check(key)
 
     @property
-- 
2.43.0


From c6e662c8a8104f5ec5caa2f367ad973456e0a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:43 +0000
Subject: [PATCH 067/118] fix: update the available names when constraints
 change

---
 src/goats/core/observing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..d0420f1 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -327,6 +327,8 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         else:
             self._user = dict(new)
         self._constraints = None
+        self._available = None
+        self._keys = None
         self._cache = {}
         return self
 
-- 
2.43.0


From 91e4a4790fb243df8f7cdefbf3021bb3f1b85fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:43 +0000
Subject: [PATCH 068/118] fix: apply the first exponent to metadata of a
 composed quantity

---
 src/goats/core/observing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index d0420f1..d16e76d 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -411,9 +411,10 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
         built = self.get_attribute(name, term.base)
-        if len(expression) > 1:
-            for term in expression[1:]:
-                built *= self.get_attribute(name, term.base)**term.exponent
+        if term.exponent != 1:
+            built = built ** term.exponent
+        for term in expression[1:]:
+            built *= self.get_attribute(name, term.base)**term.exponent
         return built
 
     def get_attribute(self, name: str, target: str):
-- 
2.43.0


From 02e3e398f6d5cf5b2c1a2711afb15dc9ca38dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:43 +0000
Subject: [PATCH 069/118] fix: merge parameter names in order

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index d16e76d..faa019d 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*iterables.unique(*names))
 
     __mul__ = merge
     """Called for self * other."""
-- 
2.43.0


From e8320999f3d4b333c730900a366596f3078cd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:43 +0000
Subject: [PATCH 070/118] fix: compare observations and allow them to have no
 assumptions

---
 src/goats/core/observing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index faa019d..b35d8da 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -159,7 +159,7 @@ class Observation:
         }
         self._axes = aliased.Mapping(tmp)
         self._indices = indices
-        self._assumptions = assumptions
+        self._assumptions = assumptions or {}
         self._array = None
         self._parameters = None
         self._unit = None
@@ -227,10 +227,10 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
+        if isinstance(__o, Observation):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('_data', '_indices', '_assumptions')
             )
         return NotImplemented
 
-- 
2.43.0


From 2d734dd17702eb1ace1006ceb9789f61237e4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 071/118] fix: interpolate over the only axis of the
 pitch-angle reference

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..f313472 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -449,7 +449,7 @@ class Context(observing.Context):
     _axis_indices = {
         'time': 0,
         'energy': 1,
-        'mu': 1,
+        'mu': 0,
     }
 
     def _compute_interpolants(self, q: variable.Quantity):
-- 
2.43.0


From 0b34f4f279cbf3a36c8f7e297618cd200c8be9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 072/118] fix: interpolate over radius before interpolating
 over time

---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index f313472..710e47a 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -476,6 +476,7 @@ class Context(observing.Context):
             # only applies when 'shell' is one of the target quantity's
             # dimensions.
             return interpolants
+        radial = {}
         for key in reference.ALIASES.find('radius'):
             if values := self.get_value(key):
                 try:
@@ -484,12 +485,14 @@ class Context(observing.Context):
                     floats = [float(values)]
                 else:
                     floats = [float(value) for value in values]
-                interpolants['radius'] = {
+                radial['radius'] = {
                     'targets': numpy.array(floats),
                     'reference': self.coordinates['radius'],
                     'axis': 1,
                 }
-        return interpolants
+        # The radius of each shell depends on time, so radial interpolation must
+        # precede interpolation over time.
+        return {**radial, **interpolants}
 
     def interpolate(
         self,
-- 
2.43.0


From de771d9d55475617376480ea819c1627d78edd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 073/118] fix: give an index the axis values at its own points

---
 src/goats/eprem/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 710e47a..b858914 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,10 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(
+                    indices,
+                    values=[symbols[i] for i in indices],
+                )
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +239,11 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                points = [int(t) for t in targets]
+                return index.Data(
+                    points,
+                    values=numpy.array(converted)[points],
+                )
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From b66ea6ca9b3411377d123cd2494c6db02ebc58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 074/118] fix: compute the rigidity of more than one species

---
 src/goats/core/computed.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index bc202fb..220a324 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,11 +182,21 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
-    total_energy = numpy.array(energy, ndmin=1) + mass*c**2
+    energy = numpy.array(energy, ndmin=1)
+    mass = _by_species(mass, energy.ndim)
+    charge = _by_species(charge, energy.ndim)
+    total_energy = energy + mass*c**2
     rest_energy = mass*c**2
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
     return p / charge
 
+def _by_species(a, ndim: int):
+    """Align an array of values for each species with an energy-like array."""
+    missing = ndim - numpy.ndim(a)
+    if numpy.ndim(a) and missing > 0:
+        return numpy.reshape(a, numpy.shape(a) + (1,) * missing)
+    return a
+
 
 @registry.register
 def mean_free_path(
@@ -203,7 +213,7 @@ def mean_free_path(
     rg0 = rigidity(1e6 * float(MKS['eV']), mass, charge)
     mfp = numpy.tensordot(
         pow(r / float(MKS['au']), mfp_radial_power),
-        pow(rg / rg0, rigidity_power),
+        pow(rg / _by_species(rg0, rg.ndim), rigidity_power),
         axes=0,
     )
     return mfp * lambda0
-- 
2.43.0


From d4f688d9a9935d5038645459793322cab031fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 075/118] fix: read config-file lines with extra whitespace or
 equals signs

---
 src/goats/eprem/runtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..8d9ebfb 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,12 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = line.strip()
+                if line == '' or line[0] in self.comments:
                     continue
-                key, _tmp = line.split('=')
+                key, _tmp = line.split('=', maxsplit=1)
                 value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                pairs[key.strip()] = value
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 728a558fdbfdbf3a82bb133ce0db4315ce24ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 076/118] fix: evaluate parameters that are equal to zero

---
 src/goats/eprem/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 8d9ebfb..3253a3e 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -683,7 +683,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -900,7 +901,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
-- 
2.43.0


From d35db693cbb39a89e52f8c6a882d4853e63a7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 077/118] fix: compute sums of any number of parameters,
 including zero sums

---
 src/goats/eprem/runtime.py | 68 ++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 3253a3e..6876abc 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -383,6 +383,32 @@ def soft_convert(
     return value
 
 
+def split_sum(string: str) -> typing.List[typing.Tuple[int, str]]:
+    """Split a string into the signs and text of its additive terms.
+
+    This function ignores signs inside parentheses, leading signs, signs that
+    follow another operator, and signs in the exponent of a number.
+    """
+    signs = {'+': 1, '-': -1}
+    parts = [(1, '')]
+    depth = 0
+    for c in string:
+        sign, text = parts[-1]
+        previous = text.rstrip()
+        depth += (c == '(') - (c == ')')
+        if (
+            c in signs
+            and depth == 0
+            and previous
+            and previous[-1] not in '+-*/^('
+            and not re.search(r'(?<![\w.])(\d+\.?\d*|\.\d+)[eE]\Z', text)
+        ):
+            parts.append((signs[c], ''))
+        else:
+            parts[-1] = (sign, text + c)
+    return [(sign, text.strip()) for sign, text in parts]
+
+
 class ConfigurationC(SourceFile):
     """A representation of default arguments in EPREM `configuration.c`."""
 
@@ -704,7 +730,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
@@ -716,21 +743,17 @@ class Runtime(iterables.MappingBase):
         raise TypeError(f"Can't resolve {definition!r}") from None
 
     def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
+        """Compute the sum of known parameters, if there is one.
         
         Notes
         -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
+        This is only designed to handle strings that contain additive operators
+        joining arguments that `_evaluate` already knows how to handle.
         """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        terms = split_sum(arg)
+        if len(terms) > 1:
+            values = [self._evaluate(term) for _, term in terms]
+            return sum(sign * value for (sign, _), value in zip(terms, values))
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
@@ -922,7 +945,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Split a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
@@ -934,21 +958,17 @@ class Interface(aliased.Mapping[str, _VT]):
         raise TypeError(f"Can't decompose {definition!r}") from None
 
     def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
+        """Compute the sum of known parameters, if there is one.
         
         Notes
         -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
+        This is only designed to handle strings that contain additive operators
+        joining arguments that `_evaluate` already knows how to handle.
         """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        terms = split_sum(arg)
+        if len(terms) > 1:
+            values = [self._evaluate(term) for _, term in terms]
+            return sum(sign * value for (sign, _), value in zip(terms, values))
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
-- 
2.43.0


From 2145e401aee27cbb0d050f14a728a1a76a251580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 078/118] fix: use config-file options when evaluating
 parameters

---
 src/goats/eprem/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 6876abc..a3b7855 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -869,7 +869,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
-- 
2.43.0


From e74309a8e498152ae29b2b6609abb4dd7aa45ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:38 +0000
Subject: [PATCH 079/118] fix: raise an error for unknown names in constant
 definitions

---
 src/goats/eprem/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index a3b7855..d81f0d3 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -222,6 +222,8 @@ class BaseTypesH(SourceFile):
                 value *= float(term(self._compute(term.base)))
             elif term.base == '1':
                 value *= float(term)
+            else:
+                raise KeyError(f"Unknown constant {term.base!r}") from None
         return value
 
 
-- 
2.43.0


From 64e535bf141f45bcdfbb98a8d30d8e71d9fba87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 080/118] fix: get config-file values by alias

---
 src/goats/eprem/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index d81f0d3..ca8e82a 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -900,7 +900,10 @@ class Interface(aliased.Mapping[str, _VT]):
 
     def config(self, __k: str, default: _T=None) -> operational.Argument:
         """Get a value from the user config file, if possible."""
-        return self.get(__k, default=default) if __k in self.user else default
+        names = self.alias(__k, include=True) if __k in self else (__k,)
+        if any(name in self.user for name in names):
+            return self.get(__k, default=default)
+        return default
 
     @property
     def basetypes(self):
-- 
2.43.0


From e827d826b66fed261bbdf2d1714f9c112d2aade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 081/118] fix: use the config-file name of each parameter

---
 src/goats/eprem/runtime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index ca8e82a..08ec47b 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -434,7 +434,7 @@ class ConfigurationC(SourceFile):
         arrays = self._get_array_defaults(file)
         subs = {
             key: {
-                'mode': assigned['mode'],
+                **assigned,
                 'default': arrays[assigned['default']]['value']
             } for key, assigned in assignments.items()
             if assigned['default'] in arrays
@@ -762,7 +762,9 @@ class Runtime(iterables.MappingBase):
         if self._current is None:
             self._current = {
                 key: self._convert(
-                    self.user.get(key) or parameter['default'],
+                    self.user.get(parameter.get('alias', key))
+                    or self.user.get(key)
+                    or parameter['default'],
                     parameter['type'],
                 )
                 for key, parameter in self.reference.items()
@@ -980,7 +982,9 @@ class Interface(aliased.Mapping[str, _VT]):
         if self._current is None:
             self._current = {
                 key: self._convert(
-                    self.user.get(key) or parameter['default'],
+                    self.user.get(parameter.get('alias', key))
+                    or self.user.get(key)
+                    or parameter['default'],
                     parameter['type'],
                 )
                 for key, parameter in self.reference.items()
-- 
2.43.0


From 501834727d869419d50f7a4f063ad73bf0907761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 082/118] fix: round charges to the nearest unit

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index a4ad0c2..64afeaa 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -293,7 +293,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(i)) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From f78fcac28db9c4c371b43134798e1876b11ebc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 083/118] fix: convert, compare and display observed quantities

---
 src/goats/core/observed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/observed.py b/src/goats/core/observed.py
index 8e334d6..8e1bade 100644
--- a/src/goats/core/observed.py
+++ b/src/goats/core/observed.py
@@ -19,7 +19,7 @@ class Quantity(iterables.ReprStrMixin):
     ) -> None:
         self._data = __data
         self._indices = indices
-        self._assumptions = assumptions
+        self._assumptions = assumptions or {}
         self._array = None
         self._parameters = None
 
@@ -71,14 +71,14 @@ class Quantity(iterables.ReprStrMixin):
             return self._indices[__x]
         if __x in self._assumptions:
             return self._assumptions[__x]
-        return type(self)(self.data, self._indices, self._assumptions)
+        return type(self)(self.data[__x], self._indices, self._assumptions)
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
         if isinstance(__o, Quantity):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('_data', '_indices', '_assumptions')
             )
         return NotImplemented
 
@@ -86,8 +86,8 @@ class Quantity(iterables.ReprStrMixin):
         """A simplified representation of this object."""
         attrs = [
             f"unit='{self.data.unit}'",
-            f"dimensions={self.data.axes}",
+            f"dimensions={self.data.dimensions}",
             f"parameters={self.parameters}",
         ]
-        return f"'{self.data.name}': {', '.join(attrs)}"
+        return ', '.join(attrs)
 
-- 
2.43.0


From 95b0def28258410889fe6e7c09c42510be0a9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 084/118] fix: apply an observing constraint given by any alias

---
 src/goats/core/observing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index b35d8da..a797243 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -270,6 +270,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
             The default constant observing constraints.
         """
         self._mappings = mappings
+        self._fixed = constraints
         self._default = dict(constraints or {})
         """Internal mapping of fixed default constraints.
         
@@ -322,16 +323,28 @@ class Context(collections.abc.Collection, typing.Generic[T]):
           new set of user constraints upon the next call to the `constraints`
           property.
         """
+        named = {
+            alias: value
+            for name, value in new.items()
+            for alias in self._get_aliases(name)
+        }
         if append:
-            self._user.update(new)
+            self._user.update(named)
         else:
-            self._user = dict(new)
+            self._user = named
         self._constraints = None
         self._available = None
         self._keys = None
         self._cache = {}
         return self
 
+    def _get_aliases(self, name: str):
+        """Get all equivalent names of a physical quantity."""
+        for mapping in (*self._mappings, self._fixed):
+            if isinstance(mapping, aliased.Mapping) and name in mapping:
+                return mapping.alias(name, include=True)
+        return reference.ALIASES.find(name, [name])
+
     def __contains__(self, __x: str) -> bool:
         """True if `__x` is an available physical quantity."""
         return __x in self.keys
-- 
2.43.0


From aae78be5470f4ee2a02b514d617bff91bb70224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:35 +0000
Subject: [PATCH 085/118] fix: interpolate to energies that are not exact for
 every species

---
 src/goats/eprem/__init__.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index b858914..84173cd 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -465,11 +465,7 @@ class Context(observing.Context):
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
             if idx and idx.unit is not None:
-                contained = [
-                    self.coordinates[dimension].array_contains(target)
-                    for target in idx.values
-                ]
-                if not numpy.all(contained):
+                if not self._on_grid(dimension, idx):
                     coordinates[dimension] = {
                         'targets': numpy.array(idx.values),
                         'reference': self.coordinates[dimension],
@@ -501,6 +497,23 @@ class Context(observing.Context):
         # precede interpolation over time.
         return {**radial, **interpolants}
 
+    def _on_grid(self, dimension: str, idx: index.Quantity) -> bool:
+        """True if the index values are exact values of this coordinate."""
+        coordinate = self.coordinates[dimension]
+        if coordinate.ndim == 1:
+            return all(coordinate.array_contains(v) for v in idx.values)
+        # The values of this coordinate vary along another axis. If the user
+        # requested values, they must be exact everywhere along that axis.
+        this = self.constraints.get(dimension)
+        if this is None or isinstance(this, index.Quantity) or all(
+            isinstance(i, (typing.SupportsIndex, slice, range))
+            for i in iterables.whole(this)
+        ): return True
+        return all(
+            numpy.allclose(numpy.array(coordinate)[..., i], v, atol=0.0)
+            for i, v in zip(idx, idx.values)
+        )
+
     def interpolate(
         self,
         q: variable.Quantity,
-- 
2.43.0


From 4d7bba8f514a2205b186c5a62dfc3689c03b4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 086/118] fix: do not subscript a quantity interpolated over
 all its axes

---
 src/goats/eprem/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 84173cd..77c4459 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -537,6 +537,8 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
+        if not dimensions:
+            return base
         return self._subscript(base, *dimensions)
 
     def _interpolate_coordinate(
-- 
2.43.0


From d7cf967ef622bedc5a1bdb8e5ecfe9cf32643ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:06 +0000
Subject: [PATCH 087/118] fix: keep the energy axis of data with a single
 energy

---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 77c4459..e2b2563 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -194,11 +194,14 @@ class Axes(aliased.Mapping):
             ) -> index.Data:
                 s = self.species.compute([species]).points
                 t = (
-                    numpy.squeeze(targets[s, :])
+                    numpy.squeeze(targets[s, :], axis=0)
                     if getattr(targets, 'ndim', None) == 2
                     else targets
                 )
-                array = numpy.squeeze(this[s, :]) if this.ndim == 2 else this
+                array = (
+                    numpy.squeeze(this[s, :], axis=0)
+                    if this.ndim == 2 else this
+                )
                 compute = self._build_coordinate(array)
                 return compute(t, unit)
             size = this.shape[this.ndim-1]
-- 
2.43.0


From 8a5e081a11eead671e3daec6a6d31113789c7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:44 +0000
Subject: [PATCH 088/118] fix: list only constant parameters as the assumptions
 of an observation

---
 src/goats/eprem/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index e2b2563..8c46e00 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -439,6 +439,7 @@ class Context(observing.Context):
             parameters = [
                 parameter for parameter in quantity.parameters
                 if parameter in self.parameters
+                and parameter not in self.variables
             ]
             return observing.Quantity(data, parameters=parameters)
         if isinstance(quantity, variable.Quantity):
-- 
2.43.0


From c1d9ca9f8ca62643f3efc7de9b36d34a6fb58f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:44 +0000
Subject: [PATCH 089/118] fix: keep the unit when measuring an operational
 argument

---
 src/goats/core/operational.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..829990d 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -213,6 +214,12 @@ class Argument:
         """The unit of `data`, if any."""
         return self._unit
 
+    def __measure__(self):
+        """Create a measurement of this argument's value(s) and unit."""
+        if self.unit:
+            return measurable.Measurement(tuple(self), self.unit)
+        return measurable.measure(self.data)
+
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-- 
2.43.0


From 0545815840035790993d2b616ad5c2c79774cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 090/118] fix: give constants units that convert between
 systems

---
 src/goats/core/fundamental.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index 64afeaa..b25ed69 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -39,7 +39,7 @@ _constants = {
     },
     'G': {
         'info': "Gravitational constant.",
-        'mks': {'unit': 'm^3 / (s^2 * kg)', 'value': 6.6726e-11},
+        'mks': {'unit': 'N * m^2 / kg^2', 'value': 6.6726e-11},
         'cgs': {'unit': 'dyn * cm^2 / g^2', 'value': 6.6726e-8},
         'quantity': 'force * area / mass^2',
     },
@@ -99,7 +99,7 @@ _constants = {
     },
     'c1': {
         'info': "First radiation constant.",
-        'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
+        'mks': {'unit': 'J * m^2 / s', 'value': 3.7418e-16},
         'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
@@ -111,7 +111,7 @@ _constants = {
     },
     'sigma': {
         'info': "Stefan-Boltzmann constant.",
-        'mks': {'unit': 'W / (m^2 * K^4)', 'value': 5.6705e-8},
+        'mks': {'unit': '(J / s) / (m^2 * K^4)', 'value': 5.6705e-8},
         'cgs': {'unit': '(erg / s) / (cm^2 * K^4)', 'value': 5.6705e-5},
         'quantity': 'power / (area * temperature^4)',
     },
-- 
2.43.0


From 7b5da00661099d1c4c45ae3f56aaa49fedc6ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 091/118] fix: reject measurable forms that would lose or
 relabel values

Measuring mixed forms like [1.1, [2.2, 3.3]] or [[1.1, 2.2], [3.3, 4.4],
'm'] silently dropped values, a misplaced unit was dropped, and a unit given
beside an existing quantity relabelled the quantity. An iterable of
measurable objects, which is documented as measurable, raised a TypeError.
---
 src/goats/core/measurable.py | 37 ++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index f3b989d..8a8fb6f 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -360,8 +360,17 @@ def parse_measurable(args, distribute: bool=False):
     # Strip redundant lists and tuples.
     unwrapped = iterables.unwrap(args)
 
-    # Raise an error for null input.
-    if iterables.missing(unwrapped):
+    # Store the values of an exhaustible iterable.
+    if isinstance(unwrapped, typing.Iterator):
+        unwrapped = tuple(unwrapped)
+
+    # Handle an object that supports direct measurement.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return _wrap_measurable(measured.data, str(measured.unit), distribute)
+
+    # Raise an error for null input or an isolated unit.
+    if isinstance(unwrapped, str) or iterables.missing(unwrapped):
         raise Unmeasurable(unwrapped) from None
 
     # Handle a single numerical value:
@@ -387,19 +396,31 @@ def parse_measurable(args, distribute: bool=False):
         return _wrap_measurable(unwrapped, '1', distribute)
 
     # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
+    if all(isinstance(arg, (iterables.whole, _Formal)) for arg in unwrapped):
         return _callback_parse(unwrapped, distribute)
 
+    # Raise an error for values that do not precede a unit.
+    values, last = unwrapped[:-1], unwrapped[-1]
+    if not isinstance(last, (str, metadata.Unit)):
+        raise MeasuringTypeError(f"Can't measure {unwrapped!r}") from None
+
     # Ensure an explicit unit-like object
     unit = ensure_unit(unwrapped)
 
-    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
-    if all(isinstance(arg, numbers.Number) for arg in unwrapped[:-1]):
-        return _wrap_measurable(unwrapped[:-1], unit, distribute)
+    # Raise an error for a unit in addition to that of an existing quantity.
+    if any(isinstance(arg, _Formal) for arg in values):
+        raise MeasuringTypeError(f"Can't measure {unwrapped!r}") from None
 
     # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
+    if len(values) == 1 and isinstance(values[0], iterables.whole):
+        values = tuple(values[0])
+
+    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
+    if values and all(isinstance(arg, numbers.Number) for arg in values):
+        return _wrap_measurable(values, unit, distribute)
+
+    # Raise an error for values that are not numbers.
+    raise MeasuringTypeError(f"Can't measure {unwrapped!r}") from None
 
 
 def _wrap_measurable(values, unit, distribute: bool):
-- 
2.43.0


From 39e428bd90d9b1d9d08d1ebc5e51f1a92f074684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 092/118] fix: compare and test arguments with multiple values

The truth of a multi-valued argument and the equality of two multi-valued
arguments raised a ValueError, and whether a physical argument was equal to a
non-physical argument depended on their order.
---
 src/goats/core/operational.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 829990d..6a9e662 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -128,7 +128,7 @@ class Argument:
           of that string after stripping leading and trailing whitespace. This
           design choice is intended to treat strings that contain only
           whitespace as the empty string.
-        - Otherwise, the truth of this object is equal to the truth of `data`.
+        - Otherwise, this object is true if `data` contains any values.
         """
         if isinstance(self.data, numbers.Real):
             if isinstance(self.data, bool):
@@ -137,7 +137,7 @@ class Argument:
             return True
         if isinstance(self.data, str):
             return bool(self.data.strip())
-        return bool(self.data)
+        return bool(len(self.data))
 
     def __float__(self):
         """Represent a single-valued physical argument as a `float`."""
@@ -223,10 +223,10 @@ class Argument:
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-            same_data = other.data == self.data
-            if self.unit:
-                return same_data and other.unit == self.unit
-            return same_data
+            return (
+                other.unit == self.unit
+                and numpy.array_equal(other.data, self.data)
+            )
         return other == self.data
 
     def __repr__(self) -> str:
-- 
2.43.0


From 175d9e66a3f15e52c56ac72225add0cbe6b2a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 093/118] fix: cast and subscript single-valued arguments

A single-valued physical argument has a length of 1 but raised an IndexError
for its only index, and a numeric string of more than one digit was taken for
a sequence of its digits.
---
 src/goats/core/operational.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 6a9e662..c3ff83b 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -154,15 +154,13 @@ class Argument:
     def _cast_to(self, __type: typing.Type[T]) -> T:
         """Internal method for casting to numeric type."""
         try:
-            nv = len(self.data)
+            nv = len(self._data)
         except TypeError:
             nv = 0
         if nv > 1:
             errmsg = f"Can't convert data with {nv} values to {__type}"
             raise NumericCastError(errmsg) from None
-        if nv == 1:
-            return __type(self.data[0])
-        try: # nv == 0
+        try: # nv == 0 or nv == 1
             return __type(self.data)
         except ValueError as err:
             raise ValueError(f"Can't convert {self!r} to {__type}.") from err
@@ -185,7 +183,7 @@ class Argument:
         """Called for index-based value access."""
         if isinstance(index, typing.SupportsIndex) and index < 0:
             index += len(self)
-        data = self.data[index]
+        data = tuple(self)[index]
         try:
             iter(data)
         except TypeError:
-- 
2.43.0


From aac3cf5d9d6c9554760dbebfbb0b886b1354cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:18 +0000
Subject: [PATCH 094/118] fix: measure iterable values with a unit object

A unit object is iterable, so `measure([1.1, 2.2], Unit('m'))` tried to
measure the unit.
---
 src/goats/core/measurable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 8a8fb6f..002647a 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -396,7 +396,9 @@ def parse_measurable(args, distribute: bool=False):
         return _wrap_measurable(unwrapped, '1', distribute)
 
     # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, (iterables.whole, _Formal)) for arg in unwrapped):
+    if not n_units and all(
+        isinstance(arg, (iterables.whole, _Formal)) for arg in unwrapped
+    ):
         return _callback_parse(unwrapped, distribute)
 
     # Raise an error for values that do not precede a unit.
-- 
2.43.0


From 0f724b435667322a915ceb57e43c022b68b3e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:18 +0000
Subject: [PATCH 095/118] fix: reject out-of-range negative indices of measured
 values

Adding the length to a negative index made an index below -len(self) count
from the end a second time instead of raising an IndexError.
---
 src/goats/core/measurable.py  | 2 --
 src/goats/core/operational.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 002647a..40e2ba8 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index c3ff83b..3217df4 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -181,8 +181,6 @@ class Argument:
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         data = tuple(self)[index]
         try:
             iter(data)
-- 
2.43.0


From eb8795e46aa90990242ab1501a83044d21160ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:46 +0000
Subject: [PATCH 096/118] fix: reject out-of-range negative indices of vectors
 and expressions

As for measurements, an index below -len(self) counted from the end a second
time instead of raising an IndexError.
---
 src/goats/core/physical.py | 2 --
 src/goats/core/symbolic.py | 7 +------
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 42add8c..da57a52 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -183,8 +183,6 @@ class Vector(Quantity):
         """Called for index-based value access."""
         if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 2605c1a..0f338e6 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1477,12 +1477,7 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
     def __getitem__(self, index):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
-            idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
-            return self.terms[idx]
+            return self.terms[int(index)]
         return self.terms[index]
 
     def __str__(self) -> str:
-- 
2.43.0


From 89c3a4c7e0007fb16b884ba57e15cdd84ebe2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:35 +0000
Subject: [PATCH 097/118] fix: evaluate products of struct members and signed
 parameters

A product that involved a struct member, like '0.5 * config.rScale', and a
negated parameter could not be resolved; a product of numbers was a Fraction.
---
 src/goats/eprem/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 08ec47b..280f982 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -735,13 +735,15 @@ class Runtime(iterables.MappingBase):
         result = self._compute_sum(definition)
         if result is not None:
             return result
+        if definition.startswith('-'):
+            return -self._evaluate(definition[1:].strip())
         if any(c in definition for c in {'*', '/'}):
-            expression = symbolic.Expression(definition)
+            expression = symbolic.Expression(definition.replace('config.', ''))
             evaluated = [
                 term.coefficient * self._evaluate(term.base)**term.exponent
                 for term in expression
             ]
-            return functools.reduce(lambda x,y: x*y, evaluated)
+            return float(functools.reduce(lambda x,y: x*y, evaluated))
         raise TypeError(f"Can't resolve {definition!r}") from None
 
     def _compute_sum(self, arg: str) -> numbers.Real:
-- 
2.43.0


From 9db164c9bc0a96c6faf6b80a8d93922a94384d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 098/118] fix: read source-code lines with comments or extra
 whitespace

A parameter whose line in configuration.c had a trailing comment, or spaces
inside the function call or before the semicolon, was silently missing, and a
comment after the value of a constant became part of the value.
---
 src/goats/eprem/runtime.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 280f982..5ecc200 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -82,7 +82,9 @@ class BaseTypeDef:
             # at least one whitespace character
             \s+
             # the defined value
-            (?P<value>[-+\.\*\/\d\w\s\(\)]+)
+            (?P<value>(?:(?!\/[\/\*])[-+\.\*\/\d\w\s\(\)])+)
+            # an optional comment
+            (?:\/\/.*|\/\*.*\*\/)?
             # the end of the string (no trailing whitespace)
             \Z
         """, re.VERBOSE)
@@ -94,7 +96,7 @@ class BaseTypeDef:
 
     def parse(self, parsable: typing.Dict[str, str]):
         """Parse a line that defines a runtime constant."""
-        return parsable['name'], parsable['value']
+        return parsable['name'], parsable['value'].strip()
 
 
 class SourceFile(iterables.MappingBase):
@@ -253,7 +255,7 @@ class FunctionCall:
             # the name of the file-reading method
             (?P<mode>read(?:Int|Double|DoubleArray|String))
             # beginning of function call
-            \(
+            \(\s*
                 # parameter name in config file
                 (?P<alias>\"\w*\")
                 # optional whitespace followed by a comma
@@ -262,10 +264,12 @@ class FunctionCall:
                 (?P<args>.*?)
             # end of function call
             \)
-            # C statement terminator
-            \;
-            # optional whitespace, followed by the end of the string
-            \s*\Z
+            # C statement terminator, after optional whitespace
+            \s*\;
+            # optional whitespace and an optional comment
+            \s*(?:\/\/.*|\/\*.*\*\/)?
+            # the end of the string
+            \Z
         """, re.VERBOSE)
 
     def match(self, line: str):
@@ -325,10 +329,12 @@ class VariableDefinition:
             \s*=\s*
             # array value(s)
             \{(?P<value>\d*(?:\.\d+)?)\}
-            # C statement terminator
-            \;
-            # optional whitespace, followed by the end of the string
-            \s*\Z
+            # C statement terminator, after optional whitespace
+            \s*\;
+            # optional whitespace and an optional comment
+            \s*(?:\/\/.*|\/\*.*\*\/)?
+            # the end of the string
+            \Z
         """, re.VERBOSE)
 
     def match(self, line: str):
-- 
2.43.0


From 83cd42a8b1cdba7177eb514447eebe3d64f698e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 099/118] fix: keep all values of array and string defaults

The default of a string parameter ended at the first comma, and an array with
more than one value (or a signed value) was not recognized.
---
 src/goats/eprem/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 5ecc200..212c077 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -286,7 +286,7 @@ class FunctionCall:
             if a != name:
                 parsed['alias'] = a
         mode = parsable['mode']
-        args = parsable['args'].split(',')
+        args = parsable['args'].split(',', maxsplit=len(self._keys[mode])-1)
         parsed.update(self._normalize(mode, args))
         return name, parsed
 
@@ -328,7 +328,7 @@ class VariableDefinition:
             # equals sign surrounded by optional whitespace
             \s*=\s*
             # array value(s)
-            \{(?P<value>\d*(?:\.\d+)?)\}
+            \{(?P<value>[^{}]*)\}
             # C statement terminator, after optional whitespace
             \s*\;
             # optional whitespace and an optional comment
-- 
2.43.0


From 2876d25dce7f8268717ae22eb2b912ad0d133250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 100/118] fix: update the names of runtime parameters with the
 source path

After setting a new source path, iterating over the parameters still gave the
names from the previous source.
---
 src/goats/eprem/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 212c077..57fc6ee 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -683,6 +683,7 @@ class Runtime(iterables.MappingBase):
         if 'source' in paths:
             self._basetypes = None
             self._reference = None
+            super().__init__(tuple(self.reference))
 
     @property
     def basetypes(self):
-- 
2.43.0


From 75050ec0411c3c81cd321e84c80b3bc37a601f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:59 +0000
Subject: [PATCH 101/118] fix: reject sums and differences in symbolic
 expressions

The parser read the signed number after an operand as another factor, so that
'a - 2' became an error but 'a-2' became '-2 a' and 'cm s-1' became '-1 cm s'.
---
 src/goats/core/symbolic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 0f338e6..826d07f 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1216,6 +1216,11 @@ class Parser:
         previous = current.copy()
         while current.string:
             current = self._get_operator(initial, current, previous)
+            if (
+                operands and not current.operator
+                and re.match(r'\s*[-+]', current.string)
+            ):
+                raise ParsingValueError("Can't parse sum or difference")
             current = self._get_operand(initial, current)
             if new := self._compute_operand(current):
                 operands.append(new)
-- 
2.43.0


From 8c0fd54458269cd68a34acfc3f8c0f6e66e349b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:35 +0000
Subject: [PATCH 102/118] fix: operate on quantities with numpy scalars on the
 left

---
 src/goats/core/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index b2a4877..460b562 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -165,7 +165,12 @@ class Operator(iterables.ReprStrMixin):
 
     def __call__(self, name: str, operands: Operands, **kwargs):
         """Apply this operator's method to the given operands."""
-        values = operands.getall(name, mode='force')
+        values = [
+            # NOTE: An operation on a metadata attribute with a `numpy` scalar
+            # on its left would pass control to `numpy`.
+            value.item() if isinstance(value, numpy.generic) else value
+            for value in operands.getall(name, mode='force')
+        ]
         try:
             return self.method(*values, **kwargs)
         except TypeError as err:
-- 
2.43.0


From b3ca75b080bd6efcc5a7b7d9a06b029ea8328d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 103/118] fix: update metadata of squares, cube roots, and
 reciprocals

---
 src/goats/core/metadata.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 460b562..d0d3aa4 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -557,6 +557,18 @@ class Unit(metric.Unit, Attribute):
         """Implement the square-root function for a unit."""
         return arg**0.5
 
+    def _ufunc_cbrt(self, arg):
+        """Implement the cube-root function for a unit."""
+        return arg**fractions.Fraction(1, 3)
+
+    def _ufunc_square(self, arg):
+        """Implement the square function for a unit."""
+        return arg**2
+
+    def _ufunc_reciprocal(self, arg):
+        """Implement the reciprocal function for a unit."""
+        return arg**-1
+
     def __mul__(self, other):
         """Called for self * other."""
         if isinstance(other, UnitLike):
@@ -632,6 +644,18 @@ class Name(collections.abc.Collection, Attribute):
         """Implement the square-root function for a name."""
         return arg**'1/2'
 
+    def _ufunc_cbrt(self, arg):
+        """Implement the cube-root function for a name."""
+        return arg**'1/3'
+
+    def _ufunc_square(self, arg):
+        """Implement the square function for a name."""
+        return arg**2
+
+    def _ufunc_reciprocal(self, arg):
+        """Implement the reciprocal function for a name."""
+        return arg**-1
+
     def _implement(symbol: str, reverse: bool=False, strict: bool=False):
         """Implement a symbolic operation.
 
-- 
2.43.0


From f7bde2a16223a02a7a7cee75a0d99c3c21bb3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:27 +0000
Subject: [PATCH 104/118] fix: preserve the meaning of operands in symbolic
 names

---
 src/goats/core/metadata.py | 75 +++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index d0d3aa4..ede22f7 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -629,6 +629,45 @@ class Unit(metric.Unit, Attribute):
         ) from None
 
 
+def _binding(name: str):
+    """The lowest precedence of an operator in a symbolic name.
+
+    Notes
+    -----
+    * This function only considers operators in the form that `~Name` writes
+      them, outside of parentheses.
+    """
+    outer, depth = '', 0
+    for c in name:
+        depth -= c == ')'
+        outer += '.' if depth > 0 else c
+        depth += c == '('
+    if ' + ' in outer or ' - ' in outer:
+        return 1
+    if ' * ' in outer or ' / ' in outer:
+        return 2
+    if outer[:1] in ('+', '-'):
+        return 3
+    if '^' in outer:
+        return 4
+    return 5
+
+
+def _enclose(name: str, minimum: int):
+    """Put parentheses around `name` if it binds less tightly than `minimum`."""
+    return f'({name})' if _binding(name) < minimum else name
+
+
+_PRECEDENCE = {
+    ' + ': (1, 1),
+    ' - ': (1, 2),
+    ' * ': (2, 2),
+    ' / ': (2, 4),
+    '^': (5, 5),
+}
+"""The precedence that each operator requires of its left and right operands."""
+
+
 class Name(collections.abc.Collection, Attribute):
     """The name attribute of a quantity."""
 
@@ -688,19 +727,35 @@ class Name(collections.abc.Collection, Attribute):
         * 'a | A' + 'b | B' -> 'a+b | a+B | A+b | A+B'
         * 'a | A' * 'b | B' -> 'a*b | a*B | A*b | A*B'
         * 'a | A' * 2 -> 'a*2 | A*2'
+        * Symbolic operands have parentheses where necessary to preserve their
+          meaning (e.g., 'a + b' * 'c' -> '(a + b) * c').
         """
+        left, right = _PRECEDENCE[symbol]
+        def join(i, j):
+            """Symbolically combine two strings."""
+            return f'{_enclose(i, left)}{symbol}{_enclose(j, right)}'
         def compute(a, b):
             """Symbolically combine `a` and `b`."""
             x, y = (b, a) if reverse else (a, b)
-            if isinstance(y, typing.Iterable) and not isinstance(y, str):
-                return Name([f'{i}{symbol}{j}' for i in x for j in y])
+            others = [y] if isinstance(y, str) else y
             try:
-                fixed = fractions.Fraction(y)
-            except ValueError:
-                fixed = y
-            t = '{1}{s}{0}' if reverse else '{0}{s}{1}'
-            return Name([t.format(i, fixed, s=symbol) for i in x])
+                fixed = str(fractions.Fraction(y))
+            except (OverflowError, TypeError, ValueError):
+                if isinstance(y, numbers.Real):
+                    others = [str(y)]
+                pairs = [(j, i) if reverse else (i, j) for i in x for j in others]
+                return Name([join(*pair) for pair in pairs])
+            if reverse:
+                base = f'({fixed})' if symbol == '^' and '/' in fixed else fixed
+                return Name([f'{base}{symbol}{_enclose(i, right)}' for i in x])
+            term = f'({fixed})' if symbol == ' / ' and '/' in fixed else fixed
+            return Name([f'{_enclose(i, left)}{symbol}{term}' for i in x])
         def operator(self, that):
+            if isinstance(that, numpy.ndarray):
+                return Name([''])
+            if isinstance(that, typing.Iterable):
+                if not all(isinstance(i, str) for i in that):
+                    return Name([''])
             if not self or not that:
                 return Name([''])
             if strict:
@@ -712,7 +767,7 @@ class Name(collections.abc.Collection, Attribute):
                 if that == self:
                     return self
             if that == self:
-                return Name([f'{i}{symbol}{i}' for i in self])
+                return Name([join(i, i) for i in self])
             if str(that) == '1':
                 return Name([str(i) for i in self])
             return compute(that, self) if reverse else compute(self, that)
@@ -735,13 +790,13 @@ class Name(collections.abc.Collection, Attribute):
         """Called for +self."""
         if not self:
             return Name()
-        return Name([f"+{i}" for i in self])
+        return Name([f"+{_enclose(i, 2)}" for i in self])
 
     def __neg__(self):
         """Called for -self."""
         if not self:
             return Name()
-        return Name([f"-{i}" for i in self])
+        return Name([f"-{_enclose(i, 2)}" for i in self])
 
     def __abs__(self):
         """Called for abs(self)."""
-- 
2.43.0


From ffcb629012e31a12de7567d0c51b03e5b7f28ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:37 +0000
Subject: [PATCH 105/118] fix: replace an empty name when adding aliases

---
 src/goats/core/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index ede22f7..9729232 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -984,7 +984,8 @@ class NameMixin:
 
     def alias(self, *updates: str, reset: bool=False):
         """Set or add to this object's name(s)."""
-        aliases = updates if reset else self.name.add(updates)
+        name = self.name
+        aliases = updates if reset or not name else name.add(updates)
         self._name = Name(*aliases)
         return self
 
-- 
2.43.0


From 8ad34766ef30cf958b0d7e61ca43a3e1bea807fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:23 +0000
Subject: [PATCH 106/118] fix: align the axes of observed and variable
 quantities in products

---
 src/goats/core/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index e410b4e..f7756d4 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -619,9 +619,10 @@ class Quantity(Array):
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input arrays into arrays appropriate to `ufunc`."""
         multiplicative = ufunc.__name__ in {'multiply', 'divide', 'true_divide'}
-        correct_type = all(isinstance(v, type(self)) for v in inputs)
+        correct_type = all(isinstance(v, Quantity) for v in inputs)
         if multiplicative and correct_type:
-            dims = self.dimensions.merge(*[v.dimensions for v in inputs])
+            first, *others = [v.dimensions for v in inputs]
+            dims = first.merge(*others)
             arrays = []
             for v in inputs:
                 order = [v.dimensions.index(d) for d in dims if d in v.shape_dict]
-- 
2.43.0


From 69aa5db04f703dd13a532573ee9ebfd2c9baa3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:25 +0000
Subject: [PATCH 107/118] fix: keep an observer's metric system when its
 sources are updated

---
 src/goats/eprem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 8c46e00..54b6d0e 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -727,8 +727,8 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             self._datapath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
-            variables = Variables(dataset, system=system or 'mks')
-            axes = Axes(dataset, system=system or 'mks')
+            variables = Variables(dataset, system=system or self._system)
+            axes = Axes(dataset, system=system or self._system)
             constants = runtime.Interface(self.confpath)
             return Context(variables, axes, constants)
 
-- 
2.43.0


From e95a7fa6a0f522b3b91304e018444c706646ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:36 +0000
Subject: [PATCH 108/118] fix: associate common dimensions with all metric
 systems

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cf8524c..a86c51e 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2482,8 +2482,8 @@ class Dimensions(typing.Mapping, iterables.ReprStrMixin):
         **systems
     ) -> typing.Dict[str, typing.Optional[Dimension]]:
         """Create dimension objects from arguments."""
-        created = dict.fromkeys(SYSTEMS)
         default = Dimension(common) if common else None
+        created = dict.fromkeys(SYSTEMS, default)
         updates = {
             system: Dimension(expressable) if expressable else default
             for system, expressable in systems.items()
-- 
2.43.0


From 6c49a93ee25f309bd39f2d5bca277f32bd7fbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:49 +0000
Subject: [PATCH 109/118] fix: compare configuration files from any working
 directory

The files were looked up relative to their common ancestor instead of by
their own paths, and the given source directory did not provide the default
values that the documentation promises.
---
 src/goats/eprem/runtime.py | 53 +++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 57fc6ee..3d44d41 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -46,7 +46,6 @@ respect the formal distinction between parameters and arguments.
 
 import abc
 import argparse
-import contextlib
 import functools
 import numbers
 import os
@@ -1623,21 +1622,23 @@ def _build_arg_dict(
     mode: str=None,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = Interface()
-    paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
-    keys = sorted(ConfigurationC(source))
+    default = Runtime(source)
+    targets = {
+        name: Runtime(source, path)
+        for name, path in _get_relative_paths(files).items()
+    }
+    keys = sorted(default)
     built = {key: {} for key in keys}
     for key in keys:
         current = {
-            name: _format_arg(interface.config(key))
-            for name, interface in targets.items()
+            name: _format_arg(key, runtime) if _is_given(key, runtime) else None
+            for name, runtime in targets.items()
         }
         values = list(current.values())
         v0 = values[0]
         if mode == 'show' or any(vi != v0 for vi in values):
             built[key] = {
-                'default': _format_arg(default[key]),
+                'default': _format_arg(key, default),
                 **current,
             }
     if mode == 'show':
@@ -1646,22 +1647,26 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
-
-
-def _format_arg(arg: operational.Argument):
-    """Format this argument for display."""
-    with contextlib.suppress(AttributeError):
-        return (
-            f"{arg.data} {str(arg.unit)!r}"
-            if arg.unit and arg.unit != '1'
-            else f"{arg.data!r}"
-        )
+    """Map each path, without the common ancestor, to the full path."""
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
+
+
+def _is_given(key: str, runtime: Runtime):
+    """True if the user's configuration file contains this parameter."""
+    names = (key, runtime.reference[key].get('alias', key))
+    return any(name in runtime.user for name in names)
+
+
+def _format_arg(key: str, runtime: Runtime):
+    """Format the named argument for display."""
+    arg = operational.Argument(runtime[key], _UNITS.get(key))
+    return (
+        f"{arg.data} {str(arg.unit)!r}"
+        if arg.unit and arg.unit != '1'
+        else f"{arg.data!r}"
+    )
 
 
 def generate_defaults(
-- 
2.43.0


From 066e05ce2c506aaa4e111cbca6742c1eccccdc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:49 +0000
Subject: [PATCH 110/118] fix: compare equal configuration files; close written
 databases

Comparing files that have no differences raised StopIteration, and the
database of default values could be truncated because it was never closed.
---
 src/goats/eprem/runtime.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 3d44d41..fcf0dd8 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1585,6 +1585,8 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -1684,13 +1686,10 @@ def generate_defaults(
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    with outpath.open('w') as fp:
+        json.dump(obj, fp, indent=4, sort_keys=True)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From ccc67913589616c703cbe80466ce93802e3a902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:01 +0000
Subject: [PATCH 111/118] fix: compare dimensions and parameters name by name

Names of one letter were equal to the string of those letters, repeated names
were equal to distinct ones, and parameters had no hash value.
---
 src/goats/core/metadata.py  | 16 ++++++----------
 src/goats/core/observing.py | 19 +++++++------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 9729232..c266acb 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -915,17 +915,13 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
         """True if self and other represent the same dimensions."""
         if isinstance(other, Dimensions):
             return other._names == self._names
+        if isinstance(other, str):
+            return len(self) == 1 and other == self._names[0]
         return (
-            (
-                isinstance(other, str)
-                and len(self) == 1
-                and other == self._names[0]
-            )
-            or (
-                isinstance(other, typing.Iterable)
-                and len(other) == len(self)
-                and all(i in self for i in other)
-            )
+            isinstance(other, typing.Collection)
+            and len(other) == len(self)
+            and all(i in self for i in other)
+            and all(i in other for i in self)
         )
 
     def __hash__(self):
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index a797243..8d4fb21 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -73,23 +73,18 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same parameters."""
+        if isinstance(other, str):
+            return len(self) == 1 and other == self._names[0]
         return (
-            isinstance(other, Parameters) and other._names == self._names
-            or (
-                isinstance(other, str)
-                and len(self) == 1
-                and other == self._names[0]
-            )
-            or (
-                isinstance(other, typing.Iterable)
-                and len(other) == len(self)
-                and all(i in self for i in other)
-            )
+            isinstance(other, typing.Collection)
+            and len(other) == len(self)
+            and all(i in self for i in other)
+            and all(i in other for i in self)
         )
 
     def __hash__(self):
         """Support use as a mapping key."""
-        return hash(self._names)
+        return hash(frozenset(self._names))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From fccc4fd05e6f5809d63facb3cc97361ae4289a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 112/118] fix: restrict new dataset viewers to the given
 dataset

Updating the viewers of one dataset changed them for all others of the same
type, did not affect quantities already in use, and files of unknown type
were accepted.
---
 src/goats/core/datafile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..173ed75 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,9 +167,9 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-            return viewers
+            return viewers.copy()
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
@@ -265,6 +265,9 @@ class Interface(iterables.ReprStrMixin, metaclass=iotools.PathSet):
     def use(self, **viewers) -> 'Interface':
         """Update the viewers for this instance."""
         self.viewers.update(viewers)
+        self._variables = None
+        self._axes = None
+        self._units = None
         return self
 
     def __str__(self) -> str:
-- 
2.43.0


From 9a49ff2ecb1d4eb87261f192a713c7f87ec6b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:03 +0000
Subject: [PATCH 113/118] fix: identify path-based objects by type and full
 path

A relative path kept referring to the file it named in a previous working
directory, and one path in different forms produced different objects.
---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..37fee24 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return self, pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From e013b67fe7780447e0d42890e09616e6e38a9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:55 +0000
Subject: [PATCH 114/118] fix: reduce every term of a unit expression; keep the
 scale of reductions

---
 src/goats/core/metric.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a86c51e..2cf1498 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1007,8 +1007,7 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -1018,15 +1017,14 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit**other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
@@ -2841,19 +2839,21 @@ def reduction(unit: symbolic.Expressable, system: str=None):
     This function is still experimental.
     """
     expression = symbolic.Expression(unit)
-    decomposed = []
+    scale = 1.0
+    terms = []
     for term in expression:
         try:
             # NOTE: `NamedUnit.reduce` can return `None`
             current = NamedUnit(term.base).reduce(system=system)
         except (UnitParsingError, SystemAmbiguityError):
             current = None
-        if current:
-            decomposed.append(current**term.exponent)
-    if not decomposed:
-        return
-    result = decomposed[0]
-    for other in decomposed[1:]:
-        result *= other.scale
-    return result
+        if not current:
+            # We can't reduce the expression without reducing every term.
+            return
+        # Use the same metric system for all terms.
+        system = current.system
+        reduced = current**term.exponent
+        scale *= reduced.scale
+        terms.extend(reduced.units)
+    return Reduction(terms or '1', scale=scale, system=system)
 
-- 
2.43.0


From 3bdd102d08d0c89bb0ce3aa181a77b37c833783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:44 +0000
Subject: [PATCH 115/118] fix: keep the scale of units that are converted by
 dimension

---
 src/goats/core/metric.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 2cf1498..bef026a 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1779,6 +1779,7 @@ class Conversion(iterables.ReprStrMixin):
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
+        factor = 1.0
         decomposed = []
         for term in terms:
             try:
@@ -1788,10 +1789,10 @@ class Conversion(iterables.ReprStrMixin):
             if not reduction:
                 # We can't convert by dimensions without every term's dimension.
                 return
+            factor *= reduction.scale**term.exponent
             decomposed.extend(
                 [
                     symbolic.Term(
-                        coefficient=reduction.scale**term.exponent,
                         base=this.base,
                         exponent=term.exponent*this.exponent,
                     )
@@ -1799,8 +1800,9 @@ class Conversion(iterables.ReprStrMixin):
                 ]
             )
         if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            return factor
+        if value := self._resolve_terms(decomposed):
+            return factor * value
 
     def _match_terms(
         self,
-- 
2.43.0


From 6fc47f72fc8ec83421d3971b12d8283b0230db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:17 +0000
Subject: [PATCH 116/118] fix: keep every declared alias in exactly one group

---
 src/goats/core/aliased.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index fa7219d..1869c75 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -392,7 +392,11 @@ def _build_from_key(
         if isinstance(group, typing.Mapping) else group
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
-    return dict(zip(keys, values))
+    out = {}
+    owners = {}
+    for key, value in zip(keys, values):
+        _assign(out, owners, key, value)
+    return out
 
 
 @typing.runtime_checkable
-- 
2.43.0


From 5d1e5230c79dc4162a9a4fa66aeaf0b75d324623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:32 +0000
Subject: [PATCH 117/118] fix: keep the unit and name of objects that become
 vectors or arrays

---
 src/goats/core/physical.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index da57a52..f933598 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -163,11 +163,12 @@ class Vector(Quantity):
 
     def __init__(self, __data, **meta) -> None:
         if isinstance(__data, measurable.Measurement):
-            meta = {'unit': __data.unit}
+            meta = {**meta, 'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, (Scalar, Vector)):
+        elif isinstance(__data, Quantity):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
-            __data = __data.data
+            # The original data of an array may not reflect its unit.
+            __data = getattr(__data, '_array', __data.data)
         array = numpy.asfarray(list(iterables.whole(__data)))
         super().__init__(array, **meta)
 
@@ -241,6 +242,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
 
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
+        if isinstance(__data, measurable.Measurement):
+            meta = {**meta, 'unit': __data.unit}
+            __data = __data.data
         super().__init__(__data, **meta)
         if isinstance(__data, Array):
             # The original data may not reflect the current unit.
-- 
2.43.0


From 80af0729ddaf0cb0d10193d6192586f1565cc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:13 +0000
Subject: [PATCH 118/118] fix: accept metric systems by any spelling when
 changing units

---
 src/goats/core/axis.py       | 2 +-
 src/goats/core/index.py      | 2 +-
 src/goats/core/measurable.py | 2 +-
 src/goats/core/observing.py  | 2 +-
 src/goats/core/variable.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 7eed5a4..a300889 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -153,7 +153,7 @@ class Quantity(iterables.ReprStrMixin):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 71e714c..dad5a9d 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -169,7 +169,7 @@ class Array(Quantity):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 40e2ba8..8f832c6 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -201,7 +201,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 8d4fb21..c8c7049 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -526,7 +526,7 @@ class Observable:
     def __getitem__(self, __x: metadata.UnitLike):
         """Create a quantity with the new unit."""
         unit = (
-            self.unit.norm[__x]
+            self.unit.norm[str(__x).lower()]
             if str(__x).lower() in metric.SYSTEMS else __x
         )
         self._target = None
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index f7756d4..3a9c7da 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -596,7 +596,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0

