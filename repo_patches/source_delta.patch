From bf22a28d038245cc759395593861fddc76285612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:31 +0000
Subject: [PATCH 01/95] fix: use the speed of light in cm/s consistently in
 Gaussian unit conversions

The conversions C->statC, A->statA, S->cm/s, ohm->s/cm, H->s^2/cm and V->statV
were written for c in m/s although C is defined in cm/s, and H/m->1 was missing
parentheses around 4*PI.
---
 src/goats/core/metric.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..62d34d6 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C * 1e-1,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C * 1e-1,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -749,10 +749,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 9bc7b5f0ac47e9eb57e6522c66236515e2610408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:55 +0000
Subject: [PATCH 02/95] fix: parse multi-digit denominators and scientific
 notation in symbolic terms

A rational with a multi-digit denominator kept only its first digit (a^3/10
became a^3) and a constant in scientific notation was read as a multiple of a
variable called e (1e-9 became -9 e), so an expression could fail to survive
its own string form.
---
 src/goats/core/symbolic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..50d3390 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -842,9 +842,10 @@ class OperandFactory(PartFactory):
 
         Notes
         -----
-        This method tries to match the 'variable' pattern before the 'constant'
-        pattern because `re.match` will find a match for 'constant' at the start
-        of any variable term with an explicit coefficient.
+        This method prefers the longer match because `re.match` will find a
+        match for 'constant' at the start of any variable term with an explicit
+        coefficient, and will find a match for 'variable' at the start of any
+        constant in scientific notation.
         """
         target = string[start:]
         matches = {
@@ -854,8 +855,8 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            longer = len(matches['variable'][0]) > len(matches['constant'][0])
+            key = 'variable' if longer else 'constant'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From e4da811bbb9283194822472ed45bb405378de3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:50 +0000
Subject: [PATCH 03/95] fix: refuse inconsistent unit conversions and apply
 every scale factor

Converting through base units dropped terms that are not in a metric system
(eV s -> s gave 1.0, min -> h^2 gave 1.0), ignored the prefix of a reduced unit,
let SystemAmbiguityError escape for any prefixed unit of a single system (kJ ->
kg m^2 s^-2) and did not combine repeated base units.  Prefixes on both sides of
a defined conversion (keV -> nJ, Mrad -> kdeg) were not resolved, which for
dimensionless units silently gave 1.0.  Also correct the misspelled illuminance
quantity, which made lux unusable.
---
 src/goats/core/metric.py | 73 +++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 62d34d6..512d328 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
@@ -1291,12 +1291,10 @@ class NamedUnit(iterables.ReprStrMixin, metaclass=_NamedUnitMeta):
         if self.dimensions['mks'] == self.dimensions['cgs']:
             # system-independent: use mks by default
             return 'mks'
-        if self.dimensions['mks'] is None:
-            # only defined in cgs
-            return 'cgs'
-        if self.dimensions['cgs'] is None:
-            # only defined in mks
-            return 'mks'
+        systems = [s for s in SYSTEMS if self.is_defined_in(s)]
+        if len(systems) == 1:
+            # only defined in one system
+            return systems[0]
         # system-dependent but we don't know the system
         raise SystemAmbiguityError(str(self))
 
@@ -1716,8 +1714,7 @@ class Conversion(iterables.ReprStrMixin):
                 if value := self._convert_as_strings(unit, u1, scale=scale):
                     return weight * value
 
-    @classmethod
-    def _rescale(cls, u0: str, u1: str):
+    def _rescale(self, u0: str, u1: str):
         """Compute a new conversion after rescaling `u0`.
         
         This method will look for a unit, `ux`, in `~metric.CONVERSIONS`
@@ -1729,11 +1726,11 @@ class Conversion(iterables.ReprStrMixin):
         if not u0 in named_units:
             return
         n0 = NamedUnit(u0)
-        for ux in cls.units:
-            if ux in named_units:
+        for ux in self.units:
+            if ux in named_units and ux not in self._checked:
                 nx = NamedUnit(ux)
                 if nx.base == n0.base:
-                    if found := cls._search(ux, u1):
+                    if found := self._convert_as_strings(ux, u1):
                         return (nx // n0) * found
 
     def _convert_as_expressions(self, u0: str, u1: str):
@@ -1750,23 +1747,41 @@ class Conversion(iterables.ReprStrMixin):
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
+        factor = 1.0
         decomposed = []
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
-                )
-        if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            scale, units = self._reduce_unit(term.base)
+            if not scale:
+                return
+            factor *= scale ** term.exponent
+            decomposed.extend(unit ** term.exponent for unit in units)
+        if not decomposed or symbolic.Expression(decomposed) == '1':
+            return factor
+        if resolved := self._resolve_terms(symbolic.reduce(decomposed)):
+            return factor * resolved
+
+    def _reduce_unit(self, unit: str):
+        """Attempt to express `unit` as a scale factor and base-unit terms.
+        
+        The scale factor will be ``None`` if it is not possible to express
+        `unit` in base units.
+        """
+        named = NamedUnit(unit)
+        dimensionless = all(d == '1' for d in named.dimensions.values())
+        with contextlib.suppress(SystemAmbiguityError):
+            if reduction := named.reduce():
+                units = [] if dimensionless else reduction.units
+                return reduction.scale, units
+        # This unit does not belong to a metric system (e.g., 'eV' or 'au'), so
+        # we need to first convert it to one that does.
+        canonical = UNITS[named.quantity]['mks']
+        if canonical in named_units:
+            self._checked = []
+            if scale := self._convert_as_strings(unit, canonical):
+                reduction = NamedUnit(canonical).reduce('mks')
+                units = [] if dimensionless else reduction.units
+                return scale * reduction.scale, units
+        return (named.scale, []) if dimensionless else (None, [])
 
     def _match_terms(
         self,
@@ -1782,11 +1797,13 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         dimensions = NamedUnit(u0).dimensions.values()
         if u0 in named_units and all(d == '1' for d in dimensions):
-            return 1.0, target
+            scale, _ = self._reduce_unit(u0)
+            return scale ** exponent, target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From 59877309b08e7ee75092b13e2d9cbb257eab6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:23 +0000
Subject: [PATCH 04/95] fix: let the symbol cd always mean candela

The prefixed symbol for centiday replaced the base symbol for candela, so the
unit of luminous intensity had the dimension of time, and which one 'cd' named
depended on which unit had been created first.
---
 src/goats/core/metric.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 512d328..a91daba 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -913,8 +913,14 @@ finally by physical quantity.
 
 
 def build_unit_aliases(prefix, unit):
-    """Define all aliases for the given metric prefix and base unit."""
+    """Define all aliases for the given metric prefix and base unit.
+    
+    The symbol of a base unit always represents that unit. For example, 'cd'
+    means 'candela' instead of 'centiday'.
+    """
     key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
+    if prefix['symbol'] and key[1] in {u['symbol'] for u in _units}:
+        key[1] = key[0]
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
     return tuple(key)
@@ -1090,8 +1096,10 @@ class _NamedUnitMeta(abc.ABCMeta):
         # First time through: identify the base unit and prefix.
         magnitude, reference = identify(string)
         # Store the information to initialize a new instance.
-        name = f"{magnitude.name}{reference.name}"
-        symbol = f"{magnitude.symbol}{reference.symbol}"
+        name, symbol, *_ = build_unit_aliases(
+            magnitude._asdict(),
+            reference._asdict(),
+        )
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
-- 
2.43.0


From 15037e4b5283afc9480a84f9bc7303750f2727b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:18 +0000
Subject: [PATCH 05/95] fix: parse every alias of a named unit independently of
 prior use

---
 src/goats/core/metric.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index a91daba..2fca70e 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1989,7 +1989,13 @@ class _UnitMeta(abc.ABCMeta):
         if string in cls._instances:
             # If the argument maps to an existing unit, return that unit.
             return cls._instances[string]
-        # First time through: create an symbolic expression from `arg`.
+        # First time through: create an symbolic expression from `arg`. Use the
+        # canonical spelling of a named unit because some aliases (e.g., 'μm' or
+        # 'astronomical unit') are not valid symbolic expressions.
+        if string and string.strip() in named_units:
+            this = NamedUnit(string.strip())
+            aliases = (this.symbol, this.symbol.replace('μ', 'u'), this.name)
+            arg = next(a for a in aliases if a.isascii() and ' ' not in a)
         instance = super().__call__(arg, **kwargs)
         # The canonical string representation is the expression string.
         name = str(instance)
@@ -2006,7 +2012,7 @@ class _UnitMeta(abc.ABCMeta):
             # If `name` corresponds to a named unit register both the name and
             # symbol (e.g., 'centimeter' and 'cm').
             this = NamedUnit(name)
-            key = (this.name, this.symbol)
+            key = (this.name, this.symbol, name)
         except UnitParsingError:
             # If attempting to parse a named unit from `name` failed, register
             # the canonical string and, if applicable, the string argument.
-- 
2.43.0


From 5d0f049ed985e4b1e93dafd203a1c651017f40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:26 +0000
Subject: [PATCH 06/95] fix: do not treat an undefined dimension as
 dimensionless in unit consistency

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 2fca70e..13bf7d2 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2292,7 +2292,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         that = type(self)(other)
         for system in SYSTEMS:
             defined = self.dimensions[system]
-            given = that.dimensions.values()
+            given = [d for d in that.dimensions.values() if d is not None]
             if defined and any(d == defined for d in given):
                 return True
         if self.quantity == that.quantity:
-- 
2.43.0


From 2371667adb5cdc028dc726071e4fda6ae60d1659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:48 +0000
Subject: [PATCH 07/95] fix: use a defined conversion for every spelling of its
 units

---
 src/goats/core/metric.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 13bf7d2..1e48949 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1609,12 +1609,28 @@ class Conversion(iterables.ReprStrMixin):
         methods: typing.Iterable[typing.Callable[[str, str], float]],
     ) -> typing.Optional[float]:
         """Call conversion methods on this instance's units."""
+        u0, u1 = (self._standardize(unit) for unit in (self.u0, self.u1))
         for method in methods:
             self._checked = []
-            if conversion := method(self.u0, self.u1):
+            if conversion := method(u0, u1):
                 return conversion
         raise UnitConversionError(self.u0, self.u1)
 
+    def _standardize(self, unit: str):
+        """Use the spelling of `unit` that appears in defined conversions.
+        
+        This allows equivalent spellings of a complex unit (e.g., 'A / m' and 'A
+        m^-1') to use the same defined conversion. It has no effect on named
+        units or on units that do not appear in the defined conversions.
+        """
+        if unit in self.units or unit in named_units:
+            return unit
+        this = symbolic.Expression(unit)
+        for known, expression in self._expressions.items():
+            if len(expression) == len(this) and expression == this:
+                return known
+        return unit
+
     def _convert_as_strings(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to convert `u0` to `u1` as strings.
         
@@ -1686,6 +1702,12 @@ class Conversion(iterables.ReprStrMixin):
     units = CONVERSIONS.nodes
     """Local copy of `~metric.CONVERSIONS.nodes`."""
 
+    _expressions = {
+        unit: symbolic.Expression(unit)
+        for unit in CONVERSIONS.nodes if unit not in named_units
+    }
+    """Symbolic expressions of complex units in `~metric.CONVERSIONS`."""
+
     def _complex_conversion(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to compute a complex conversion from `u0` to `u1`.
 
-- 
2.43.0


From b9b4b8638f572ea27fd842ef8d5a4676f704e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:48 +0000
Subject: [PATCH 08/95] fix: correct the permittivity dimension and the cgs
 displacement unit

---
 src/goats/core/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1e48949..8dc7f0f 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From bbf3570f4130555e8b868703b7da60008f502ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:45 +0000
Subject: [PATCH 09/95] fix: correct the first radiation constant in cgs

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From e27f82794e333fa2184664155110d700bbd7f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:23 +0000
Subject: [PATCH 10/95] fix: honor zero coefficients and exponents in symbolic
 operands

---
 src/goats/core/symbolic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 50d3390..9a097ce 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,13 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(1 if exponent is None else exponent)
         """The numerical exponent."""
 
     @property
@@ -1013,16 +1015,16 @@ class OperandFactory(PartFactory):
             'base': {'callable': self._standard_base},
             'exponent': {'callable': self._standard_exponent},
         }
-        default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
+        values = self.fill_defaults(**{k: given.get(k) for k in updatable})
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](values[key])
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1032,7 +1034,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
@@ -1051,7 +1053,7 @@ class OperandFactory(PartFactory):
             {
                 key: defaults[key]
                 for key, value in given.items()
-                if key in defaults and not value
+                if key in defaults and (value is None or value == '')
             }
         )
         return given
-- 
2.43.0


From 239593ecc7b66b755a67bc1d4ae172c70e2440db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:30 +0000
Subject: [PATCH 11/95] fix: make the hash of a symbolic term consistent with
 equality

---
 src/goats/core/symbolic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 9a097ce..1758129 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -417,7 +417,10 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        #
+        # This must be consistent with `Operand.__eq__`, which compares the
+        # floating-point values of the coefficient and exponent.
+        return hash((float(self.coefficient), self.base, float(self.exponent)))
 
 
 def asterms(these: typing.Iterable[str]):
-- 
2.43.0


From f81b1ca4305c99be9568a0488cdbdbb8ba31e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:07 +0000
Subject: [PATCH 12/95] fix: drop a unit coefficient when reducing symbolic
 terms even after rounding

---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 1758129..ff02748 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1718,7 +1718,7 @@ def reduce(*groups: typing.Iterable[Term]):
     constant = [Term(coefficient=c)]
     if not variables:
         return constant
-    if c == 1:
+    if float(c) == 1.0:
         return variables
     return constant + variables
 
-- 
2.43.0


From 171155a011e0923c9ac80cda00962ac8f62ea674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:18 +0000
Subject: [PATCH 13/95] fix: measure every given value in its unit or refuse to
 measure

---
 src/goats/core/measurable.py | 39 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..5718b50 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -310,8 +310,9 @@ def ismeasurable(this):
     if iterables.allinstance(args, numbers.Number):
         return True
     if isinstance(args[-1], metadata.UnitLike):
-        arg0 = args[0]
-        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
+        values = args[:-1]
+        if len(values) == 1 and isinstance(values[0], iterables.whole):
+            values = values[0]
         if iterables.allinstance(values, numbers.Number):
             return True
     if all(ismeasurable(i) for i in args):
@@ -368,9 +369,17 @@ def parse_measurable(args, distribute: bool=False):
         result = (unwrapped, '1')
         return [result] if distribute else result
 
+    # Handle an object that defines its own measurement.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return _wrap_measurable(measured.data, str(measured.unit), distribute)
+
+    # Raise an error for an object that can't contain values.
+    if not isinstance(unwrapped, iterables.whole):
+        raise Unmeasurable(unwrapped) from None
+
     # Count the number of distinct unit-like objects.
-    types = [type(arg) for arg in unwrapped]
-    n_units = sum(types.count(t) for t in (str, metadata.Unit))
+    n_units = sum(isinstance(arg, metadata.UnitLike) for arg in unwrapped)
 
     # Raise an error for multiple units.
     if n_units > 1:
@@ -385,20 +394,30 @@ def parse_measurable(args, distribute: bool=False):
     if all(isinstance(arg, numbers.Number) for arg in unwrapped):
         return _wrap_measurable(unwrapped, '1', distribute)
 
-    # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
+    # Recursively handle an iterable of distinct items.
+    if n_units == 0 and all(_isdistinct(arg) for arg in unwrapped):
         return _callback_parse(unwrapped, distribute)
 
     # Ensure an explicit unit-like object
     unit = ensure_unit(unwrapped)
+    values = unwrapped[:-1]
 
     # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
-    if all(isinstance(arg, numbers.Number) for arg in unwrapped[:-1]):
-        return _wrap_measurable(unwrapped[:-1], unit, distribute)
+    if values and all(isinstance(arg, numbers.Number) for arg in values):
+        return _wrap_measurable(values, unit, distribute)
 
     # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
+    if len(values) == 1 and isinstance(values[0], iterables.whole):
+        if iterables.allinstance(values[0], numbers.Number):
+            return _wrap_measurable(values[0], unit, distribute)
+
+    # Raise an error for anything else, rather than dropping values.
+    raise Unmeasurable(unwrapped) from None
+
+
+def _isdistinct(this):
+    """True if `this` may be measurable independent of other objects."""
+    return isinstance(this, (numbers.Number, iterables.whole, _Formal))
 
 
 def _wrap_measurable(values, unit, distribute: bool):
-- 
2.43.0


From 78947eec7aae664c4ef70f88b9a9841726174f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:33 +0000
Subject: [PATCH 14/95] fix: raise IndexError for out-of-range negative indices
 of measurements and vectors

---
 src/goats/core/measurable.py | 2 --
 src/goats/core/physical.py   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 5718b50..c41bb29 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..5b2706f 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -179,8 +179,6 @@ class Vector(Quantity):
         """Called for index-based value access."""
         if isinstance(index, str):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
-- 
2.43.0


From 84c1afa9e6f1131995d019d0188f3a067f80bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 15/95] fix: update metadata when applying in-place operators
 to quantities

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c41bb29..13fc9d9 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -136,8 +136,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From dcc0d01d1576fd98b28a3518b79b327eb46f888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 16/95] fix: keep the unit and name when creating a scalar or
 vector from an instance

---
 src/goats/core/physical.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 5b2706f..0cec109 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,8 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, Quantity):
+            meta = {'unit': __data.unit, 'name': __data.name, **meta}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -159,10 +161,10 @@ class Vector(Quantity):
 
     def __init__(self, __data, **meta) -> None:
         if isinstance(__data, measurable.Measurement):
-            meta = {'unit': __data.unit}
+            meta = {**meta, 'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
-            meta = {k: getattr(__data, k) for k in ('unit', 'name')}
+        elif isinstance(__data, Quantity):
+            meta = {'unit': __data.unit, 'name': __data.name, **meta}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
         super().__init__(array, **meta)
-- 
2.43.0


From cd4d74d2a0d26f12fe981360b1421fd0fe70be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:09 +0000
Subject: [PATCH 17/95] fix: preserve the scale of an array when creating it
 from an instance

---
 src/goats/core/physical.py | 5 +++--
 src/goats/core/variable.py | 7 +++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 0cec109..67cb898 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -240,8 +240,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        # Carry the unscaled array and its scale from an existing instance.
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..17ea05a 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -39,10 +39,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             if isinstance(__interface, measurable.Quantified)
             else __interface
         )
-        # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        # Carry the unscaled array and its scale from an existing instance.
+        self._full_array = getattr(__interface, '_full_array', None)
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From cb52e7afdf2d2c13728fefe9721e41ec1278d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:20 +0000
Subject: [PATCH 18/95] fix: subscript arrays consistently for slices with
 offsets, an ellipsis, or a list

---
 src/goats/core/physical.py |  8 ++++----
 src/goats/core/variable.py | 39 ++++++++++++++++++--------------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 67cb898..80d25ce 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -362,11 +362,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         This method handles all cases that don't meet the criteria for
         `_subscript_standard`.
         """
-        if not isinstance(args, (tuple, list)):
-            args = [args]
+        if not isinstance(args, tuple):
+            args = (args,)
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(*arg.indices(self.shape[i]))
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -385,7 +385,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 17ea05a..552edac 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -118,23 +118,20 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         unwrapped = iterables.unwrap(args)
         indices = self._normalize_indices(unwrapped)
         array = self._get_array(indices)
-        result = numpy.array(array, ndmin=self.ndim)
         if array.ndim != self.ndim:
-            with contextlib.suppress(TypeError):
-                shape = [
-                    self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
-                ]
-                return self._copy_with(data=result.reshape(shape))
-        return self._copy_with(data=result)
-
-    def _get_axis_size(self, i: int, v):
-        """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
-            return 1
-        if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
-        return self.shape[i]
+            array = array.reshape(self._get_subshape(indices))
+        return self._copy_with(data=array)
+
+    def _get_subshape(self, indices):
+        """Compute the shape of a subarray with singular axes."""
+        if not isinstance(indices, tuple):
+            indices = (indices,)
+        expanded = self._expand_ellipsis(indices)
+        missing = [slice(None)] * (self.ndim - len(expanded))
+        return [
+            len(range(*v.indices(n))) if isinstance(v, slice) else 1
+            for v, n in zip([*expanded, *missing], self.shape)
+        ]
 
     def _normalize_indices(self, args):
         """Compute appropriate array indices from `args`.
@@ -147,12 +144,12 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         """
         if iterables.hastype(args, self._builtin, tuple, strict=True):
             return args
-        if not isinstance(args, (tuple, list)):
-            args = [args]
+        if not isinstance(args, tuple):
+            args = (args,)
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
+            range(*arg.indices(self.shape[i])) if isinstance(arg, slice)
+            else numpy.atleast_1d(arg)
             for i, arg in enumerate(expanded)
         ]
         return numpy.ix_(*list(indices))
@@ -169,7 +166,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 0ae828577d1dd9c5b145723c2a82b5c313ababee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:55 +0000
Subject: [PATCH 19/95] fix: refuse products of variables with different sizes
 of a shared dimension

---
 src/goats/core/variable.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 552edac..cafa219 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -601,14 +601,26 @@ class Quantity(Array):
         correct_type = all(isinstance(v, type(self)) for v in inputs)
         if multiplicative and correct_type:
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
-            tmp = {}
+            sizes = {}
             for v in inputs:
-                tmp.update(v.shape_dict)
-            full_shape = tuple(tmp[d] for d in dims)
+                for d, n in v.shape_dict.items():
+                    size = sizes.setdefault(d, n)
+                    if n != size and 1 not in (n, size):
+                        raise ValueError(
+                            f"Operands have different sizes for {d!r}"
+                            f" ({size} and {n})"
+                        ) from None
+                    if size == 1:
+                        sizes[d] = n
+            full_shape = tuple(sizes[d] for d in dims)
             indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
             for v in inputs:
-                idx = tuple(indices[dims.index(d)] for d in v.shape_dict)
+                idx = tuple(
+                    # Multiply by 0 to broadcast singular axes.
+                    indices[dims.index(d)] * (n == sizes[d])
+                    for d, n in v.shape_dict.items()
+                )
                 arrays.append(v._get_array(idx))
             return arrays
         return super()._ufunc_hook(ufunc, *inputs)
-- 
2.43.0


From 7ee5dc8ecfe098cd8a7d57957ff84febd9846726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:17 +0000
Subject: [PATCH 20/95] fix: track dimensions through squeeze and mean for any
 form of the axis argument

---
 src/goats/core/variable.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index cafa219..5052ba5 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -631,26 +631,34 @@ class Quantity(Array):
         return dict(zip(self.dimensions, self.shape))
 
 
+def _normalize_axes(v: Quantity, axis):
+    """Convert the `axis` argument of an array function to indices."""
+    return [i % v.ndim for i in iterables.whole(axis)]
+
+
 @Quantity.implements(numpy.squeeze)
-def _squeeze(v: Quantity, **kwargs):
+def _squeeze(v: Quantity, axis=None):
     """Remove singular axes."""
-    data = v._array.squeeze(**kwargs)
+    data = v._array.squeeze(axis=axis)
+    removed = (
+        [i for i, d in enumerate(v.shape) if d == 1] if axis is None
+        else _normalize_axes(v, axis)
+    )
     dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
 @Quantity.implements(numpy.mean)
-def _mean(v: Quantity, **kwargs):
+def _mean(v: Quantity, axis=None, **kwargs):
     """Compute the mean of the underlying array."""
-    data = v._array.mean(**kwargs)
-    axis = kwargs.get('axis')
+    data = v._array.mean(axis=axis, **kwargs)
     if axis is None:
         return data
+    removed = () if kwargs.get('keepdims') else _normalize_axes(v, axis)
     dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
-- 
2.43.0


From a8383f2a37582f40c1a5e1f0d3b5d8074fddfda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 21/95] fix: do not treat differently ordered dimensions as
 equal

---
 src/goats/core/metadata.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..0f1e633 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -826,18 +826,15 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same dimensions."""
+        if isinstance(other, Dimensions):
+            # Quantities with differently ordered axes are not aligned.
+            return other._names == self._names
+        if isinstance(other, str):
+            return len(self) == 1 and other == self._names[0]
         return (
-            isinstance(other, Dimensions) and other._names == self._names
-            or (
-                isinstance(other, str)
-                and len(self) == 1
-                and other == self._names[0]
-            )
-            or (
-                isinstance(other, typing.Iterable)
-                and len(other) == len(self)
-                and all(i in self for i in other)
-            )
+            isinstance(other, typing.Iterable)
+            and len(other) == len(self)
+            and all(i in self for i in other)
         )
 
     def __hash__(self):
-- 
2.43.0


From e26d3e4070a4a3b108c145a8f22db53a246c13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:26 +0000
Subject: [PATCH 22/95] fix: refuse to order arrays with different units

---
 src/goats/core/physical.py | 3 +++
 src/goats/core/variable.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 80d25ce..6da288b 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -389,6 +389,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _ORDERING = {'less', 'less_equal', 'greater', 'greater_equal'}
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -424,6 +425,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._ORDERING and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare quantities with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 5052ba5..e327453 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -170,6 +170,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _ORDERING = {'less', 'less_equal', 'greater', 'greater_equal'}
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -205,6 +206,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._ORDERING and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare quantities with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From a05952aa097bb8b41f43d6c4c59d9d008d63bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 23/95] fix: refuse unknown file types and keep each dataset's
 viewers to itself

---
 src/goats/core/datafile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..ed174df 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,9 +167,9 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
-        else:
-            return viewers
+            raise TypeError(f"Unrecognized file type for {path}") from None
+        # Copy the defaults, so that changes only affect this instance.
+        return viewers.copy()
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
-- 
2.43.0


From 7591ed71e446d7e49e75837645a22cfc0ea4b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:40 +0000
Subject: [PATCH 24/95] fix: identify path-based instances by the file they
 refer to

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..0e4be55 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From d973db1b4160131f37c20526ab0951090f4d4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:06 +0000
Subject: [PATCH 25/95] fix: search for files in the current directory at the
 time of the call

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 0e4be55..b420b8b 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -202,7 +202,7 @@ def search(paths: typing.Iterable[PathLike], file: PathLike):
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike='.',
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
     d = ReadOnlyPath(directory)
-- 
2.43.0


From f71c4e7bc69cb76afddaae90ee243a1de963b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:06 +0000
Subject: [PATCH 26/95] fix: make read-only paths refuse to open for writing

---
 src/goats/core/iotools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index b420b8b..17a9acb 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -1,4 +1,3 @@
-import os
 import pathlib
 import typing
 
@@ -54,7 +53,7 @@ class ReadOnlyPathError(Exception):
         return f"Objects of type {self._obj} are read-only."
 
 
-class ReadOnlyPath(pathlib.Path):
+class ReadOnlyPath(type(pathlib.Path())):
     """A wrapper for read-oriented paths.
     
     This class creates ``pathlib.Path`` objects intended for reading. The instance path is fully resolved with the user wildcard expanded, and raises an exception if the requested path does not exist. 
@@ -70,20 +69,16 @@ class ReadOnlyPath(pathlib.Path):
 
     def __new__(cls, *args, **kwargs):
         """Create a new path object of the appropriate type."""
-        _type = (
-            pathlib.WindowsPath if os.name == 'nt'
-            else pathlib.PosixPath
-        )
-        path = super().__new__(_type, *args, **kwargs)
+        path = super().__new__(cls, *args, **kwargs)
         inst = path.expanduser().resolve()
         if not inst.exists():
             raise NonExistentPathError(inst)
         return inst
 
-    def open(self, *args, **kwargs):
-        if 'w' in args:
+    def open(self, mode='r', *args, **kwargs):
+        if any(c in mode for c in 'wax+'):
             raise ReadOnlyPathError(self.__class__)
-        return super().open(*args, **kwargs)
+        return super().open(mode, *args, **kwargs)
 
     def write_bytes(self, *args, **kwargs):
         raise ReadOnlyPathError(self.__class__)
-- 
2.43.0


From bee96e5df0ea2b43b38544b57d00dd528ea6263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:35 +0000
Subject: [PATCH 27/95] fix: build base variables from their dimensions and
 convert them to the system

---
 src/goats/core/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index e327453..587b7de 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -710,12 +710,12 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
+        built = Quantity(
             __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
+            dimensions=__v.dimensions,
+            unit=__v.unit,
         )
+        return built[str(self.system)] if self.system else built
 
     @property
     def system(self):
-- 
2.43.0


From 13f6be1fc166b377ffa95f75a20d6077522f1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 28/95] fix: do not let an attribute of the raw data override
 the unit of a variable

---
 src/goats/core/variable.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 587b7de..15fb4e6 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -484,16 +484,19 @@ class Quantity(Array):
         # Initialize the parent class.
         super().__init__(__interface)
         # Initialize and register the unit.
-        tmp = getattr(__interface, 'unit', unit or '1')
-        self._unit = metadata.Unit(tmp)
+        isvariable = isinstance(__interface, measurable.Quantified)
+        tmp = getattr(__interface, 'unit', '1')
+        self._unit = metadata.Unit(tmp if isvariable else unit or tmp)
         self.meta.register('unit')
         # Initialize and register the dimensions.
         tmp = getattr(
             __interface,
             'dimensions',
-            dimensions or [f'x{i}' for i in range(self.ndim)]
+            [f'x{i}' for i in range(self.ndim)]
+        )
+        self._dimensions = metadata.Dimensions(
+            *(tmp if isvariable else dimensions or tmp)
         )
-        self._dimensions = metadata.Dimensions(*tmp)
         self.meta.register('dimensions')
         # Check for consistency between the given dimensions and the dimensions
         # of the data array.
-- 
2.43.0


From d614bce55cfc7dca13828a02d526b5817ac8c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 29/95] fix: accept the name of a metric system in any case
 when changing units

---
 src/goats/core/axis.py       | 2 +-
 src/goats/core/index.py      | 2 +-
 src/goats/core/measurable.py | 2 +-
 src/goats/core/observing.py  | 2 +-
 src/goats/core/variable.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..003d9df 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -150,7 +150,7 @@ class Quantity(iterables.ReprStrMixin):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 7be25c9..266c2ac 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -169,7 +169,7 @@ class Array(Quantity):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 13fc9d9..560f1a2 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -201,7 +201,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..61cdc2f 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -515,7 +515,7 @@ class Observable:
     def __getitem__(self, __x: metadata.UnitLike):
         """Create a quantity with the new unit."""
         unit = (
-            self.unit.norm[__x]
+            self.unit.norm[str(__x).lower()]
             if str(__x).lower() in metric.SYSTEMS else __x
         )
         self._target = None
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 15fb4e6..4d9b4a0 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -581,7 +581,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0


From be1090670b6250f10ae620beac6af60e442671f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:53 +0000
Subject: [PATCH 30/95] fix: honor a unit object when measuring

---
 src/goats/core/measurable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 560f1a2..f9320f4 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -448,7 +448,7 @@ def _callback_parse(unwrapped, distribute: bool):
 def ensure_unit(args):
     """Extract the given unit or assume the quantity is unitless."""
     last = args[-1]
-    implicit = not any(isinstance(arg, (str, metadata.Unit)) for arg in args)
+    implicit = not any(isinstance(arg, metadata.UnitLike) for arg in args)
     explicit = last in ['1', metadata.Unit('1')]
     if implicit or explicit:
         return '1'
-- 
2.43.0


From 6b1091fd7378c3c4a0302ae739daadfb4dea64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:23 +0000
Subject: [PATCH 31/95] fix: keep separate singletons for each class of unit

---
 src/goats/core/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 8dc7f0f..85fb988 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1981,7 +1981,11 @@ class _UnitMeta(abc.ABCMeta):
     needing to overload `__new__` on that class or its base class(es).
     """
 
-    _instances = aliased.MutableMapping()
+    def __init__(cls, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        # Subclasses define their own operators, so each class needs to manage
+        # its own instances.
+        cls._instances = aliased.MutableMapping()
 
     def __call__(
         cls,
-- 
2.43.0


From 85e48dcb922934d69a7a2a5be4794ca769180875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:16 +0000
Subject: [PATCH 32/95] fix: match dimensions by name when multiplying
 different types of variables

---
 src/goats/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 4d9b4a0..669c59f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -604,7 +604,7 @@ class Quantity(Array):
     def _ufunc_hook(self, ufunc, *inputs):
         """Convert input arrays into arrays appropriate to `ufunc`."""
         multiplicative = ufunc.__name__ in {'multiply', 'divide', 'true_divide'}
-        correct_type = all(isinstance(v, type(self)) for v in inputs)
+        correct_type = all(isinstance(v, Quantity) for v in inputs)
         if multiplicative and correct_type:
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
             sizes = {}
-- 
2.43.0


From a7f79935de2832e5c1845cfda5813e12df302d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:49 +0000
Subject: [PATCH 33/95] fix: allow an ellipsis alongside index arrays

---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 6da288b..bbb82cc 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -381,7 +381,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 669c59f..04a981f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -162,7 +162,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-- 
2.43.0


From 7558cc678c948684cf28aa0d3eaeb29e77365d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:21 +0000
Subject: [PATCH 34/95] fix: compare units symmetrically when their ratio is
 subject to rounding

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 85fb988..aee4106 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1,6 +1,7 @@
 import abc
 import collections.abc
 import contextlib
+import math
 import numbers
 import typing
 
@@ -2303,7 +2304,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
             # If their numerical conversion factor is unity, they are
             # equivalent; for the purposes of this method (see the justification
             # given in the docstring), they are therefore equal.
-            return self // this == 1.0
+            return math.isclose(self // this, 1.0, rel_tol=1e-12)
         except UnitConversionError:
             # Everything has failed, so we declare them unequal.
             return False
-- 
2.43.0


From 454a9a6586403a3d4dd61140cc2d6d54e8dffd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 35/95] fix: make the hash of an alias group independent of the
 order of its aliases

---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b2b1b7e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 775136fa4d53675fb59d19eb9738552f2c4c707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 36/95] fix: merge and add groups of aliases by whole names

---
 src/goats/core/aliased.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b2b1b7e..e4502ee 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,27 +151,22 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                new = Group(group)
+                for found in [g for g in these if not g.isdisjoint(new)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    new = found | new
+                these.append(new)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        group = Group(__x)
+        for i in group:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(group)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From 605fdc3b67c4c0a9068701fff104063b712d1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 37/95] fix: keep one group for each alias when building an
 aliased mapping

---
 src/goats/core/aliased.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index e4502ee..42e8ec5 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -281,10 +281,11 @@ def _build_from_aliases(
     """Build a `dict` that maps aliased keys to user values."""
     out = {}
     for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
+        aliased_key = Group(key)
+        for found in [k for k in out if not k.isdisjoint(aliased_key)]:
+            # Repeated aliases belong to a single group with the latest value.
+            aliased_key = found | aliased_key
+            del out[found]
         out[aliased_key] = value
     return out
 
-- 
2.43.0


From d40739ec08e3c559f1d376886d70d45ac5dbed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:48 +0000
Subject: [PATCH 38/95] fix: refuse aliases that are in use without changing
 the mapping

---
 src/goats/core/aliased.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 42e8ec5..6f96b26 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -740,9 +740,10 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         include : bool, default=False
             If true, include the current key in the returned aliases.
         """
-        if include:
-            return self._resolve(key)
-        return self._resolve(key) - [key]
+        resolved = self._resolve(key)
+        if not resolved:
+            raise KeyError(f"{key!r} is not a known name or alias.") from None
+        return resolved if include else resolved - [key]
 
     def __eq__(self, other: typing.Mapping) -> bool:
         """Define equality between this and another object."""
@@ -869,18 +870,20 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
-            if alias in self._flat_keys():
-                current = super().alias(key)
-                this = ", ".join(str(a) for a in current)
-                if len(current) > 1:
+        current = super().alias(key, include=True)
+        new = [alias for alias in aliases if alias != key]
+        for alias in new:
+            if alias in self:
+                known = super().alias(alias)
+                this = ", ".join(str(a) for a in known)
+                if len(known) > 1:
                     this = f'({this})'
                 raise KeyError(
-                    f"'{key}' is already an alias for {this!r}"
+                    f"'{alias}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+        if new:
+            self.as_dict[current | new] = self.as_dict.pop(current)
+            self._refresh()
 
 
 class NameMap(iterables.MappingBase):
-- 
2.43.0


From 2de6c4e3c7e257a5f65097205470bd0dc6f26928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 39/95] fix: consider an additional letter at the end when
 checking spelling

---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From bb88872dbe915a72374b9d0b8e2d17746c20e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 40/95] fix: check the spelling of observables against
 individual names

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..8c2870e 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = self.context.keys
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From 834ec5958dd02721ca14ab8b4ebeef028d76fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 41/95] fix: observe a quantity if any of the given names is
 observable

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 8c2870e..e6cd1ab 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -78,7 +78,7 @@ class Interface:
         """True if this interface can observe the named quantity."""
         if isinstance(name, str):
             return self._observes(name)
-        return next((self._observes(key) for key in name), False)
+        return any(self._observes(key) for key in name)
 
     def _observes(self, key: str):
         """Internal helper for `~Interface.observes`."""
-- 
2.43.0


From 3f4d785832f8a112e64f2a417cbd663b8ba5a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 42/95] fix: compute the flow angle from the scalar product of
 B and V

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From 1e8e7796ba0cae375e3281111ad15195b09c0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:13 +0000
Subject: [PATCH 43/95] fix: keep the unit of an operational argument when
 measuring it

---
 src/goats/core/operational.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..f0aba7f 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -197,6 +198,11 @@ class Argument:
             else physical.Scalar(data, unit=unit)
         )
 
+    def __measure__(self):
+        """Create a measurement from this argument's values and unit."""
+        values = iterables.whole(self.data)
+        return measurable.measure(*values, str(self.unit or '1'))
+
     @property
     def data(self):
         """This argument's value(s)."""
-- 
2.43.0


From fc125f0fd1b8b29677507b01631d7554baf5aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 44/95] fix: report the axis values of the selected indices

---
 src/goats/eprem/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..d0370ae 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,7 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(indices, values=[symbols[i] for i in indices])
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +236,8 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                points = list(targets)
+                return index.Data(points, values=numpy.array(converted)[points])
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 96a557c6b0170b3857726c6dec8ac732ab3970bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 45/95] fix: round the charge when identifying an atomic
 species

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index a4ad0c2..64afeaa 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -293,7 +293,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(i)) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From 2716f92a0de73dddec4e951771824dad99afc734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:30 +0000
Subject: [PATCH 46/95] fix: allow access to the values of an array of text

---
 src/goats/core/physical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index bbb82cc..0d82397 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -530,7 +530,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
           without any numerical scaling to `self._load_array()`, then rescales
           the result if the unit has changed.
         """
-        return self._scale * self._load_array(index)
+        array = self._load_array(index)
+        if numpy.asarray(array).dtype.kind in 'SU':
+            # There is no meaningful way to scale text (e.g., species symbols).
+            return numpy.array(array)
+        return self._scale * array
 
     def _load_array(self, index=None):
         """Get the unscaled array from disk or memory.
-- 
2.43.0


From 3d6a1cfbca608c10847e5789eeeecf9286d72b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:11 +0000
Subject: [PATCH 47/95] fix: refuse to index an axis by values with an
 inconsistent unit

---
 src/goats/eprem/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index d0370ae..f3f4d27 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -252,9 +252,7 @@ class Axes(aliased.Mapping):
                 # which may be dimensionless, the default unit is the
                 # appropriate unit for both cases.
                 array = physical.Array(measured.data, unit=unit)
-            if array.unit | converted.unit: # Could also use try/except
-                array = array[converted.unit]
-            values = numpy.array(array)
+            values = numpy.array(array[converted.unit])
             indices = [
                 numerical.find_nearest(converted, float(value)).index
                 for value in values
-- 
2.43.0


From 44806c6df419b91818da4c4572040a2bf77eaf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 48/95] fix: interpolate to a value in a two-dimensional
 reference array

---
 src/goats/core/interpolation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..c00adad 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -119,8 +119,9 @@ def _apply_interp1d(
     else:
         ref = reference
         arr = array
-    # NOTE: If `ref.size == 1`, the restriction process constrained the
-    # reference array to a single value. There is no point in attempting to
+    # NOTE: If `ref.size == 1` (or, for a 2-D reference array, if there is only
+    # one value in each row), the restriction process constrained the reference
+    # array to a single value. There is no point in attempting to
     # interpolate over a single reference value since interpolation will fail
     # with fewer than two interpolant values. This may mean that `target` is
     # numerically outside the range of `reference`, which could lead to
@@ -128,8 +129,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return arr[:, 0, ...]
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 37b4d90e78bf72cf36ee45b5babab245c24a2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 49/95] fix: interpolate along the last axis of the reference
 coordinate

---
 src/goats/eprem/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index f3f4d27..772d79c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -445,12 +445,6 @@ class Context(observing.Context):
         ]
         return q[tuple(indices)]
 
-    _axis_indices = {
-        'time': 0,
-        'energy': 1,
-        'mu': 1,
-    }
-
     def _compute_interpolants(self, q: variable.Quantity):
         """Determine the coordinate axes over which to interpolate."""
         coordinates = {}
@@ -467,8 +461,10 @@ class Context(observing.Context):
                         'reference': self.coordinates[dimension],
                     }
         interpolants = {
-            k: {**c, 'axis': self._axis_indices.get(k)}
-            for k, c in coordinates.items()
+            k: {
+                **c,
+                'axis': None if k == 'shell' else c['reference'].ndim - 1,
+            } for k, c in coordinates.items()
         }
         if 'shell' not in q.dimensions:
             # The rest of this method deals with radial interpolation, which
-- 
2.43.0


From cb474b4703cc99b88e4003f17cd1cda1974bd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 50/95] fix: interpolate over radius before interpolating over
 time

---
 src/goats/eprem/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 772d79c..a0d5239 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -479,11 +479,14 @@ class Context(observing.Context):
                     floats = [float(values)]
                 else:
                     floats = [float(value) for value in values]
-                interpolants['radius'] = {
+                radial = {
                     'targets': numpy.array(floats),
                     'reference': self.coordinates['radius'],
                     'axis': 1,
                 }
+                # Interpolate over radius before the other coordinates, since
+                # the reference radii depend on the original times.
+                interpolants = {'radius': radial, **interpolants}
         return interpolants
 
     def interpolate(
-- 
2.43.0


From c999bab5a8fdf37403d8196042c153fd4b618863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:56 +0000
Subject: [PATCH 51/95] fix: refuse to interpolate to a radius with an
 inconsistent unit

---
 src/goats/eprem/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a0d5239..c2ef3f6 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -473,6 +473,8 @@ class Context(observing.Context):
             return interpolants
         for key in reference.ALIASES.find('radius'):
             if values := self.get_value(key):
+                if values.unit != '1':
+                    values = values[self.coordinates['radius'].unit]
                 try:
                     iter(values)
                 except TypeError:
-- 
2.43.0


From ba934dfae4a4d23ba303076832d1f6ce5b3f67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:40 +0000
Subject: [PATCH 52/95] fix: do not subscript a quantity after interpolating
 all of its axes

---
 src/goats/eprem/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c2ef3f6..8b2ae36 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -514,6 +514,8 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
+        if not dimensions:
+            return base
         return self._subscript(base, *dimensions)
 
     def _interpolate_coordinate(
-- 
2.43.0


From f76c803b9412440d8d83fc3d191933d018c044f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:40 +0000
Subject: [PATCH 53/95] fix: keep the metric system of an observer when
 updating its paths

---
 src/goats/eprem/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 8b2ae36..4bdeced 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -661,7 +661,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
         self._system = system or 'mks'
         self._datapath = None
         self._confpath = None
-        context = self._build_context(system=system)
+        context = self._build_context()
         if context:
             self._variables = context.variables
             self._axes = context.axes
@@ -690,7 +690,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             return super().update(context)
         return self
 
-    def _build_context(self, source=None, config=None, system=None):
+    def _build_context(self, source=None, config=None):
         """Create an instance of the EPREM observing context."""
         if config:
             self._config = config
@@ -700,8 +700,8 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             self._datapath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
-            variables = Variables(dataset, system=system or 'mks')
-            axes = Axes(dataset, system=system or 'mks')
+            variables = Variables(dataset, system=self._system)
+            axes = Axes(dataset, system=self._system)
             constants = runtime.Interface(self.confpath)
             return Context(variables, axes, constants)
 
-- 
2.43.0


From 6045f7e054cce3cf45dbd05f99dff177367eeace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:40 +0000
Subject: [PATCH 54/95] fix: compute rigidity and related quantities for each
 species

---
 src/goats/core/computed.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..a8843f3 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,10 +182,13 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
-    total_energy = numpy.array(energy, ndmin=1) + mass*c**2
-    rest_energy = mass*c**2
+    # Align species-dependent quantities with the leading axis of the result.
+    m = numpy.asarray(mass)[..., None]
+    q = numpy.asarray(charge)[..., None]
+    total_energy = numpy.array(energy, ndmin=1) + m*c**2
+    rest_energy = m*c**2
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
-    return p / charge
+    return p / q
 
 
 @registry.register
@@ -229,7 +232,7 @@ def acceleration_rate(
     v1 = _ahead(v)
     delta_v = v1 * numpy.abs(1 - v1_dot_v2 / (v1*v1))
     kxx_kpar = numpy.cos(angle)**2 + kper_kpar*numpy.sin(angle)**2
-    vpara = numpy.tensordot(kxx_kpar, vparticle, axes=0)
+    vpara = numpy.tensordot(kxx_kpar, numpy.array(vparticle, ndmin=2), axes=0)
     kappa = mfp * (vpara / 3.0)
     forward = inverse = (2, 3, 0, 1)
     tmp = kappa.transpose(forward) / v
-- 
2.43.0


From f353cf5f88f16c1f44d2dc2d4d78a681468b021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:40 +0000
Subject: [PATCH 55/95] fix: compute the integral flux of every species over
 its own energies

---
 src/goats/core/computed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index a8843f3..52874c5 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -370,12 +370,13 @@ def integral_flux(
             # a good assumption?
             flux = flux[:, :, None, :]
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
+    energies = numpy.broadcast_to(energies, flux.shape[2:])
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From 3d49acf737776fc8d4ae523ed1c5a264e362388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:50 +0000
Subject: [PATCH 56/95] fix: use the exponent of every term when composing
 metadata

---
 src/goats/core/observing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 61cdc2f..a7b0df2 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -407,11 +407,14 @@ class Context(collections.abc.Collection, typing.Generic[T]):
             return found
         s = str(target)
         expression = symbolic.Expression(reference.NAMES.get(s, s))
-        term = expression[0]
-        built = self.get_attribute(name, term.base)
-        if len(expression) > 1:
-            for term in expression[1:]:
-                built *= self.get_attribute(name, term.base)**term.exponent
+        built = None
+        for term in expression:
+            attribute = self.get_attribute(name, term.base)
+            if name == 'parameters':
+                # Ensure that we can combine the parameters, if any.
+                attribute = Parameters(attribute or ())
+            factor = attribute**term.exponent
+            built = factor if built is None else built * factor
         return built
 
     def get_attribute(self, name: str, target: str):
-- 
2.43.0


From 3f5a1f6213727c004c26b4bde143b72b0785c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:50 +0000
Subject: [PATCH 57/95] fix: keep the order of merged parameters and hash equal
 parameters equally

---
 src/goats/core/observing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index a7b0df2..c073e72 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*names)
 
     __mul__ = merge
     """Called for self * other."""
@@ -89,7 +89,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __hash__(self):
         """Support use as a mapping key."""
-        return hash(self._names)
+        return hash(frozenset(self._names))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From 027f2241a44bea9962f8fe771f7a04e388f4c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:28 +0000
Subject: [PATCH 58/95] fix: compose observable quantities with different
 dimensions in any order

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 4bdeced..7bec02c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -406,7 +406,7 @@ class Context(observing.Context):
         if len(expression) > 1:
             for term in expression[1:]:
                 result = self.get_observable(term.base)
-                q0 *= result ** term.exponent
+                q0 = q0 * result ** term.exponent
         return q0
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
-- 
2.43.0


From 07e2d4053fd8d02624446ce5c0a2d9443363968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:01 +0000
Subject: [PATCH 59/95] fix: compute derived quantities consistently in any
 metric system

---
 src/goats/core/computed.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 52874c5..880ad79 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -442,19 +442,19 @@ class Method(collections.abc.Mapping, iterables.ReprStrMixin):
         return self.callable(*self.parse(dependencies))
 
     def parse(self, dependencies: typing.Mapping):
-        """Extract arrays and floats from `dependencies`."""
+        """Extract arrays and floats, in MKS units, from `dependencies`."""
         arrays = []
         floats = []
         for name in self.parameters:
             arg = dependencies[name]
             if isinstance(arg, variable.Quantity):
-                arrays.append(numpy.array(arg))
+                arrays.append(numpy.array(arg['mks']))
             elif isinstance(arg, physical.Scalar):
-                floats.append(float(arg))
+                floats.append(float(arg['mks']))
             elif (
                 isinstance(arg, typing.Iterable)
                 and all(isinstance(a, physical.Scalar) for a in arg)
-            ): floats.extend([float(a) for a in arg])
+            ): floats.extend([float(a['mks']) for a in arg])
         return *arrays, *floats
 
     def __len__(self):
@@ -524,11 +524,12 @@ class Quantity(iterables.ReprStrMixin):
 
     def __call__(self, **quantities):
         """Create a variable quantity from input quantities."""
-        return variable.Quantity(
+        computed = variable.Quantity(
             self.method.compute(**quantities),
             dimensions=self.dimensions,
-            unit=self.unit,
+            unit=self.unit.norm['mks'],
         )
+        return computed[self.unit]
 
     def __str__(self) -> str:
         attrs = [
-- 
2.43.0


From 0d28cc549ee41f76c665e203c90cfd5840d1af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 60/95] fix: apply observing constraints given by any alias

---
 src/goats/eprem/__init__.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 7bec02c..330d11e 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -571,9 +571,9 @@ class Context(observing.Context):
         """Compute the axis-indexing object for `key`."""
         if key not in self.axes:
             raise ContextKeyError(f"No axis corresponding to {key!r}") from None
-        if key not in self.constraints:
+        this = self.get_constraint(key)
+        if this is None:
             return self.axes[key].index()
-        this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
         return self.axes[key].index(*iterables.whole(this))
@@ -592,13 +592,24 @@ class Context(observing.Context):
 
     def compute_value(self, key: str) -> physical.Scalar:
         """Create a parameter value for `key`."""
-        if key not in self.constants and key not in self.constraints:
+        this = self.get_constraint(key)
+        if this is None:
             raise ContextKeyError(
                 f"No parameter corresponding to {key!r}"
             ) from None
-        if key in self.constraints:
-            return self._compute_value(self.constraints[key])
-        return self._compute_value(self.constants[key])
+        return self._compute_value(this)
+
+    def get_constraint(self, key: str):
+        """Get the current constraint on `key` or one of its aliases, if any."""
+        aliases = (
+            self.constants.alias(key, include=True)
+            if key in self.constants
+            else reference.ALIASES.find(key, [key])
+        )
+        for name in (key, *aliases):
+            if self._user.get(name) is not None:
+                return self._user[name]
+        return self.constraints.get(key)
 
     def _compute_value(self, this):
         """Compute a parameter value."""
-- 
2.43.0


From ac799d50d205d3de0840c1a34c43bc8ccf6cb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 61/95] fix: ignore whitespace around names and values in a
 config file

---
 src/goats/eprem/runtime.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..1bd88a8 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,11 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = iotools.strip_inline_comments(line, self.comments)
+                if not line:
                     continue
-                key, _tmp = line.split('=')
-                value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                key, value = line.split('=', 1)
+                pairs[key.strip()] = value.strip()
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 91089ba08baa51de1d0680583749674534737bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 62/95] fix: accept zero as the value of a runtime parameter

---
 src/goats/eprem/runtime.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 1bd88a8..4976b69 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -682,7 +682,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -702,7 +703,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
@@ -899,7 +901,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -919,7 +922,8 @@ class Interface(aliased.Mapping[str, _VT]):
         """Split a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From 29b9e775f4638cc1ce83a24ae67848490dc55702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 63/95] fix: pass config-file options to the runtime values

---
 src/goats/eprem/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 4976b69..955ef14 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -846,7 +846,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
-- 
2.43.0


From 6dcdb6f600f95bb33c06c30ef10b30761ffe0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 64/95] fix: compare the given config files from any directory

---
 src/goats/eprem/runtime.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 955ef14..dd892ff 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1588,7 +1588,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1609,12 +1609,10 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    """Map each path, without its common ancestor, to the full path."""
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From 2975e9da77baff4cf6928a09c794099e172ec7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 65/95] fix: allow for no difference when comparing config
 files

---
 src/goats/eprem/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index dd892ff..cc6b2c5 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1549,6 +1549,8 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From da35f21fe0818dd3024b446dd2ddc484806cd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:30 +0000
Subject: [PATCH 66/95] fix: use the EPREM unit of flow and shock speeds

---
 src/goats/eprem/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index cc6b2c5..3442574 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1042,7 +1042,7 @@ _CONFIGURATION_C = {
     },
     'flowMag': {
         'aliases': [],
-        'unit': 'km/s',
+        'unit': 'cm/s',
     },
     'mhdDensityAu': {
         'aliases': [],
@@ -1134,7 +1134,7 @@ _CONFIGURATION_C = {
     },
     'idealShockSpeed': {
         'aliases': [],
-        'unit': 'km/s',
+        'unit': 'cm/s',
     },
     'idealShockInitTime': {
         'aliases': [],
-- 
2.43.0


From 6f1632ad0c2c6845f0c600130bc078504c031147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 67/95] fix: find the nearest bounded value in any array

---
 src/goats/core/numerical.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..bbaef21 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,19 +107,20 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
+    index = distance.argmin()
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        valid = array >= target
+        index = (
+            numpy.where(valid, distance, numpy.inf).argmin() if valid.any()
+            else array.size - 1
+        )
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        valid = array <= target
+        index = (
+            numpy.where(valid, distance, numpy.inf).argmin() if valid.any()
+            else 0
+        )
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 0c4fa1dd71878d6ec81f949f2c089be777d01a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:58 +0000
Subject: [PATCH 68/95] fix: convert coordinates given as numbers or arrays
 consistently

---
 src/goats/core/numerical.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index bbaef21..2fce0cd 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -214,18 +214,12 @@ def xyz2rtp(*args):
         x, y, z = args
     else:
         raise ArgsNumberError
-    r = numpy.sqrt(x*x + y*y + z*z)
-    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
-    t = numpy.arccos(z/r)
-    t[numpy.asarray(r == 0).nonzero()] = 0.0
+    x, y, z = (numpy.asarray(i, dtype=float) for i in (x, y, z))
+    r = zero_floor(numpy.sqrt(x*x + y*y + z*z))
+    t = numpy.arctan2(numpy.sqrt(x*x + y*y), z)
+    t = numpy.where(r == 0.0, 0.0, t)[()]
     p = numpy.arctan2(y, x)
-    p[numpy.asarray(p < 0.0).nonzero()] += 2*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j >= 0 for (i, j) in zip(x, y)]
-    ).nonzero()] = +0.5*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j < 0  for (i, j) in zip(x, y)]
-    ).nonzero()] = -0.5*numpy.pi
+    p = numpy.where(p < 0.0, p + 2*numpy.pi, p)[()]
     return (r, t, p)
 
 
@@ -282,13 +276,8 @@ def zero_floor(
     value: typing.Union[float, numpy.ndarray],
 ) -> typing.Union[float, numpy.ndarray]:
     """Round a small number, or array of small numbers, to zero."""
-    if value.shape:
-        condition = numpy.asarray(
-            numpy.abs(value) < sys.float_info.epsilon
-        ).nonzero()
-        value[condition] = 0.0
-    else:
-        value = 0.0 if numpy.abs(value) < sys.float_info.epsilon else value
-    return value
+    return numpy.where(
+        numpy.abs(value) < sys.float_info.epsilon, 0.0, value
+    )[()]
 
 
-- 
2.43.0


From cc2b8df0d7bf6d05653176b8ee27ac829b9654a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 69/95] fix: compare observations to each other

---
 src/goats/core/observing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index c073e72..8b418ce 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -227,10 +227,10 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
+        if isinstance(__o, Observation):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('data', '_axes', '_assumptions')
             )
         return NotImplemented
 
-- 
2.43.0


From 3ae48e654dd123833d25e7814b19ecde63477cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 70/95] fix: report an ambiguous table request based on all
 criteria

---
 src/goats/core/iterables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..5f784dd 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1105,8 +1105,7 @@ class Table(MappingBase):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
+                if len(subset) > 1 and len(request) == n_checked:
                     raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
-- 
2.43.0


From 6c48f46d2a8671043a4ebc9f742828daa1d07252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 71/95] fix: substitute a value for subclasses of a known
 exception

---
 src/goats/core/iterables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 5f784dd..516ff17 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1670,8 +1670,11 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[t] for t in type(err).mro()
+                if t in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From dd38c5a10a787e377f727e5d18a4a98dfba2b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 72/95] fix: convert slices with negative or large limits to
 ranges

---
 src/goats/core/iterables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 516ff17..c584924 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -189,6 +189,8 @@ def slice_to_range(s: slice, stop: int=0) -> range:
     """Attempt to convert a slice to a range."""
     if stop is None:
         raise TypeError(f"Cannot convert {s} to a range.")
+    if stop:
+        return range(*s.indices(stop))
     start = s.start or 0
     stop = s.stop or stop
     step = s.step or 1
-- 
2.43.0


From 7ba04fd2782932e222e807cbcd607668876af778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 73/95] fix: check consistency before converting axis values

---
 src/goats/core/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 266c2ac..dad5a9d 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -175,8 +175,8 @@ class Array(Quantity):
         if unit == self.unit:
             return self
         new = metadata.Unit(unit)
-        values = self.values * (new // self.unit)
         if self.unit | new:
+            values = numpy.array(self.values) * (new // self.unit)
             return type(self)(
                 Data(self._points, values=values),
                 unit=new,
-- 
2.43.0


From be33dc44d85c40dd322478dcb4189406005da452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:17 +0000
Subject: [PATCH 74/95] fix: treat a single-valued argument as one value in
 every way

---
 src/goats/core/operational.py | 49 +++++++++++------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index f0aba7f..1655f2e 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -137,7 +137,7 @@ class Argument:
             return True
         if isinstance(self.data, str):
             return bool(self.data.strip())
-        return bool(self.data)
+        return len(self) > 0
 
     def __float__(self):
         """Represent a single-valued physical argument as a `float`."""
@@ -153,55 +153,38 @@ class Argument:
 
     def _cast_to(self, __type: typing.Type[T]) -> T:
         """Internal method for casting to numeric type."""
-        try:
-            nv = len(self.data)
-        except TypeError:
-            nv = 0
-        if nv > 1:
+        nv = len(self)
+        if nv != 1:
             errmsg = f"Can't convert data with {nv} values to {__type}"
             raise NumericCastError(errmsg) from None
-        if nv == 1:
-            return __type(self.data[0])
-        try: # nv == 0
+        try:
             return __type(self.data)
         except ValueError as err:
             raise ValueError(f"Can't convert {self!r} to {__type}.") from err
 
     def __iter__(self) -> typing.Iterator:
         """Called for iter(self)."""
-        try:
-            return iter(self.data)
-        except TypeError:
-            return iter([self.data])
+        return iter(iterables.whole(self._data))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-        try:
-            return len(self.data)
-        except TypeError:
-            return 1
+        return len(iterables.whole(self._data))
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
-        data = self.data[index]
-        try:
-            iter(data)
-        except TypeError:
-            iterable = False
-        else:
-            iterable = True
+        data = list(self)[index]
         unit = self.unit
+        if not unit:
+            return data
         return (
-            [physical.Scalar(value, unit=unit) for value in data] if iterable
+            [physical.Scalar(value, unit=unit) for value in data]
+            if isinstance(data, list)
             else physical.Scalar(data, unit=unit)
         )
 
     def __measure__(self):
         """Create a measurement from this argument's values and unit."""
-        values = iterables.whole(self.data)
-        return measurable.measure(*values, str(self.unit or '1'))
+        return measurable.measure(*self, str(self.unit or '1'))
 
     @property
     def data(self):
@@ -222,11 +205,9 @@ class Argument:
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-            same_data = other.data == self.data
-            if self.unit:
-                return same_data and other.unit == self.unit
-            return same_data
-        return other == self.data
+            same_data = numpy.array_equal(other.data, self.data)
+            return same_data and other.unit == self.unit
+        return numpy.array_equal(other, self.data)
 
     def __repr__(self) -> str:
         """An unambiguous representation of this argument."""
-- 
2.43.0


From 9f1704094916c15c6a9db781c2b3d503195466c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:44 +0000
Subject: [PATCH 75/95] fix: never replace a registered object under a default
 key

---
 src/goats/core/iterables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index c584924..6c08265 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -855,6 +855,9 @@ class ObjectRegistry(collections.abc.Mapping):
                     return proposed
                 new_default_key = f"{proposed}_{self._default_key_count}"
                 self._default_key_count += 1
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From a14c1bb4ec651ef0b59a30049c18719764f2e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:28 +0000
Subject: [PATCH 76/95] fix: look up items of a uniform mapping without
 infinite recursion

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 6c08265..c1fe81d 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -655,7 +655,7 @@ class UniformMapping(MappingBase):
 
     def __getitem__(self, key: str):
         """Create an instance of the type from the mapping."""
-        if key in self:
+        if key in self._mapping:
             kwargs = {p: self._mapping[key].get(p) for p in self._init}
             return self._type(**kwargs)
         raise KeyError(key) from None
-- 
2.43.0


From 306a7ea4facde3bf03e3b54d9d9d8543da82ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:37 +0000
Subject: [PATCH 77/95] fix: accept unit objects when changing the unit of an
 observation

---
 src/goats/core/observing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 8b418ce..abb908c 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -219,10 +219,11 @@ class Observation:
                 f"{__x!r} must name a context item or a unit."
                 "Use the array property to access data values."
             ) from None
-        if __x in self._axes:
-            return self._axes[__x]
-        if __x in self._assumptions:
-            return self._assumptions[__x]
+        if not isinstance(__x, metric.Unit):
+            if __x in self._axes:
+                return self._axes[__x]
+            if __x in self._assumptions:
+                return self._assumptions[__x]
         return type(self)(self.data[__x], self._indices, self._assumptions)
 
     def __eq__(self, __o) -> bool:
-- 
2.43.0


From b2e63255796f76dab8b28a8ecad0e93b252b0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:10 +0000
Subject: [PATCH 78/95] fix: keep the order of operands when combining a name
 with a list of names

---
 src/goats/core/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 0f1e633..9e48b32 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -660,13 +660,13 @@ class Name(collections.abc.Collection, Attribute):
         def compute(a, b):
             """Symbolically combine `a` and `b`."""
             x, y = (b, a) if reverse else (a, b)
+            t = '{1}{s}{0}' if reverse else '{0}{s}{1}'
             if isinstance(y, typing.Iterable) and not isinstance(y, str):
-                return Name([f'{i}{symbol}{j}' for i in x for j in y])
+                return Name([t.format(i, j, s=symbol) for i in x for j in y])
             try:
                 fixed = fractions.Fraction(y)
             except ValueError:
                 fixed = y
-            t = '{1}{s}{0}' if reverse else '{0}{s}{1}'
             return Name([t.format(i, fixed, s=symbol) for i in x])
         def operator(self, that):
             if not self or not that:
-- 
2.43.0


From 9bdacb0b822ac550235c610a1fe327974e590c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:00 +0000
Subject: [PATCH 79/95] fix: keep the name of a quantity when changing its unit

---
 src/goats/core/physical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 0d82397..9fd2611 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -46,6 +46,10 @@ class Quantity(measurable.Quantity, metadata.NameMixin):
             self.display['__str__'].insert(0, "'{name}':")
             self.display['__repr__'].insert(2, "name='{name}'")
 
+    def apply_unit(self, unit: metadata.Unit):
+        data = self._data * (unit // self._unit)
+        return type(self)(data, unit=unit, name=self.name)
+
 
 class Scalar(Quantity, algebraic.Scalar):
     """A single-valued named quantity."""
-- 
2.43.0


From 7c3a8a9de982cc5fcc8c6ee7e6b5a210643658ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:23 +0000
Subject: [PATCH 80/95] fix: match unit terms of the same quantity before
 others when converting expressions

---
 src/goats/core/metric.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index aee4106..bc32481 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1826,6 +1826,16 @@ class Conversion(iterables.ReprStrMixin):
             term for term in terms
             if term != target and term.exponent == -exponent
         ]
+        if u0 in named_units:
+            # A few units can convert to units of another quantity (e.g., 'F' to
+            # 'cm'), so we need to first try terms with the same quantity.
+            quantity = NamedUnit(u0).quantity
+            like_terms.sort(
+                key=lambda term: (
+                    term.base not in named_units
+                    or NamedUnit(term.base).quantity != quantity
+                )
+            )
         for term in like_terms:
             u1 = term.base
             self._checked = []
-- 
2.43.0


From 6e2b7242c9448c6033a93f36e8a71738fea02c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:40 +0000
Subject: [PATCH 81/95] fix: use the common dimension for every metric system

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index bc32481..d335aa1 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2506,8 +2506,8 @@ class Dimensions(typing.Mapping, iterables.ReprStrMixin):
         **systems
     ) -> typing.Dict[str, typing.Optional[Dimension]]:
         """Create dimension objects from arguments."""
-        created = dict.fromkeys(SYSTEMS)
         default = Dimension(common) if common else None
+        created = dict.fromkeys(SYSTEMS, default)
         updates = {
             system: Dimension(expressable) if expressable else default
             for system, expressable in systems.items()
-- 
2.43.0


From 78d7813ec362bafd3caf1671cd326972c7efbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:40 +0000
Subject: [PATCH 82/95] fix: refuse unknown metric quantities with KeyError

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index d335aa1..f8f64dd 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -869,9 +869,12 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity not in _QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From a5c3b541d11ef47a61559eb1d07b219caef2fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:06 +0000
Subject: [PATCH 83/95] fix: apply the scale of a unit reduction once

---
 src/goats/core/metric.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index f8f64dd..37fb073 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1013,8 +1013,7 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -1024,15 +1023,14 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit ** other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From d7317ec49fa2840b088045bc279e7c797367bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:06 +0000
Subject: [PATCH 84/95] fix: keep one group for each alias when the values of a
 mapping give the aliases

---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 6f96b26..7ab8f39 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -342,7 +342,7 @@ def _build_from_key(
         {k: v for k, v in group.items() if k != aliases}
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
-    return dict(zip(keys, values))
+    return _build_from_aliases(dict(zip(keys, values)))
 
 
 @typing.runtime_checkable
-- 
2.43.0


From e3dab6d305d11c591003c88a3bd573b756a1be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:27 +0000
Subject: [PATCH 85/95] fix: refuse to set an item under the alias of another
 item

---
 src/goats/core/aliased.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 7ab8f39..7957b4e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -836,6 +836,12 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
         resolved = self._resolve(key) or Group(key)
+        if resolved not in self.as_dict:
+            for alias in resolved:
+                if alias in self:
+                    raise KeyError(
+                        f"{alias!r} already belongs to another key"
+                    ) from None
         self.as_dict[resolved] = value
         self._refresh()
 
-- 
2.43.0


From b6fb7b80638fe96abfa4b5f66a8c76abdcbc1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 86/95] fix: give field-aligned flow no perpendicular velocity
 rather than NaN

---
 src/goats/core/computed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 880ad79..06c8717 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -132,7 +132,8 @@ def v_perp(
     """The velocity-field component parallel to the magnetic field."""
     mag = v_mag(vr, vt, vp)
     para = v_para(vr, vt, vp, br, bt, bp)
-    return numpy.sqrt(mag**2 - para**2)
+    # Rounding may leave a tiny negative difference if V is parallel to B.
+    return numpy.sqrt(numpy.maximum(mag**2 - para**2, 0.0))
 
 
 @registry.register
-- 
2.43.0


From e8098e5d6fa240470f0f8828a370dc2e52f90ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:40 +0000
Subject: [PATCH 87/95] fix: compute the integral flux where the differential
 flux is zero

---
 src/goats/core/computed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 06c8717..d608e0e 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -400,7 +400,11 @@ def _interpolate(
     fc = f.copy()
     i0, x0 = numerical.find_nearest(xc, m, bound='upper')
     # TODO: Make sure i0+1 is not out of range.
-    beta = numpy.log(fc[..., i0+1] / fc[..., i0]) / numpy.log(xc[i0+1] / x0)
+    f0 = fc[..., i0]
+    # There is no power law through zero. Wherever `f` is zero, leave it so.
+    ratio = numpy.divide(fc[..., i0+1], f0, out=numpy.ones_like(f0), where=f0 != 0)
+    with numpy.errstate(divide='ignore'):
+        beta = numpy.log(ratio) / numpy.log(xc[i0+1] / x0)
     base = numpy.full_like(beta, m / x0)
     xc[i0] = m
     fc[..., i0] *= numpy.power(base, beta)
-- 
2.43.0


From 933038da8b1afac607be8546130975bca4b2cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:54 +0000
Subject: [PATCH 88/95] fix: compute zero integral flux above the highest
 energy

---
 src/goats/core/computed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index d608e0e..56e5497 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -377,6 +377,9 @@ def integral_flux(
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            if m >= numpy.max(e):
+                # There is no flux above this energy.
+                continue
             use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
@@ -399,7 +402,6 @@ def _interpolate(
     xc = x.copy()
     fc = f.copy()
     i0, x0 = numerical.find_nearest(xc, m, bound='upper')
-    # TODO: Make sure i0+1 is not out of range.
     f0 = fc[..., i0]
     # There is no power law through zero. Wherever `f` is zero, leave it so.
     ratio = numpy.divide(fc[..., i0+1], f0, out=numpy.ones_like(f0), where=f0 != 0)
-- 
2.43.0


From 81862419721fde97659bbc97c8663efa3b97094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:47 +0000
Subject: [PATCH 89/95] fix: find the unit of a dimension however the dimension
 is written

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 37fb073..b193cdd 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2821,8 +2821,9 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        this = Dimension(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if this == dimension:
                 return Unit(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 8214413505821d5f3ef96458427b2dd8598df063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 90/95] fix: refuse to order variables with different
 dimensions

---
 src/goats/core/variable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 04a981f..eccd609 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -206,8 +206,12 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
-        if name in self._ORDERING and not metadata.consistent('unit', *args):
-            raise ValueError("Can't compare quantities with different units")
+        if name in self._ORDERING:
+            for attr in ('unit', 'dimensions'):
+                if not metadata.consistent(attr, *args):
+                    raise ValueError(
+                        f"Can't compare quantities with different {attr!r}"
+                    ) from None
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From 22b43b0da3b1b5a901b0b714ada7c37bff449caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:15 +0000
Subject: [PATCH 91/95] fix: raise expressions to the exact power when it is
 rational

---
 src/goats/core/symbolic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ff02748..f1e5482 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1612,9 +1612,11 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to a float, unless `exp` is
+        a rational number (e.g., an integer or a fraction).
         """
-        exp = float(exp)
+        if not isinstance(exp, numbers.Rational):
+            exp = float(exp)
         if not exp:
             return NotImplemented
         terms = [pow(term, exp) for term in self]
-- 
2.43.0


From 6e82638d7708906a1b537d6978034db2a2c94da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:48 +0000
Subject: [PATCH 92/95] fix: dataset axes and variables without a metric system

---
 src/goats/eprem/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 330d11e..804247e 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -54,6 +54,8 @@ class Variables(variable.Interface):
             dimensions=__v.dimensions,
             unit=standardize(__v.unit),
         )
+        if self.system is None:
+            return v
         return (
             v[self.system['mass'].unit]
             if name in {'mass', 'm'}
@@ -99,7 +101,7 @@ class Axes(aliased.Mapping):
     ) -> None:
         """Initialize this instance."""
         self._system = metric.System(system or 'mks')
-        self._variables = Variables(__data, system=system)
+        self._variables = Variables(__data, system=self._system)
         self._names = __data.available('axes').canonical
         self._time = None
         self._shell = None
-- 
2.43.0


From 9b654591719c256f69fcef475b151ab3b283813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 93/95] fix: generated defaults are complete once the function
 returns

---
 src/goats/eprem/runtime.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 3442574..f0ea143 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1642,13 +1642,15 @@ def generate_defaults(
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    with outpath.open('w') as fp:
+        json.dump(
+            obj,
+            fp,
+            indent=4,
+            sort_keys=True,
+        )
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 6ce415763f887260c81b5906ff35c6da686ba733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:28 +0000
Subject: [PATCH 94/95] fix: powers of symbolic terms keep rational exponents
 exact

---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index f1e5482..dd9a461 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -190,7 +190,7 @@ class Operand(Part):
     def __pow__(self, power):
         """Create a new operand, raised to `power`."""
         coefficient = self.coefficient ** power
-        exponent = self.exponent * power
+        exponent = self.exponent * fractions.Fraction(power)
         return type(self)(coefficient, self.base, exponent)
 
     def __mul__(self, other):
-- 
2.43.0


From 0cf0d14c6402a3fd64a3a18458774c60b43b8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:41 +0000
Subject: [PATCH 95/95] fix: an expression refuses indices before its first
 term

---
 src/goats/core/symbolic.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index dd9a461..0c71532 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1462,12 +1462,7 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
     def __getitem__(self, index):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
-            idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
-            return self.terms[idx]
+            return self.terms[int(index)]
         return self.terms[index]
 
     def __str__(self) -> str:
-- 
2.43.0

