From d77becbbf3f002184838aed7bf93982f6be478b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:43 +0000
Subject: [PATCH 01/28] fix: IntegerBounds accepts integers too large to be
 exact floats

---
 gemd/entity/bounds/integer_bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..93d06fa 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +52,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 39aea6aa763aaea50aeb51b269319d84b8716387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:18 +0000
Subject: [PATCH 02/28] fix: MolecularStructureBounds.update refuses bounds and
 values of other kinds

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..a018152 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # There is no state to update, but types still need to match
 
     def as_dict(self):
         """
-- 
2.43.0


From 63eccf2a9cd29def66acf46f8ff613729279cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 03/28] fix: refused category and component assignments leave
 the bounds unchanged

---
 gemd/entity/bounds/categorical_bounds.py | 9 +++++----
 gemd/entity/bounds/composition_bounds.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..4c99da4 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,17 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
+            new = set()
         elif isinstance(categories, array_like()):
-            self._categories = set(categories)
+            new = set(categories)
         elif isinstance(categories, set):
-            self._categories = categories
+            new = categories
         else:
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in new):
             raise ValueError("All the categories must be strings")
+        self._categories = new
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..5bbff54 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,17 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
+            new = set()
         elif isinstance(value, array_like()):
-            self._components = set(value)
+            new = set(value)
         elif isinstance(value, set):
-            self._components = value
+            new = value
         else:
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in new):
             raise ValueError("All the components must be strings")
+        self._components = new
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From c6aa2ad3d92d262645f24efd83cfc39f9b9b50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 04/28] fix: DiscreteCategorical refuses NaN probabilities

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..20b44f1 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 9f6da09bb9de85f18f541ef6312532aec9c1d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 05/28] fix: a value can be assigned to an attribute whose
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From 9ae959c33722554fe38d072ef13e7d01d15a3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 06/28] fix: matching an attribute by name skips linked
 templates instead of failing

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..d8074ef 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..a004ca1 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..818da97 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From 9f0681ae46f94d624304ea4cd05627df3f0429c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:07 +0000
Subject: [PATCH 07/28] fix: valid absolute quantities are accepted at
 validation level FATAL

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..61127dc 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif len(messages) > 0:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From fb90a20a4643bde2d18ec5ba8fcc78bdd67d27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:21 +0000
Subject: [PATCH 08/28] fix: validation_level restores the previous level when
 the block raises

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From 424de1d6f3d88d90f60a13cbab707e521dadc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:56 +0000
Subject: [PATCH 09/28] fix: an ingredient or measurement detaches itself, not
 an equal one

---
 gemd/entity/object/ingredient_run.py  | 4 +++-
 gemd/entity/object/ingredient_spec.py | 4 +++-
 gemd/entity/object/measurement_run.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..d593df2 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -124,8 +124,10 @@ class IngredientRun(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
         if isinstance(self._process, ProcessRun):
+            remaining = self._process.ingredients
+            index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            del remaining[remaining.index(self) if index is None else index]
 
         if process is None or isinstance(process, (LinkByUID, ProcessRun)):
             self._process = process
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 7a2f8d4..26883a7 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -118,8 +118,10 @@ class IngredientSpec(BaseObject,
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
         if isinstance(self._process, ProcessSpec):
+            remaining = self._process.ingredients
+            index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            del remaining[remaining.index(self) if index is None else index]
 
         if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
             self._process = process
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..bcdcdc3 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -92,8 +92,10 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
         if isinstance(self._material, MaterialRun):
+            remaining = self._material.measurements
+            index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
+            del remaining[remaining.index(self) if index is None else index]
 
         if value is None or isinstance(value, (MaterialRun, LinkByUID)):
             self._material = value
-- 
2.43.0


From 0871775de38f40c4711a926258a5fc6ccbdd8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:56 +0000
Subject: [PATCH 10/28] fix: a refused process or material assignment leaves
 existing links in place

---
 gemd/entity/object/ingredient_run.py  | 14 +++++++-------
 gemd/entity/object/ingredient_spec.py | 14 +++++++-------
 gemd/entity/object/material_run.py    | 17 +++++++----------
 gemd/entity/object/material_spec.py   | 18 +++++++-----------
 gemd/entity/object/measurement_run.py | 12 ++++++------
 5 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index d593df2..618e937 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -123,19 +123,19 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
+            raise TypeError("IngredientRun.process must be a ProcessRun or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessRun):
             remaining = self._process.ingredients
             index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
             del remaining[remaining.index(self) if index is None else index]
 
-        if process is None or isinstance(process, (LinkByUID, ProcessRun)):
-            self._process = process
-            if isinstance(process, ProcessRun):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientRun.process must be a ProcessRun or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessRun):
+            process.ingredients.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 26883a7..11ff9d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,19 +117,19 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
+        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessSpec):
             remaining = self._process.ingredients
             index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
             del remaining[remaining.index(self) if index is None else index]
 
-        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            self._process = process
-            if isinstance(process, ProcessSpec):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessSpec):
+            process.ingredients.append(self)
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..3da25eb 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,18 +74,15 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if self.process is not None and isinstance(self.process, ProcessRun):
-            self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessRun):
-            process._output_material = self
-            self._process = process
-        else:
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
             raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
+        if isinstance(self._process, ProcessRun):
+            self._process._output_material = None
+        self._process = process
+        if isinstance(process, ProcessRun):
+            process._output_material = self
+
     @property
     def measurements(self) -> List[MeasurementRunType]:
         """Measurements performed on this material.
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 3410028..11543ea 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,18 +95,14 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if self.process is not None and isinstance(self.process, ProcessSpec):
-            self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessSpec):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
+            raise TypeError("process must be a ProcessSpec or LinkByUID: {}".format(process))
+
+        if isinstance(self._process, ProcessSpec):
+            self._process._output_material = None
+        self._process = process
+        if isinstance(process, ProcessSpec):
             process._output_material = self
-            self._process = process
-        else:
-            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
-                            f"instead received type {type(process)}: {process}")
 
     @staticmethod
     def _template_type() -> Type:
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index bcdcdc3..29aecae 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -91,18 +91,18 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
+        if value is not None and not isinstance(value, (MaterialRun, LinkByUID)):
+            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+
         if isinstance(self._material, MaterialRun):
             remaining = self._material.measurements
             index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
             del remaining[remaining.index(self) if index is None else index]
 
-        if value is None or isinstance(value, (MaterialRun, LinkByUID)):
-            self._material = value
-            if isinstance(value, MaterialRun):
-                value.measurements.append(self)
-        else:
-            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+        self._material = value
+        if isinstance(value, MaterialRun):
+            value.measurements.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
-- 
2.43.0


From a45078ffe18392233cfb03f9852c93da34f9a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:56 +0000
Subject: [PATCH 11/28] fix: leaving a process does not detach another material
 that it produces

---
 gemd/entity/object/material_run.py  | 4 +++-
 gemd/entity/object/material_spec.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index 3da25eb..99b18be 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -78,7 +78,9 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
             raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
         if isinstance(self._process, ProcessRun):
-            self._process._output_material = None
+            output = self._process.output_material
+            if output is self or isinstance(output, LinkByUID):
+                self._process._output_material = None
         self._process = process
         if isinstance(process, ProcessRun):
             process._output_material = self
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 11543ea..7df1d2c 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -99,7 +99,9 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
             raise TypeError("process must be a ProcessSpec or LinkByUID: {}".format(process))
 
         if isinstance(self._process, ProcessSpec):
-            self._process._output_material = None
+            output = self._process.output_material
+            if output is self or isinstance(output, LinkByUID):
+                self._process._output_material = None
         self._process = process
         if isinstance(process, ProcessSpec):
             process._output_material = self
-- 
2.43.0


From 93114f12160d57fc0bd59f4332a7675a13244bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 12/28] fix: CaseInsensitiveDict.update refuses clashing new
 keys before changing anything and takes pairs

---
 gemd/entity/case_insensitive_dict.py | 29 +++++++++++-----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..dbd14ff 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,24 +157,17 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
-            if key.lower() in self.lowercase_dict:
-                prev = self.lowercase_dict[key.lower()]
-                if prev != key:
-                    raise ValueError(
-                        "Key '{}' already exists in dict with different case: "
-                        "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
-            self._register_key(key)
+        incoming = dict(() if mapping is None else mapping, **kwargs)
+        lowercase = {}
+        for key in incoming:
+            first = lowercase.setdefault(key.lower(), key)
+            prev = self.lowercase_dict.get(key.lower(), first)
+            if prev != key:
+                raise ValueError(
+                    "Key '{}' already exists in dict with different case: "
+                    "'{}'".format(key, prev))
+        super().update(incoming)
+        self.lowercase_dict.update(lowercase)
 
     def _register_key(self, key: str) -> None:
         """
-- 
2.43.0


From e2afb27074782bbb851a5732440ec088481a5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 13/28] fix: CaseInsensitiveDict.setdefault and |= keep the
 case-insensitive index

---
 gemd/entity/case_insensitive_dict.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index dbd14ff..863c8d5 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -169,6 +169,32 @@ class CaseInsensitiveDict(dict):
         super().update(incoming)
         self.lowercase_dict.update(lowercase)
 
+    def __ior__(self, other) -> 'CaseInsensitiveDict':
+        self.update(other)
+        return self
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, storing a default if it is missing.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store and return if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`.
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From ec191a5300bcdcb4875c8dd5d0d710b007e353c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 14/28] fix: uids may have scopes named like the parameters of
 CaseInsensitiveDict

---
 gemd/entity/base_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..c5cd350 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -54,9 +54,9 @@ class BaseEntity(DictSerializable):
         if uids is None:
             self._uids = CaseInsensitiveDict()
         elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+            self._uids = CaseInsensitiveDict(dict(**uids))
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict(dict(**{uids[0]: uids[1]}))
 
     def add_uid(self, scope: str, uid: str):
         """
-- 
2.43.0


From 5bb3940ed4904e5de459984eee3fd05c8b0100ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:58 +0000
Subject: [PATCH 15/28] fix: lists built from one-shot iterators keep their
 elements

---
 gemd/entity/template/has_condition_templates.py |  3 ++-
 gemd/entity/template/has_parameter_templates.py |  3 ++-
 gemd/entity/template/has_property_templates.py  |  3 ++-
 gemd/entity/valid_list.py                       | 10 +++++-----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d8074ef..2faaf67 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -63,7 +63,8 @@ class HasConditionTemplates(HasDependencies):
             List of this entity's condition template/bounds pairs
 
         """
-        if isinstance(conditions, Iterable):
+        if isinstance(conditions, Iterable) and not isinstance(conditions, str):
+            conditions = list(conditions)  # So that one-shot iterators are only consumed once
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a004ca1..2a51b4c 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -63,7 +63,8 @@ class HasParameterTemplates(HasDependencies):
             List of this entity's parameter template/bounds pairs
 
         """
-        if isinstance(parameters, Iterable):
+        if isinstance(parameters, Iterable) and not isinstance(parameters, str):
+            parameters = list(parameters)  # So that one-shot iterators are only consumed once
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 818da97..3d50ab1 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -61,7 +61,8 @@ class HasPropertyTemplates(HasDependencies):
             as any restrictions on those templates' bounds.
 
         """
-        if isinstance(properties, Iterable):
+        if isinstance(properties, Iterable) and not isinstance(properties, str):
+            properties = list(properties)  # So that one-shot iterators are only consumed once
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..af4db5f 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # So that one-shot iterators are only consumed once
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -149,12 +149,12 @@ class ValidList(list):
 
         """
         if isinstance(list_, Iterable):
-            for value in list_:
+            cache = list(list_)  # So that we don't edit a passed reference
+            for value in cache:
                 self._validate(value)
         else:
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
-        cache = list(list_)  # So that we don't edit a passed reference
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
-- 
2.43.0


From 3b7db58686abfeaba264be0c96fd84ac3fe22170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:58 +0000
Subject: [PATCH 16/28] fix: slice assignment to and += on a ValidList validate
 the new elements

---
 gemd/entity/valid_list.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index af4db5f..b5e1b73 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -89,10 +89,10 @@ class ValidList(list):
 
         Parameters
         ----------
-        index: int
-            The index of the element of the list to change
+        index: int or slice
+            The index of the element (or elements) of the list to change
         value: Any
-            The value to set the element to
+            The value to set the element to (or an iterable of values, for a slice)
 
         Returns
         -------
@@ -100,6 +100,11 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
+        if isinstance(index, slice):
+            value = ValidList(value, self._content_type, self._trigger)
+            super().__setitem__(index, value)
+            return
+
         self._validate(value)
         if self._trigger is not None:
             result = self._trigger(value)
@@ -107,6 +112,11 @@ class ValidList(list):
                 value = result
         super().__setitem__(index, value)
 
+    def __iadd__(self, list_):
+        """Extend the list in place, subject to the same validation as `extend`."""
+        self.extend(list_)
+        return self
+
     def append(self, value):
         """
         Add an item to the end of the list; equivalent to a[len(a):] = [x].
-- 
2.43.0


From c666c7eb087990d28b5ef1da95f12399a419aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:57 +0000
Subject: [PATCH 17/28] fix: lists of entities compare as multisets, whichever
 side they are on

---
 gemd/entity/base_entity.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index c5cd350..de295de 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -176,26 +176,23 @@ class BaseEntity(DictSerializable):
 
                 # Finally crawl and compare
                 for x in this_list:
-                    found = False
                     i_found = None
-                    if isinstance(x, BaseEntity):
-                        for i_found, y in enumerate(that_list):
-                            # Unless something really broke, y is a BaseEntity
+                    for i, y in enumerate(that_list):
+                        if isinstance(x, BaseEntity) and isinstance(y, BaseEntity):
                             result = BaseEntity._cached_equals(x, y, cache=cache)
-                            if result is True:
-                                found = True
-                                break
-                            elif result is None:
-                                # Don't know yet; pass as False will appear elsewhere
-                                found = None
-                    else:
-                        found = x in that_list
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
+                        else:
+                            result = x is y or x == y
+                        if result is None:
+                            # Don't know yet; pass as False will appear elsewhere
+                            if i_found is None:
+                                i_found = i
+                        elif result:
+                            i_found = i
+                            break
+                    if i_found is None:
                         cache[cache_key] = False  # Mark as failed
                         return False
+                    del that_list[i_found]
 
             elif this_value != that_value:  # __eq__ should be cheap
                 cache[cache_key] = False  # Mark as failed
-- 
2.43.0


From 02348e334ef759b949486b18cc98392472d14e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:38 +0000
Subject: [PATCH 18/28] fix: an entity does not equal a link without an id

---
 gemd/entity/base_entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index de295de..ed17940 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -205,7 +205,7 @@ class BaseEntity(DictSerializable):
     def __eq__(self, other):
         from gemd.entity.link_by_uid import LinkByUID
         if isinstance(other, LinkByUID):
-            return self.uids.get(other.scope) == other.id
+            return other.scope in self.uids and self.uids[other.scope] == other.id
         elif isinstance(other, tuple):
             return len(other) == 2 and other[0] in self.uids and self.uids[other[0]] == other[1]
         elif isinstance(other, BaseEntity):
-- 
2.43.0


From 19875b7957f61b66fef80d87a19d9286ee36b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:38 +0000
Subject: [PATCH 19/28] fix: comparing an entity with an arbitrary pair does
 not raise

---
 gemd/entity/base_entity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index ed17940..2a0247c 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -207,7 +207,8 @@ class BaseEntity(DictSerializable):
         if isinstance(other, LinkByUID):
             return other.scope in self.uids and self.uids[other.scope] == other.id
         elif isinstance(other, tuple):
-            return len(other) == 2 and other[0] in self.uids and self.uids[other[0]] == other[1]
+            return len(other) == 2 and isinstance(other[0], str) \
+                and other[0] in self.uids and self.uids[other[0]] == other[1]
         elif isinstance(other, BaseEntity):
             # We have to be a little clever for efficiency and to avoid infinite recursion
             return BaseEntity._cached_equals(self, other)
-- 
2.43.0


From 944cf784ef643e8adb90e9aee3fdc0fde8a674a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:23 +0000
Subject: [PATCH 20/28] fix: entity equality forgets matches that presumed a
 pair found to differ

---
 gemd/entity/base_entity.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 2a0247c..e7b0e1c 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -136,18 +136,30 @@ class BaseEntity(DictSerializable):
         if cache_key in cache:
             return cache[cache_key]
         cache[cache_key] = None  # Mark as in progress
+        n_cached = len(cache)
+        cache[cache_key] = BaseEntity._fields_equal(this, that, cache=cache)
+        if not cache[cache_key]:
+            # Matches found along the way may have presumed that this pair would match, too
+            later = [cache.popitem() for _ in range(len(cache) - n_cached)]
+            cache.update((k, v) for k, v in later if v is False)
+        return cache[cache_key]
 
+    @staticmethod
+    def _fields_equal(this: "BaseEntity",
+                      that: "BaseEntity",
+                      *,
+                      cache: Dict[FrozenSet, Optional[bool]]
+                      ) -> bool:
+        """Compare the fields of two Base Entities, given what is known of other pairs."""
         this_dict = this._dict_for_compare()
         that_dict = that._dict_for_compare()
         if this_dict.keys() != that_dict.keys():
-            cache[cache_key] = False  # Mark as failed
             return False
 
         # Check UIDs for an easy potential win
         this_uids = this_dict.pop("uids")
         that_uids = that_dict.pop("uids")
         if this_uids != that_uids:
-            cache[cache_key] = False  # Mark as failed
             return False
 
         # Crawl rest of values to verify they align
@@ -156,7 +168,6 @@ class BaseEntity(DictSerializable):
             that_value = that_dict[key]
             if isinstance(this_value, BaseEntity) and isinstance(that_value, BaseEntity):
                 if BaseEntity._cached_equals(this_value, that_value, cache=cache) is False:
-                    cache[cache_key] = False  # Mark as failed
                     return False
             elif isinstance(this_value, Iterable) and isinstance(that_value, Iterable) \
                     and not isinstance(this_value, str) and not isinstance(that_value, str):
@@ -171,7 +182,6 @@ class BaseEntity(DictSerializable):
                     if len(that_list) == 0:
                         if len(that_uids) > 0:  # But if it was flattened, uids will save us
                             continue
-                    cache[cache_key] = False  # Mark as failed
                     return False
 
                 # Finally crawl and compare
@@ -190,16 +200,13 @@ class BaseEntity(DictSerializable):
                             i_found = i
                             break
                     if i_found is None:
-                        cache[cache_key] = False  # Mark as failed
                         return False
                     del that_list[i_found]
 
             elif this_value != that_value:  # __eq__ should be cheap
-                cache[cache_key] = False  # Mark as failed
                 return False
 
-        cache[cache_key] = True  # All tests passed
-        return True
+        return True  # All tests passed
 
     # Note that this could violate transitivity -- Link(scope1) == obj == Link(scope2)
     def __eq__(self, other):
-- 
2.43.0


From bba850c48f32e0f21e39ebc8a79706f50a038cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 21/28] Leave ingredient_spec.py and material_spec.py as they
 were (recorded as known findings instead)

---
 gemd/entity/object/ingredient_spec.py | 18 ++++++++----------
 gemd/entity/object/material_spec.py   | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 11ff9d4..7a2f8d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,19 +117,17 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
-        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
-
         if isinstance(self._process, ProcessSpec):
-            remaining = self._process.ingredients
-            index = next((i for i, x in enumerate(remaining) if x is self), None)
             # This could throw an exception if it's not in the list, but then something else broke
-            del remaining[remaining.index(self) if index is None else index]
+            self._process.ingredients.remove(self)
 
-        self._process = process
-        if isinstance(process, ProcessSpec):
-            process.ingredients.append(self)
+        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            self._process = process
+            if isinstance(process, ProcessSpec):
+                process.ingredients.append(self)
+        else:
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 7df1d2c..3410028 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,16 +95,18 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
-            raise TypeError("process must be a ProcessSpec or LinkByUID: {}".format(process))
-
-        if isinstance(self._process, ProcessSpec):
-            output = self._process.output_material
-            if output is self or isinstance(output, LinkByUID):
-                self._process._output_material = None
-        self._process = process
-        if isinstance(process, ProcessSpec):
+        if self.process is not None and isinstance(self.process, ProcessSpec):
+            self.process._output_material = None
+        if process is None:
+            self._process = None
+        elif isinstance(process, LinkByUID):
+            self._process = process
+        elif isinstance(process, ProcessSpec):
             process._output_material = self
+            self._process = process
+        else:
+            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
+                            f"instead received type {type(process)}: {process}")
 
     @staticmethod
     def _template_type() -> Type:
-- 
2.43.0


From d7be5f65c11d598e0598cbbf7a28eaeebc84a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:48 +0000
Subject: [PATCH 22/28] fix: substitution keeps values apart that are equal but
 of different types, and takes any tuple

---
 gemd/util/impl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..8259dca 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,12 +107,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Other things may be unhashable inside, or equal to something of a different type
+    memoize = cached_isinstance(thing, DictSerializable)
+    if memoize and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if memoize:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +133,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if memoize:
         visited[thing] = new
 
     return new
-- 
2.43.0


From 934ae378f7a4bc68e9211533f7df20fb3b0b802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:48 +0000
Subject: [PATCH 23/28] fix: in-place substitution takes any tuple, and does
 not mistake one for a link

---
 gemd/util/impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 8259dca..6b6d5c9 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -160,7 +160,7 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, tuple)):
             return None
         elif obj.__hash__ is not None:
             return obj
@@ -185,7 +185,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
-- 
2.43.0


From a3964640d4868cf5825d3159a8bfb72ce4a07494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:48 +0000
Subject: [PATCH 24/28] fix: graph traversals take tuples of unhashable content
 and lists that contain themselves

---
 gemd/util/impl.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 6b6d5c9..feb1a04 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -414,16 +414,20 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
     None
 
     """
-    seen = set()
+    seen = {}
     queue = [obj]
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
-            if this in seen:
-                continue
-            else:
-                seen.add(this)
+        if cached_isinstance(this, (str, ByteString)):
+            continue  # There is nothing within to visit
+
+        # Containers that cannot be hashed, or might contain one, are recognized by identity
+        by_id = this.__hash__ is None or cached_isinstance(this, tuple)
+        key = (id(this),) if by_id else this
+        if key in seen:
+            continue
+        seen[key] = this  # Keep a reference, so that the id is not reused
 
         if apply_first and cached_isinstance(this, BaseEntity):
             func(this)
@@ -472,17 +476,21 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
 
     """
     res = []
-    seen = set()
+    seen = {}
     queue = [obj]
 
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
-            if this in seen:
-                continue
-            else:
-                seen.add(this)
+        if cached_isinstance(this, (str, ByteString)):
+            continue  # There is nothing within to visit
+
+        # Containers that cannot be hashed, or might contain one, are recognized by identity
+        by_id = this.__hash__ is None or cached_isinstance(this, tuple)
+        key = (id(this),) if by_id else this
+        if key in seen:
+            continue
+        seen[key] = this  # Keep a reference, so that the id is not reused
 
         if cached_isinstance(this, BaseEntity):
             res.extend(func(this))
-- 
2.43.0


From 3cd3c0ccc5685565bda639ad7c9e687d441e80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 25/28] fix: add_edge takes quantities given as integers

---
 gemd/builders/impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..bf0e513 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -159,22 +159,22 @@ def add_edge(input_material: MaterialRun,
                                       )
 
     if mass_fraction is not None:
-        if isinstance(mass_fraction, float):
+        if isinstance(mass_fraction, (int, float)):
             mass_fraction = NominalReal(nominal=mass_fraction, units='')
         my_ingredient_run.mass_fraction = mass_fraction
 
     if number_fraction is not None:
-        if isinstance(number_fraction, float):
+        if isinstance(number_fraction, (int, float)):
             number_fraction = NominalReal(nominal=number_fraction, units='')
         my_ingredient_run.number_fraction = number_fraction
 
     if volume_fraction is not None:
-        if isinstance(volume_fraction, float):
+        if isinstance(volume_fraction, (int, float)):
             volume_fraction = NominalReal(nominal=volume_fraction, units='')
         my_ingredient_run.volume_fraction = volume_fraction
 
     if absolute_quantity is not None:
-        if isinstance(absolute_quantity, float):
+        if isinstance(absolute_quantity, (int, float)):
             if absolute_units is None:
                 raise ValueError("Absolute Units are required if Absolute Quantity is not a Value")
             absolute_quantity = NominalReal(nominal=absolute_quantity, units=absolute_units)
-- 
2.43.0


From d0ea9623af67582adf026efb6745ea5cf5454015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 26/28] fix: InChI normalises the prefix only, not later
 occurrences of the same text

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..df326e8 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = f"InChI=1S{value[2:]}"
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = f"InChI{value[5:]}"
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From 8292065f1a2499f20fdf2262c581a21acad054de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 27/28] fix: integer values refuse infinities with a TypeError,
 not an OverflowError

---
 gemd/entity/value/nominal_integer.py | 3 ++-
 gemd/entity/value/uniform_integer.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/value/nominal_integer.py b/gemd/entity/value/nominal_integer.py
index 5be33d5..3ef5008 100644
--- a/gemd/entity/value/nominal_integer.py
+++ b/gemd/entity/value/nominal_integer.py
@@ -29,7 +29,8 @@ class NominalInteger(IntegerValue, typ="nominal_integer"):
     def nominal(self, nominal: int) -> None:
         """A proscribed integer value without uncertainty."""
         # This check/cast is necessary to handle JSON serialization behavior under 3.6
-        if not isinstance(nominal, (int, float)) or int(nominal) != nominal:
+        if not isinstance(nominal, (int, float)) or \
+                (isinstance(nominal, float) and not nominal.is_integer()):
             raise TypeError("nominal must be an int; got an {}({})".format(type(nominal), nominal))
 
         self._nominal = int(nominal)
diff --git a/gemd/entity/value/uniform_integer.py b/gemd/entity/value/uniform_integer.py
index 40cdb93..4fc8d19 100644
--- a/gemd/entity/value/uniform_integer.py
+++ b/gemd/entity/value/uniform_integer.py
@@ -34,7 +34,8 @@ class UniformInteger(IntegerValue, typ="uniform_integer"):
     def lower_bound(self, lower_bound: int) -> None:
         """The lower bound of a uniform distribution."""
         # This check/cast is necessary to handle JSON serialization behavior under 3.6
-        if not isinstance(lower_bound, (int, float)) or int(lower_bound) != lower_bound:
+        if not isinstance(lower_bound, (int, float)) or \
+                (isinstance(lower_bound, float) and not lower_bound.is_integer()):
             raise TypeError(
                 "lower_bound must be an int; got {}({})".format(type(lower_bound), lower_bound))
         if self._upper_bound is not None:
@@ -53,7 +54,8 @@ class UniformInteger(IntegerValue, typ="uniform_integer"):
     def upper_bound(self, upper_bound: int) -> None:
         """The upper bound of a uniform distribution."""
         # This check/cast is necessary to handle JSON serialization behavior under 3.6
-        if not isinstance(upper_bound, (int, float)) or int(upper_bound) != upper_bound:
+        if not isinstance(upper_bound, (int, float)) or \
+                (isinstance(upper_bound, float) and not upper_bound.is_integer()):
             raise TypeError(
                 "upper_bound must be an int; got {}({})".format(type(upper_bound), upper_bound))
         if self.lower_bound > upper_bound:
-- 
2.43.0


From d3edcd3f15d16f760c724cc5388fb0d6d86aa4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 28/28] fix: object templates refuse attribute templates of
 another kind in (template, bounds) pairs

---
 gemd/entity/template/base_template.py           | 11 +++++++----
 gemd/entity/template/has_condition_templates.py |  4 +++-
 gemd/entity/template/has_parameter_templates.py |  4 +++-
 gemd/entity/template/has_property_templates.py  |  4 +++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/base_template.py b/gemd/entity/template/base_template.py
index 7620e43..d8a168c 100644
--- a/gemd/entity/template/base_template.py
+++ b/gemd/entity/template/base_template.py
@@ -4,7 +4,7 @@ from gemd.entity.bounds.base_bounds import BaseBounds
 from gemd.entity.link_by_uid import LinkByUID
 from gemd.entity.template.attribute_template import AttributeTemplate
 
-from typing import Union, Iterable, Mapping
+from typing import Union, Iterable, Mapping, Type
 
 __all__ = ["BaseTemplate"]
 
@@ -44,7 +44,8 @@ class BaseTemplate(BaseEntity):
     def _homogenize_ranges(template_or_tuple: Union[AttributeTemplate,
                                                     LinkByUID,
                                                     Iterable[Union[AttributeTemplate,
-                                                                   BaseBounds]]]):
+                                                                   BaseBounds]]],
+                           template_type: Type[AttributeTemplate] = AttributeTemplate):
         """
         Take either a template or pair and turn it into a (template, bounds) pair.
 
@@ -56,6 +57,8 @@ class BaseTemplate(BaseEntity):
         tuple [AttributeTemplate or LinkByUID, BaseBounds]
            An attribute template, optionally with another Bounds object that is more
            restrictive than the attribute template's default bounds.
+        template_type: type
+           The class of attribute template that is expected in this context.
 
         Returns
         -------
@@ -65,13 +68,13 @@ class BaseTemplate(BaseEntity):
 
         """
         # if given a template only, use None to represent passthrough bounds
-        if isinstance(template_or_tuple, (AttributeTemplate, LinkByUID)):
+        if isinstance(template_or_tuple, (template_type, LinkByUID)):
             return [template_or_tuple, None]
         # if given a (template, bounds) pair,
         # check that the bounds is consistent with that of the template
         elif isinstance(template_or_tuple, (tuple, list)):
             first, second = template_or_tuple
-            if isinstance(first, (LinkByUID, AttributeTemplate)) and \
+            if isinstance(first, (LinkByUID, template_type)) and \
                     (isinstance(second, BaseBounds) or second is None):
                 if isinstance(first, AttributeTemplate) and isinstance(second, BaseBounds):
                     if not first.bounds.contains(second):
diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 2faaf67..ab00351 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.condition_template import ConditionTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasConditionTemplates"]
@@ -69,7 +70,8 @@ class HasConditionTemplates(HasDependencies):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
                                          (ConditionTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ConditionTemplate)
                                          )
 
     def validate_condition(self, condition: ConditionType) -> bool:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 2a51b4c..e226587 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.parameter_template import ParameterTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasParameterTemplates"]
@@ -69,7 +70,8 @@ class HasParameterTemplates(HasDependencies):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
                                          (ParameterTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ParameterTemplate)
                                          )
 
     def validate_parameter(self, parameter: ParameterType) -> bool:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 3d50ab1..ade3d50 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.property_template import PropertyTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Set, Tuple
 
 __all__ = ["HasPropertyTemplates"]
@@ -67,7 +68,8 @@ class HasPropertyTemplates(HasDependencies):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
                                          (PropertyTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=PropertyTemplate)
                                          )
 
     def validate_property(self, prop: Union[PropertyType, PropertyAndConditionsType]) -> bool:
-- 
2.43.0

