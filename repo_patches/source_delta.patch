From b4e15b9d1e563e438ebde6b1bc3c8fda75f4c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 001/198] fix: syntax error in GraphicSceneScope.add_as_path

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From 954ab0a03a4d12e0d2bc02cfd2eb44f75ff898c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 002/198] fix: GraphicItemMixin cannot be imported (wrong
 package name, undefined annotations)

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..4bdf175 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
@@ -59,7 +59,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', user_data: Any) -> None:
         self._scene = scene
         self._user_data = user_data
 
@@ -75,7 +75,7 @@ class GraphicItem:
     ##############################################
 
     @property
-    def scene(self) -> GraphicScene:
+    def scene(self) -> 'GraphicScene':
         return self._scene
 
     @property
@@ -177,7 +177,7 @@ class PathStyleItemMixin(GraphicItem):
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, path_style: GraphicPathStyle, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', path_style: GraphicPathStyle, user_data: Any) -> None:
         GraphicItem.__init__(self, scene, user_data)
         self._path_style = path_style
 
@@ -270,7 +270,7 @@ class ThreePositionMixin(TwoPositionMixin):
         return self._position3
 
     @property
-    def positions(self) -> list(Vector2D, Vector2D, Vector2D):
+    def positions(self) -> tuple[Vector2D, Vector2D, Vector2D]:
         return (self._position1, self._position2, self._position3)
 
 ####################################################################################################
-- 
2.43.0


From 6c136231c091c481757ba999a5ca714015f9c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 003/198] fix: ValentinaMeasurement imports the renamed
 MeasurementSet class

---
 Patro/Measurement/ValentinaMeasurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From 996c3b50940e63e9b50deac124af513512e9c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 004/198] fix: ValentinaMeasurements.add must return the
 measurement like MeasurementSet.add

---
 Patro/Measurement/ValentinaMeasurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4557f3c..199823e 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -91,8 +91,9 @@ class ValentinaMeasurements(MeasurementSet):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> None:
+    def add(self, *args: list, **kgwars: dict) -> ValentinaMeasurement:
         # Fixme: name ?
         measurement = super().add(*args, **kgwars)
         if measurement.is_custom():
             self._measurements[measurement.valentina_name] = measurement
+        return measurement
-- 
2.43.0


From a4a78ced4e591164e588a13b80905c0337916718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 005/198] fix: ValentinaMeasurement must accept a numeric value

---
 Patro/Measurement/ValentinaMeasurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 199823e..8ef34d6 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -65,7 +65,7 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        value = self.replace_custom_prefix(str(value))
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
-- 
2.43.0


From ce31bed7dc94e6858e566e75511814ecd304c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 006/198] fix: misspelled encoding in
 MeasurementSet.save_as_yaml and load_yaml

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..87391ca 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From 6efcfdc2c89cbe6bb0ed7584e4b30bb4c58c5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 007/198] fix: measurement value was rounded to 3 significant
 digits

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 87391ca..b9c5205 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression.evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From 7138308b7ce5496d75ac9bd60d87b33f2270bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 008/198] fix: chained measurements were only resolved in
 alphabetical order

---
 Patro/Measurement/Measurement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index b9c5205..3672dd2 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -207,7 +207,14 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        expression = measurement.expression
+        # sympy substitutes in one pass: a substitution can introduce a symbol which was already visited
+        for _ in range(len(self._expressions)):
+            new_expression = expression.subs(self._expressions)
+            if new_expression == expression:
+                break
+            expression = new_expression
+        return expression
 
     ##############################################
 
-- 
2.43.0


From fb2e40e1df7b9c48923175b7adbea211b4a490ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 009/198] fix: don't cache an expression evaluated before its
 measurements are defined

---
 Patro/Measurement/Measurement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 3672dd2..7aed8d9 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,11 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            evaluated_expression = self._measurements.subs(self)
+            if evaluated_expression.free_symbols:
+                # depends on measurements which are not yet defined
+                return evaluated_expression
+            self._evaluated_expression = evaluated_expression
         return self._evaluated_expression
 
     @property
-- 
2.43.0


From 238658665ccc8c67c6ccee828c9c10304e7fde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 010/198] fix: MeasurementSet.__getattr__ must raise
 AttributeError (hasattr, copy)

---
 Patro/Measurement/Measurement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 7aed8d9..74c9bbb 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -193,7 +193,10 @@ class MeasurementSet:
         return self._measurements[name]
 
     def __getattr__(self, name: str) -> Measurement:
-        return self._measurements[name]
+        try:
+            return self.__dict__['_measurements'][name]
+        except KeyError:
+            raise AttributeError(name) from None
 
     # Note: __setattr__ is called for by setattr
 
-- 
2.43.0


From 8e14298e34a6a69a464f72d22818a31e2347faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 011/198] fix: AtomicCounter.increment must read the new value
 while holding the lock

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From 713cc8859e77b8e81f4c803bf8b48c04a5195ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 012/198] fix: DAG node ancestor property returns an attribute
 that does not exist

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..d9bb62e 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -59,7 +59,7 @@ class DirectedAcyclicGraphNode:
 
     @property
     def ancestor(self):
-        return self._ancestor
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From 1cc4b4c7647d245b02759fb4143fb9edfbee42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 013/198] fix: an expression with several custom measurements
 only substituted the last one

---
 Patro/Pattern/Calculator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..535525a 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -276,7 +277,8 @@ class Expression:
                     custom_measurements.append(name)
             for measurement in custom_measurements:
                 py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
+                # match the whole identifier
+                expression = re.sub(measurement + r'(?!\w)', py_name, expression)
 
         # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
         functions = []
-- 
2.43.0


From daff9d310d5dbaba5259bdfac303936740ae89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 014/198] fix: special functions were substituted inside longer
 identifiers

---
 Patro/Pattern/Calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 535525a..55f4c27 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -306,7 +306,8 @@ class Expression:
             args = parts[1:]
             pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
             # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+            # match the whole identifier, e.g. Line_A_B must not match in AngleLine_A_B or Line_A_B1
+            expression = re.sub(r'(?<!\w)' + function_call + r'(?!\w)', pythonised_function, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From 8db4a292e08a6b095c01679d5e187c725be758c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 015/198] fix: only Line_ functions were registered as
 dependencies of an expression

---
 Patro/Pattern/Calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 55f4c27..6157ed6 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -69,7 +69,7 @@ class NodeVisitor(ast.NodeVisitor):
         function = node.func
         if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
             dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
+            if function.attr.startswith('_function_'): # catched _function_Line.__calculator__
                 for arg in node.args:
                     dependence = self._calculator._name_to_point(arg.s)
                     self._dependencies.append(dependence)
-- 
2.43.0


From ee118ec0e95b7ec9a115b1b521391d7d942f5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 016/198] fix: vit reader requires an undocumented customer
 element and ignores the names, empty email is read as 'None'

---
 Patro/FileFormat/Valentina/Measurement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..eaf9ce7 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -97,12 +97,12 @@ class VitFileInternal(XmlFileMixin):
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
         # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
+        personal.customer = self.get_text_element(personal_element, 'customer')
+        personal.last_name = self.get_text_element(personal_element, 'family-name') or ''
+        personal.first_name = self.get_text_element(personal_element, 'given-name') or ''
         personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
         personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        personal.email = self.get_text_element(personal_element, 'email') or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-- 
2.43.0


From 1bb10a8db58ba5c9f413d94ce479a46dbd65a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 017/198] fix: vit reader drops the unit and the pattern making
 system of the measurements

---
 Patro/FileFormat/Valentina/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index eaf9ce7..dc25801 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -91,8 +91,8 @@ class VitFileInternal(XmlFileMixin):
         version = self.get_xpath_element(tree, 'version').text
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.get_xpath_element(tree, 'unit').text
+        measurements.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-- 
2.43.0


From 587c8e155ba91fc74367a04e8cbd4e32f002af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 018/198] fix: a Valentina custom measurement was listed twice
 in its measurement set

---
 Patro/Measurement/ValentinaMeasurement.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 8ef34d6..8a053b3 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -91,9 +91,6 @@ class ValentinaMeasurements(MeasurementSet):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> ValentinaMeasurement:
-        # Fixme: name ?
-        measurement = super().add(*args, **kgwars)
-        if measurement.is_custom():
-            self._measurements[measurement.valentina_name] = measurement
-        return measurement
+    def __getitem__(self, name: str) -> ValentinaMeasurement:
+        # a custom measurement can also be retrieved using its Valentina name
+        return super().__getitem__(ValentinaMeasurement.replace_custom_prefix(name))
-- 
2.43.0


From 773990b328a030c9b71a63c3981c084c7b86c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 019/198] fix: a null vector was true (python 2 __nonzero__),
 its orientation was defined

---
 Patro/GeometryEngine/Vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..4ae22e4 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -146,7 +146,7 @@ class Vector2DBase(Primitive, Primitive2DMixin):
 
     ##############################################
 
-    def __nonzero__(self) -> bool:
+    def __bool__(self) -> bool:
         return bool(self._v.any())
 
     ##############################################
-- 
2.43.0


From b15b87450988502b88565a8ce1e9613c242df676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 020/198] fix: Line2D distance between abscissae calls a
 property

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..480b6d7 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -101,7 +101,7 @@ class Line2D(Primitive2DMixin, Primitive):
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
-- 
2.43.0


From 08ee3ae302d8deef28d71285aa8ecf5387b0922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 021/198] fix: Line2D projected point is wrong when the vector
 is not unitary

---
 Patro/GeometryEngine/Line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 480b6d7..b6aa87c 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -210,7 +210,8 @@ class Line2D(Primitive2DMixin, Primitive):
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-        return self.interpolate(self.projected_abscissa(point))
+        # the projected abscissa is a length
+        return self.point_at_distance(self.projected_abscissa(point), self.p)
 
     def triangle_projected_point(self, point: Vector2D, distance: float, reverse: bool=False) -> Vector2D:
         p = self.projected_point(point)
-- 
2.43.0


From c5554dbbc000299bc1e110bc25124ee025aaeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 022/198] fix: a cloned Line2D shared its point and vector

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index b6aa87c..697186e 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
-- 
2.43.0


From 924f5e317792ebb51cd83ece319f0aa961676181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 023/198] fix: Segment2D.contain_point ignored the distance and
 compared a length with 1

---
 Patro/GeometryEngine/Segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..901e2b1 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -217,4 +217,4 @@ class Segment2D(Primitive2DMixin, Primitive2P):
         # Fixme: check d / is collinear
         # Fixme: p2 <- p1
         #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return round(d, 7) == 0 and 0 <= round(s, 7) <= round(self.length, 7)
-- 
2.43.0


From 562f0f98f36f9a17456a0e67beb9831fe876ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 024/198] fix: generic Transformation2D cannot be built
 (misspelled method)

---
 Patro/GeometryEngine/Transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..595a1c5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -254,7 +254,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     @classmethod
-    def check_matrix_type(self, matrix):
+    def check_matrix_type(cls, matrix):
 
         # Fixme: check
         m00, m01, m10, m11 = matrix
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
-- 
2.43.0


From 90ffd2b0e3e6104d6eb0079330a8d8dffe332022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 025/198] fix: type of a generic AffineTransformation2D was
 None

---
 Patro/GeometryEngine/Transformation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 595a1c5..39a5abd 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -370,7 +370,12 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        else:
+            return TransformationType.Generic
 
     ##############################################
 
-- 
2.43.0


From e0f1fd618e901f4889048127057ae0b02a8456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 026/198] fix: Transformation copy compared the size of a
 matrix with a dimension

---
 Patro/GeometryEngine/Transformation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 39a5abd..5b3fcb8 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -118,7 +118,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
-- 
2.43.0


From 79018799b13d2817e8ac7a30c7c91b92adf90f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 027/198] fix: reverse of a primitive returned the primitive
 itself (method resolution order)

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..4ee4a49 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -360,7 +360,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -432,7 +432,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -597,7 +597,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From 285b52e0791570b86eee739a397d25bf61c3863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 028/198] fix: Primitive3P and Primitive4P
 iter_from_second_point raised a TypeError

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 4ee4a49..5f08115 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -536,7 +536,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +588,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
-- 
2.43.0


From e14b45a56be79ab9f165b795baaed38830152f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 029/198] fix: point_array of a N-points primitive was an array
 of an iterator

---
 Patro/GeometryEngine/Primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 5f08115..2ed2584 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,8 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        # points can be an iterator
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
-- 
2.43.0


From 8b89e764a082e06b8cab1186f817a58cc60272aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 030/198] fix: closed points of a triangle or rectangle used a
 missing attribute

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 2ed2584..a9d9566 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -325,14 +325,14 @@ class ClosedPrimitiveMixin:
     def closed_points(self):
         # Fixme: don't work for iterator
         # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        return closed_iterator(tuple(self.points))
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
         # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(tuple(self.points))
 
     ##############################################
 
@@ -429,7 +429,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
     ##############################################
 
     def _set_points(self, points):
-        self._p0 = points
+        self._p0, = points
 
 ####################################################################################################
 
-- 
2.43.0


From 4f17d4ab727016dc5a2fb2d30ff076dae8468530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 031/198] fix: Triangle2D perimeter, is_equilateral, is_scalene
 and is_isosceles raised a TypeError

---
 Patro/GeometryEngine/Triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..8a66ea6 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,10 +151,10 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # not cached since the points can change
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
-- 
2.43.0


From 6bd566bd651c8827c0ab9429ab990b926ac1c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 032/198] fix: Triangle2D is_obtuse and is_acute raised and
 compared the orientation of the edges

---
 Patro/GeometryEngine/Triangle.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 8a66ea6..7a2ff8a 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -160,10 +160,13 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        # interior angles
+        p10 = self._p1 - self._p0
+        p21 = self._p2 - self._p1
+        p02 = self._p0 - self._p2
+        self._a10 = abs(p10.angle_with(-p02))
+        self._a21 = abs(p21.angle_with(-p10))
+        self._a02 = abs(p02.angle_with(-p21))
 
     ##############################################
 
-- 
2.43.0


From 773945e5e42d958dc357ca735a0ae8f0192ff848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 033/198] fix: Triangle2D bisectors were medians when the edges
 have different lengths

---
 Patro/GeometryEngine/Triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 7a2ff8a..4de97d5 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -123,15 +123,15 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return (self._p1 - self._p0).normalise() + (self._p2 - self._p0).normalise()
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return (self._p0 - self._p1).normalise() + (self._p2 - self._p1).normalise()
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return (self._p1 - self._p2).normalise() + (self._p0 - self._p2).normalise()
 
     ##############################################
 
-- 
2.43.0


From 08bf94d013ab9666e69c704bd9837860f2b0eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 034/198] fix: to_polygon passed its points as a single one

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index a9d9566..701b21c 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -686,7 +686,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From b8be0f65a1af067ed93ef2cd348534ec1b64d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 035/198] fix: Rectangle2D constructors used an undefined name

---
 Patro/GeometryEngine/Rectangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..198bbe3 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
-- 
2.43.0


From 965037998a0f3e0fcdde4d150a257fd413cf235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 036/198] fix: Rectangle2D to_path and to_polygon failed, its
 closed points were the diagonal

---
 Patro/GeometryEngine/Rectangle.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 198bbe3..56100c4 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -75,6 +75,23 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     def p10(self):
         return self.__vector_cls__(self._p1.x, self._p0.y)
 
+    @property
+    def closed_points(self):
+        return iter((self._p0, self.p01, self._p1, self.p10, self._p0))
+
+    @property
+    def closed_pairwise_points(self):
+        return iter([(edge.p0, edge.p1) for edge in self.edges])
+
+    def iter_from_second_point(self):
+        return iter((self.p01, self._p1, self.p10))
+
+    def to_polygon(self):
+        from .Polygon import Polygon2D
+        return Polygon2D(self._p0, self.p01, self._p1, self.p10)
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From 5d0af3cf7f7fa8536da34ac52cdda9fb97ca6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 037/198] fix: Polyline2D.length used a missing attribute

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2e480c3 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -63,7 +63,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
-- 
2.43.0


From d9039ae66084ce0898dada79d71dcf53a78bef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 038/198] fix: Polyline2D.to_path used its points as
 displacements

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2e480c3..2549bc8 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -82,6 +82,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From 26416281ebb5a394668225eab2aed3f8de8717b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 039/198] fix: a transformed polygon or polyline kept its
 cached edges, area and orientation

---
 Patro/GeometryEngine/Polygon.py  | 12 ++++++++++++
 Patro/GeometryEngine/Polyline.py |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..d05de80 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -113,6 +113,18 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        PrimitiveNP._set_points(self, points)
+        # reset caches
+        self._edges = None
+        self._is_simple = None
+        self._is_convex = None
+        self._area = None
+        self._is_clockwise = None
+        self._major_axis = None
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2549bc8..13d477f 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        PrimitiveNP._set_points(self, points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From 2e4266f66b448ed3e46133decc9c1e03a866387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 040/198] fix: simple polygon test depended on the rounding of
 the intersections and ignored overlapping edges

---
 Patro/GeometryEngine/Polygon.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index d05de80..c6c0b34 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -155,25 +155,18 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
     def _test_is_simple(self):
 
         edges = self.edges # must be a list !!!
-        # intersections = []
+        number_of_edges = len(edges)
         # Test for edge intersection
-        for edge1 in edges:
-            for edge2 in edges:
-                if edge1 is not edge2:
-                    # Fixme: recompute line for edge
-                    intersection, intersect = edge1.intersection(edge2)
-                    if intersect:
-                        common_vertex = edge1.share_vertex_with(edge2)
-                        if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
-                        else:
-                            # two edge intersect
-                            # intersections.append(intersection)
-                            return False
+        for i, edge1 in enumerate(edges):
+            # next edge shares a vertex, it must not go back over this edge
+            next_edge = edges[(i+1) % number_of_edges]
+            if edge1.cross(next_edge) == 0 and edge1.vector.dot(next_edge.vector) <= 0:
+                return False
+            # other edges must not touch this edge
+            for j in range(i+2, number_of_edges):
+                if not (i == 0 and j == number_of_edges -1):
+                    if edge1.intersect_with(edges[j]):
+                        return False
         return True
 
     ##############################################
-- 
2.43.0


From d91871fde27fae70b3a2da103f810b283dc34391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 041/198] fix: a convex polygon with a vertex on a straight
 edge was concave

---
 Patro/GeometryEngine/Polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index c6c0b34..5ee7f9b 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -183,10 +183,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-        sign0 = sign(edges[-1].cross(edges[0]))
+        sign0 = 0
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            if sign(edges[i].cross(edges[next_i])) != sign0:
+            turn = sign(edges[i].cross(edges[next_i]))
+            if turn == 0: # straight
+                continue
+            if sign0 == 0:
+                sign0 = turn
+            elif turn != sign0:
                 return False
         return True
 
-- 
2.43.0


From 9c00cf6f3f2707f34a178478200ef12fe6b492eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 042/198] fix: Polygon2D.is_point_inside called missing methods
 and rejected clockwise polygons

---
 Patro/GeometryEngine/Polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5ee7f9b..5819bba 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -487,14 +487,14 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From f0774bb8823ee3d210d4bd29ab08318275f1b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 043/198] fix: Polygon2D.recenter used an uncomputed barycenter
 and kept the cached edges

---
 Patro/GeometryEngine/Polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5819bba..4bd03d8 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -416,9 +416,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From dc03599b6acfcbfcc5794f7d139ce54e3921334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 044/198] fix: RegularPolygon.ngon_name used an undefined name
 and was shifted by one

---
 Patro/GeometryEngine/Polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 4bd03d8..15f318d 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -652,10 +652,10 @@ class RegularPolygon(Polygon2D):
 
     @classmethod
     def ngon_name(cls, number_of_edges):
-        try:
-            return self.NGON_NAMES[number_of_edges]
-        except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+        if 1 <= number_of_edges <= len(cls.NGON_NAMES):
+            return cls.NGON_NAMES[number_of_edges -1]
+        else:
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From d093457111c102bd85781ec31cf3cf057d583734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 045/198] fix: convex_hull failed on aligned or duplicated
 points

---
 Patro/GeometryEngine/Polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 15f318d..686ab3f 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -705,7 +705,10 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
+        if not direction:
+            # same point
+            continue
+        data.append([point, direction, direction.orientation, None])
     data.sort(key=itemgetter(2))
 
     # if several points have the same angle then only keep the farther
-- 
2.43.0


From b9701fd4d522923890f87bddd473e2a11c52ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 046/198] fix: a convex polygon with a vertex on a straight
 edge was concave (sign of zero)

---
 Patro/GeometryEngine/Polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 686ab3f..ade613c 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -186,9 +186,10 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         sign0 = 0
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            turn = sign(edges[i].cross(edges[next_i]))
-            if turn == 0: # straight
+            cross = edges[i].cross(edges[next_i])
+            if cross == 0: # straight
                 continue
+            turn = sign(cross)
             if sign0 == 0:
                 sign0 = turn
             elif turn != sign0:
-- 
2.43.0


From c2da49e909fbfa6160d211a0a28c1f10d8b3ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 047/198] fix: QuadraticBezier2D.INVERSE_BASIS was not the
 inverse of the basis

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..a4e2090 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -214,9 +214,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
-- 
2.43.0


From 2fa23c9c88d25b0d59b03b7673f11ed9a9225a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 048/198] fix: QuadraticBezier2D.tangent1 was overridden by the
 normal, normals called a property

---
 Patro/GeometryEngine/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index a4e2090..8e238ca 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -299,13 +299,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
-- 
2.43.0


From 67d1097bfd804f06680e07036b44fb346841332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 049/198] fix: Bezier length_at_t and t_at_length used the
 tuple of the split curves

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 8e238ca..610e119 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -109,7 +109,10 @@ class BezierMixin2D(Primitive2DMixin):
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        if t <= 0:
+            length = 0
+        else:
+            length = self.split_at_t(t)[0].length # left
 
         if cache: # save
             self._length_cache[t] = length
-- 
2.43.0


From 97a1c0a1564ce5b2181956ad33e5e7daf5d1ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 050/198] fix: length of a straight quadratic Bezier curve
 raised a math domain error

---
 Patro/GeometryEngine/Bezier.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 610e119..14a8182 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -256,8 +256,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             sum_cba = c + b + a
             m0 = 0.25 / c
             m1 = q / (8 * c**1.5)
-            return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
-                    m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
+            length = m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a))
+            log0 = 2 * sqrt(c * a) + b
+            log1 = 2 * sqrt(c * sum_cba) + two_cb
+            # this term vanishes for a straight curve
+            if q > 0 and log0 > 0 and log1 > 0:
+                length += m1 * (log(log1) - log(log0))
+            return length
         else:
             return 2 * A0.magnitude
 
-- 
2.43.0


From a1dd45e96174476684d21223b9628c1bd1a1e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 051/198] fix: length of a cubic Bezier curve of degree 2
 raised a ZeroDivisionError

---
 Patro/GeometryEngine/Bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 14a8182..ff57e47 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -513,7 +513,11 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0:
+            # the curve is quadratic
+            return 1
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From 34b8d81360dd2d37f14ff3a077b40962aed7fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 052/198] fix: Bezier intersect_line used an abstract class and
 rotated the line before to translate it

---
 Patro/GeometryEngine/Bezier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index ff57e47..17714d6 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,7 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
+from .Transformation import AffineTransformation2D
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -177,9 +177,9 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
-        # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
+        # the line is mapped to the x axis
+        transformation = AffineTransformation2D.Translation(-line.p)
+        transformation *= AffineTransformation2D.Rotation(-line.v.orientation)
         # Fixme: better API ?
         return self.clone().transform(transformation)
 
-- 
2.43.0


From 0ea190845aad25ca5d5f502b9fba48b5834dfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 053/198] fix: QuadraticBezier2D.fat_line used a missing point

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 17714d6..2c61fd2 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -365,7 +365,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From f0b6b7d58fc15f6dff2cfa084fc6132a9b60646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 054/198] fix: Bezier non_parametric_curve used an undefined
 name and dropped the last point

---
 Patro/GeometryEngine/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 2c61fd2..25529c1 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -190,9 +190,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = np.linspace(0, 1, self.number_of_points)
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
-- 
2.43.0


From c5186ae9f961db4e56a2688bab8eed678104fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 055/198] fix: quadratic uniform spline: basis and point were
 those of an other curve

---
 Patro/GeometryEngine/Spline.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..2a6c02f 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (  1,   1, 1),
+        (-1/2, 1/2, 3/2),
+        (  0,   0, 2),
     ))
 
     #######################################
@@ -83,18 +83,13 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
-
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        #          P0 *  (1-t)**2             +
+        #          P1 * ( -2*t**2 + 2*t + 1 ) +
+        #          P2 *      t**2
+        #        ) / 2
+        return ((self._p0 + self._p1)/2 +
+                (self._p1 - self._p0)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
-- 
2.43.0


From a5ce01e0fb085b7f9204fe92371247e99b9116a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 056/198] fix: CubicUniformSpline2D.to_bezier used missing
 attributes

---
 Patro/GeometryEngine/Spline.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 2a6c02f..19a3657 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -131,12 +131,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From 254c84bcb952f8af8774369ce1e5eb7894b0f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 057/198] fix: BSpline2D clone and reverse lost the degree and
 the knots

---
 Patro/GeometryEngine/Spline.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 19a3657..473121a 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -201,6 +201,21 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    ##############################################
+
+    def clone(self):
+        return self.__class__(
+            self._points, self._degree, self._closed,
+            knots=None if self._uniform else self._knots,
+        )
+
+    def reverse(self):
+        # the knots are mirrored
+        knots = None if self._uniform else [self._knots[0] + self._knots[-1] - t for t in reversed(self._knots)]
+        return self.__class__(list(self.reversed_points), self._degree, self._closed, knots=knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 4270ce106ac82201131838e90e0043f1d080bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 058/198] fix: BSpline2D.span returned None at the end of a
 non-uniform spline

---
 Patro/GeometryEngine/Spline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 473121a..d918842 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -279,6 +279,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
                     return i-1
+            # t is the end knot: last span which is not null
+            return self._knots.index(self.end_knot) -1
 
     ##############################################
 
-- 
2.43.0


From b5ea0bc0273bf3d8908234986fe98895641d0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 059/198] fix: BSpline2D naive point: the product of the points
 and of the basis functions was inverted

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index d918842..3fa5f9b 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -359,7 +359,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From 5803f73f4514c54f08ce99b3ca17c3adadac7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 060/198] fix: BSpline2D.to_bezier did not raise for a degree
 which is not implemented

---
 Patro/GeometryEngine/Spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 3fa5f9b..34699be 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -447,10 +447,10 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            raise NotImplementedError
 
         # Fixme: degree > 3
         spline = self.to_bezier_form()
-- 
2.43.0


From 429623121877e784067f74c743990ce9bd39c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:40 +0000
Subject: [PATCH 061/198] fix: Bezier closest_point raised or returned None
 when there is not exactly one stationary point

---
 Patro/GeometryEngine/Bezier.py | 47 ++++++++++++++--------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 25529c1..fe736a9 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -197,6 +197,23 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_point(self, point, roots):
+
+        # the roots are the stationary points of the distance,
+        # the closest point is one of them or an end of the curve
+
+        if roots is None:
+            roots = ()
+        elif not isinstance(roots, (list, tuple)):
+            roots = (roots,)
+
+        candidates = [self.start_point, self.end_point]
+        candidates += [self.point_at_t(float(root)) for root in roots if 0 <= root <= 1]
+
+        return min(candidates, key=lambda p: (p - point).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
         p = self.closest_point(point)
         if p is not None:
@@ -391,14 +408,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t)
+        return self._closest_point(point, roots)
 
     ##############################################
 
@@ -885,23 +895,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point(point, roots)
-- 
2.43.0


From 04aaa7253263de1210093eecaecaf452aafd6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 062/198] fix: Bezier length_at_t and t_at_length used the
 lengths cached before the points were changed

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index fe736a9..f7845dd 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -103,7 +103,10 @@ class BezierMixin2D(Primitive2DMixin):
         """Compute the length of the curve at *t*."""
 
         if cache: # lookup cache
-            if not hasattr(self, '_length_cache'):
+            # the cache is only valid for the current points
+            points = tuple((p.x, p.y) for p in self.points)
+            if getattr(self, '_length_cache_points', None) != points:
+                self._length_cache_points = points
                 self._length_cache = {}
             length = self._length_cache.get(t, None)
             if length is not None:
-- 
2.43.0


From 72b40ab5e06b2663e9345f1a556104c1e0b1e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 063/198] fix: Bezier t_at_length never refused a length larger
 than the curve

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index f7845dd..34f6e86 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -133,7 +133,7 @@ class BezierMixin2D(Primitive2DMixin):
         if length == 0:
             return 0
         curve_length = self.length # Fixme: cache ?
-        if (curve_length - length) <= precision:
+        if abs(curve_length - length) <= precision:
             return 1
         if length > curve_length:
             raise ValueError('Out of length')
-- 
2.43.0


From 2011cedd7c2e6d89b87b854f72fbc62cbb1eddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:33 +0000
Subject: [PATCH 064/198] fix: Bezier area included the triangle between the
 origin and the segment across the ends

---
 Patro/GeometryEngine/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 34f6e86..3c890c3 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -873,7 +873,8 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         x3, y3 = list(self._p3)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
-                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
+                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20
+                - (x0 * y3 - x3 * y0) / 2) # remove the triangle between the origin and the segment
 
     ##############################################
 
-- 
2.43.0


From d2378226e31aa00e7cdfbcd33354febdf99897d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 065/198] fix: quadratic_root lost the small root when the
 leading coefficient is tiny (intersect_line of a straight Bezier curve)

---
 Patro/Common/Math/Root.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..7782014 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -58,14 +58,16 @@ def quadratic_root(a, b, c):
         return None # not real
 
     b = -b
-    s = 1 / (2*a)
     if D > 0:
-        # Fixme: sign of b ???
-        r1 = (b - sqrt(D)) * s
-        r2 = (b + sqrt(D)) * s
-        return r1, r2
+        # the sum has no cancellation, the other root is obtained from the product of the roots
+        if b >= 0:
+            q = (b + sqrt(D)) / 2
+            return c / q, q / a
+        else:
+            q = (b - sqrt(D)) / 2
+            return q / a, c / q
     else:
-        return b * s
+        return b / (2*a)
 
 ####################################################################################################
 
-- 
2.43.0


From 3cc289904b82ece966752ba8d4923046b68835a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 066/198] fix: Circle2D.perimeter raised for a closed circle
 and was that of the circle for an arc

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..0ad8323 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -172,7 +172,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
-- 
2.43.0


From 951af5ad21d3e6b59f738cda9184997d09354ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 067/198] fix: eccentricity of a circle is 0, eccentricity of a
 vertical ellipse raised a math domain error

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 0ad8323..6dea5fa 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,7 +168,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
@@ -513,7 +513,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        minor, major = sorted((self._radius_x, self._radius_y))
+        return sqrt(1 - (minor/major)**2)
 
     ##############################################
 
-- 
2.43.0


From ae99eb7af669450a0920bb5814767c6b4e2e4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 068/198] fix: Circle2D.intersect_segment returned a vector
 instead of a tuple for a tangent line

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 6dea5fa..4ff0701 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -293,7 +293,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         elif discriminant == 0: # tangent line
             x = (  D * dy ) / dr2
             y = (- D * dx ) / dr2
-            return Vector2D(x, y) + self.center
+            return (Vector2D(x, y) + self.center,)
         else: # intersection
             x_a =  D * dy
             y_a = -D * dx
-- 
2.43.0


From b3f1a98a395d60c6c36c832b1131208b57093910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 069/198] fix: Circle2D.intersect_circle called a property,
 returned twice a point, on the wrong side of the center

---
 Patro/GeometryEngine/Conic.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 4ff0701..430c6a2 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -314,7 +314,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # same center
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -322,12 +324,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if y2 < 0:
             return None
         else:
-            p = self.center + v.normalise() * x
+            v.normalise()
+            p = self.center + v * x
             if y2 == 0:
-                return p
+                return (p,)
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
-- 
2.43.0


From 24d109d1190d90c589596e02e62d1e48f032c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 070/198] fix: a cloned circle or ellipse shared its angular
 domain

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 Patro/GeometryEngine/Mixin.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 430c6a2..6da0e81 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -135,7 +135,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        domain = self._domain.clone() if self._domain is not None else None
+        return self.__class__(self._center, self._radius, domain)
 
     ##############################################
 
@@ -457,7 +458,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._domain.clone() if self._domain is not None else None,
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..3da3077 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,7 +57,7 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
-- 
2.43.0


From c02824cdfe0423eccbf0c2885adcaa0cbe688b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 071/198] fix: AngularDomain length for stop < start, is_inside
 compared angles which are not in the same turn

---
 Patro/GeometryEngine/Mixin.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index 3da3077..42cadce 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,16 +134,18 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                return 2*pi + length # length is negative
 
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
-        else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+        """Test if the angle lies in the domain, modulo 360.
+
+        The domain is counterclockwise from start to stop, even if stop < start.
+        """
+        if self.is_closed:
+            return True
+        return (angle - self._start) % 360 <= (self._stop - self._start) % 360
 
 ####################################################################################################
 
-- 
2.43.0


From f0c9c45d285a705e9ddf0d56e3cb12f02a3cb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 072/198] fix: distance of the center to an arc of circle
 raised a NameError

---
 Patro/GeometryEngine/Conic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 6da0e81..a6b6c60 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -245,6 +245,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def distance_to_point(self, point):
         if self._domain is not None:
+            if point == self._center: # the angle is undefined
+                return self._radius
             # Fixme: check !!!
             # try:
             angle = self.angle_for_point(point)
-- 
2.43.0


From 1af439f1ce294477009f5ab78321cbc8674d6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 073/198] fix: Ellipse2D major and minor vectors: arguments of
 from_polar were swapped, also when the y radius is the larger

---
 Patro/GeometryEngine/Conic.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index a6b6c60..5e98d4d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -474,7 +474,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
@@ -504,13 +504,17 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def major_vector(self):
-        # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        if self._radius_x >= self._radius_y:
+            return self.__vector_cls__.from_polar(self._radius_x, self._angle)
+        else:
+            return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     @property
     def minor_vector(self):
-        # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        if self._radius_x >= self._radius_y:
+            return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
+        else:
+            return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     ##############################################
 
-- 
2.43.0


From 5f39b9642a6e3e33f3041efa1a0915d2f0be462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 074/198] fix: misspelled coefficients of the matrix of an
 Ellipse2D

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 5e98d4d..a40383c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -548,9 +548,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
-- 
2.43.0


From 7b375667f85668a05bcab6a687d7d0cb5053c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 075/198] fix: bounding box of a rotated Ellipse2D did not
 contain the ellipse, it was not updated

---
 Patro/GeometryEngine/Conic.py | 38 +++++++++++++----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index a40383c..377de7c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -451,8 +450,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -469,7 +466,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -584,26 +580,20 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        # not cached since the center, the radii and the angle can change
+        radius_x, radius_y = self._radius_x, self._radius_y
+        bounding_box = self._center.bounding_box
+        if self._angle == 0:
+            bounding_box.x.enlarge(radius_x)
+            bounding_box.y.enlarge(radius_y)
+        else:
+            # extents of the rotated ellipse
+            angle = radians(self._angle)
+            c = cos(angle)
+            s = sin(angle)
+            bounding_box.x.enlarge(sqrt((radius_x*c)**2 + (radius_y*s)**2))
+            bounding_box.y.enlarge(sqrt((radius_x*s)**2 + (radius_y*c)**2))
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From 24dae85f5528419e7c9d2859122a6b076b80e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 076/198] fix: distance to an Ellipse2D is wrong when the y
 radius is the larger

---
 Patro/GeometryEngine/Conic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 377de7c..690c9b3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -654,6 +654,11 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
 
+        swap = e0 < e1
+        if swap: # so as to fulfil e0 ≥ e1
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
+
         if y1 > 0:
             if  y0 > 0:
                 z0 = y0 / e0
@@ -688,6 +693,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
+
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
-- 
2.43.0


From 3c4f1dfad547b004ef4af32ab08e951d400e861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 077/198] fix: Ellipse2D.is_point_inside subtracted the center
 from points in the frame of the ellipse

---
 Patro/GeometryEngine/Conic.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 690c9b3..d145d64 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -709,12 +709,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
         if is_inside:
-            # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
+            return (point_in_frame.x / self._radius_x)**2 + (point_in_frame.y / self._radius_y)**2 <= 1
         elif return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
-- 
2.43.0


From d6d19cf831f55d00c2d4264176ced354a3736393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 078/198] fix: Ellipse2D.intersect_segment raised a TypeError
 when there is no intersection

---
 Patro/GeometryEngine/Conic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index d145d64..f50a2e0 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -739,6 +739,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return None
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
-- 
2.43.0


From a0ce1c5ece64816d0833ad0d7796686985463e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 079/198] fix: Ellipse2D.svg_arc raised when the radii are too
 small (self in a class method, rounding)

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index f50a2e0..be3d12d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -397,7 +397,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -417,7 +417,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
         sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        center_prime = sign * math.sqrt(max(0, num / den)) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
-- 
2.43.0


From 29638493c83aef51f355e9c842ae3557b2fa5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 080/198] fix: Ellipse2D.to_bezier turned counterclockwise for
 a clockwise arc

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index be3d12d..2d6f4c1 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -772,7 +772,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: is_over_closer
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            # an arc can be clockwise, e.g. a SVG arc
+            angle_span = self._domain.stop - self._domain.start
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From 5f442d735a5ffcb1af058c6c3d42bc599f5b3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 081/198] fix: Ellipse2D.svg_arc measured the angles clockwise:
 the arc did not join the points

---
 Patro/GeometryEngine/Conic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 2d6f4c1..3bdd613 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -416,15 +416,14 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # print(point1_prime.anti_normal)
         # print(ratio)
         # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
         center_prime = sign * math.sqrt(max(0, num / den)) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
+        theta = vector1.orientation
+        delta_theta = vector2.angle_with(vector1)
         # if theta < 0:
         #     theta = 180 + theta
         # if delta_theta < 0:
-- 
2.43.0


From a3ec1961399795e2820418be93137215629d251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 082/198] fix: a transformed circle or ellipse kept its angle
 and its angular domain

---
 Patro/GeometryEngine/Conic.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 3bdd613..3293e7a 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -48,6 +48,7 @@ from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
 from .Segment import Segment2D
 from .Transformation import Transformation2D
+from .Vector import Vector2D
 
 ####################################################################################################
 
@@ -60,6 +61,19 @@ class PointNotOnCircleError(ValueError):
 
 ####################################################################################################
 
+def is_transformation_direct(transformation):
+    """Return True if the transformation preserves the orientation"""
+    return np.linalg.det(transformation.array) > 0
+
+####################################################################################################
+
+def transformed_angle(transformation, angle):
+    """Return the orientation of the image of the direction *angle*"""
+    direction = transformation*Vector2D.from_angle(angle) - transformation*Vector2D(0, 0)
+    return direction.orientation
+
+####################################################################################################
+
 class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     """Class to implements 2D Circle."""
@@ -140,10 +154,18 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
         # Fixme: shear -> ellipse
         if self._radius is not None:
             self._radius = transformation * self._radius
+        if self._domain is not None:
+            start, stop = self._domain.start, self._domain.stop
+            if is_transformation_direct(transformation):
+                start1 = transformed_angle(transformation, start)
+                self._domain = AngularDomain(start1, start1 + stop - start)
+            else: # the ends are exchanged
+                stop1 = transformed_angle(transformation, stop)
+                self._domain = AngularDomain(stop1, stop1 + stop - start)
+        self._center = transformation * self._center
 
     ##############################################
 
@@ -462,9 +484,11 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        self._radius_x, self._radius_y = transformation * self._radius_x, transformation * self._radius_y
+        if self._domain is not None and not is_transformation_direct(transformation):
+            self._domain = AngularDomain(-self._domain.start, -self._domain.stop)
+        self._angle = transformed_angle(transformation, self._angle)
         self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
 
     ##############################################
 
-- 
2.43.0


From d034f5e96f642a91b8c05eaa639a3a923e0fe30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:43 +0000
Subject: [PATCH 083/198] fix: Ellipse2D.distance_to_point loses its precision
 near the major axis

---
 Patro/GeometryEngine/Conic.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 3293e7a..a6a0af3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -630,12 +630,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def _distance_point_bisection(self, r0,  z0,  z1,  g):
 
+        # Return s + 1, since s is close to -1 when the point is close to the major axis, we must not lose
+        # the significant digits of s + 1
+
         n0 = r0 * z0
-        s0 = z1 - 1
+        s0 = z1
         if g < 0:
-            s1 = 0
+            s1 = 1
         else:
-            s1 = self._robust_length(n0 , z1) - 1
+            s1 = self._robust_length(n0 , z1)
 
         s = 0
         MAX_ITERATION = 1074 # for double
@@ -643,8 +646,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             s = (s0 + s1) / 2
             if s == s0 or s == s1:
                 break
-            ratio0 = n0 / (s + r0)
-            ratio1 = z1 / (s + 1)
+            ratio0 = n0 / (s + (r0 - 1))
+            ratio1 = z1 / s
             g = ratio0**2 + ratio1**2 -1
             if g > 0:
                 s0 = s
@@ -690,8 +693,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 if g != 0:
                     r0 = (e0 / e1)**2
                     sbar = self._distance_point_bisection(r0, z0, z1, g)
-                    x0 = r0 * y0 / (sbar + r0)
-                    x1 = y1 / (sbar + 1)
+                    x0 = r0 * y0 / (sbar + (r0 - 1))
+                    x1 = y1 / sbar
                     distance = math.sqrt((x0 - y0)**2 + (x1 - y1)**2)
                 else:
                     x0 = y0
-- 
2.43.0


From 769a9b0f9fcf5ffa87623b6841af2c7e96a30872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 084/198] fix: GeometryEngine/Path clone of a path fails or
 forgets that it is closed

---
 Patro/GeometryEngine/Path.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..ace835c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -418,17 +418,9 @@ class PathSegment(OnePointMixin, LinearSegment):
     ##############################################
 
     def clone(self, path):
-
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
-        obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
-
-        return obj
+        # the radius at the closure is set by Path2D.clone
+        radius = None if self._start_bulge else self._radius
+        return self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
 
     ##############################################
 
@@ -511,7 +503,8 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        radius = None if self._start_bulge else self._radius
+        return self.__class__(path, self._index, self._x, radius)
 
     ##############################################
 
@@ -549,7 +542,8 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        radius = None if self._start_bulge else self._radius
+        return self.__class__(path, self._index, self._y, radius)
 
     ##############################################
 
@@ -587,7 +581,8 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        radius = None if self._start_bulge else self._radius
+        return self.__class__(path, self._index, self._length, radius)
 
     ##############################################
 
@@ -724,7 +719,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -900,6 +895,10 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         for part in self._parts:
             parts.append(part.clone(obj))
 
+        if self._parts and getattr(self.start_segment, '_start_bulge', False):
+            obj.start_segment.close(self.start_segment.radius)
+        obj._is_closed = self._is_closed
+
         return obj
 
     ##############################################
-- 
2.43.0


From 55585bce1cfb7e9cfa7732fa24b05a4f03d0336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 085/198] fix: GeometryEngine/Path a null radius is an absence
 of radius

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index ace835c..172733f 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,7 +310,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
-- 
2.43.0


From 839037eba7914a2a098ee2fd2657a53fc601e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 086/198] fix: GeometryEngine/Path an absolute horizontal
 (vertical) segment keeps the other coordinate

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 172733f..17a837f 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1002,8 +1002,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1011,8 +1010,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From 7be65cf264a038df1970e7997d65c20427c0c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 087/198] fix: GeometryEngine/Path the geometry of a
 directional segment takes its bulges into account

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 17a837f..d1b19b4 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -458,7 +458,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 792324155a855009d970b48169c2c40aac6f7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 088/198] fix: GeometryEngine/Path the cached bulges were wrong
 after a change of the path

---
 Patro/GeometryEngine/Path.py | 69 +++++++++++-------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index d1b19b4..5f4c207 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -317,33 +303,28 @@ class LinearSegment(PathPart):
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        # Note: it cannot be cached, since it depends of the other parts of the path
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # return (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -357,30 +338,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -958,8 +933,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From ba256c6a52b49f8ead5bd75fec392671ae9dd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 089/198] fix: GeometryEngine/Path the domain of a bulge which
 contains the angle 0 must not wrap

---
 Patro/GeometryEngine/Path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 5f4c207..2c42a00 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -367,6 +367,8 @@ class LinearSegment(PathPart):
                                    for point in (self.bulge_start_point, self.bulge_stop_point)]
         if self.bulge_angle < 0:
             start_angle, stop_angle = stop_angle, start_angle
+        if stop_angle < start_angle: # the arc contains the angle 0
+            stop_angle += 360
         arc.domain = AngularDomain(start_angle, stop_angle)
         # self._dump_bulge(arc)
         return arc
-- 
2.43.0


From 1666e73ddd5cc95343e8701488f47b54460c2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 090/198] fix: GeometryEngine/Path the radii and the angle of
 an arc were not transformed

---
 Patro/GeometryEngine/Path.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 2c42a00..b6d8dcc 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -41,7 +41,7 @@ import math
 from Patro.Common.Math.Functions import sign
 from .Primitive import Primitive, Primitive1PMixin, Primitive2DMixin, PointPrimitive
 from .Bezier import QuadraticBezier2D, CubicBezier2D
-from .Conic import AngularDomain, Circle2D, Ellipse2D
+from .Conic import AngularDomain, Circle2D, Ellipse2D, is_transformation_direct, transformed_angle
 from .Segment import Segment2D
 from .Vector import Vector2D
 
@@ -823,6 +823,16 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+        OnePointMixin.apply_transformation(self, transformation)
+        self._radius_x = transformation * self._radius_x
+        self._radius_y = transformation * self._radius_y
+        self._angle = transformed_angle(transformation, self._angle)
+        if not is_transformation_direct(transformation):
+            self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From f00c202808f404613f667f21bf582dda5b54fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 091/198] fix: GeometryEngine/Conic bounding box of an arc

---
 Patro/GeometryEngine/Conic.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index a6a0af3..ec41182 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,6 +43,7 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
+from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -74,6 +75,18 @@ def transformed_angle(transformation, angle):
 
 ####################################################################################################
 
+def arc_bounding_box(arc, start, span, angles):
+    """Return the bounding box of an arc which covers *span* degrees counterclockwise from the angle
+    *start*, *angles* are the angles where the tangent is horizontal or vertical.
+    """
+    points = [arc.point_at_angle(angle) for angle in (start, start + span)]
+    for angle in angles:
+        if (angle - start) % 360 <= span:
+            points.append(arc.point_at_angle(angle))
+    return bounding_box_from_points(points)
+
+####################################################################################################
+
 class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     """Class to implements 2D Circle."""
@@ -245,7 +258,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def bounding_box(self):
-        # Fixme: wrong for arc
+        if self._domain is not None:
+            span = math.degrees(self._domain.length)
+            return arc_bounding_box(self, self._domain.start, span, (0, 90, 180, 270))
         return self._center.bounding_box.enlarge(self._radius)
 
     ##############################################
@@ -605,6 +620,16 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         # not cached since the center, the radii and the angle can change
         radius_x, radius_y = self._radius_x, self._radius_y
+        if self._domain is not None:
+            angle = radians(self._angle)
+            c = cos(angle)
+            s = sin(angle)
+            angle_x = math.degrees(math.atan2(-radius_y*s, radius_x*c))
+            angle_y = math.degrees(math.atan2(radius_y*c, radius_x*s))
+            # a domain made from a SVG arc is clockwise if stop < start
+            start = min(self._domain.start, self._domain.stop)
+            return arc_bounding_box(self, start, self._domain.span,
+                                    (angle_x, angle_x + 180, angle_y, angle_y + 180))
         bounding_box = self._center.bounding_box
         if self._angle == 0:
             bounding_box.x.enlarge(radius_x)
-- 
2.43.0


From 9905e45e180efda3e5b8f35f1e730ba0947f483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 092/198] fix: GeometryEngine/Path the bounding box ignored the
 bulges

---
 Patro/GeometryEngine/Path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index b6d8dcc..18574e2 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -976,6 +976,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                bounding_box |= item.bulge_geometry.bounding_box
         return bounding_box
 
     ##############################################
-- 
2.43.0


From 754ca2b45ca5b1e0d60d8dbff3e49617e43c2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 093/198] fix: FileFormat/Valentina the stroke style was
 written as a Python value

---
 Patro/FileFormat/Valentina/VitFormat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..e47b5af 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,21 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
+        if isinstance(value, StrokeStyle): # Python value
+            return value
         return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
-- 
2.43.0


From 765c419f1accd054e8dff6819bbf54e73570c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 094/198] fix: FileFormat/Valentina the colour of a spline was
 not read as a colour

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index e47b5af..0ec1ea3 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -642,7 +642,7 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 7b6e3af4bd634bb85129ba642de1b0a5426a2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 095/198] fix: Common/Xml an undefined attribute cannot be
 converted

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..a4d4819 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -286,9 +286,10 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
         for attribute in self.__attributes__:
             py_attribute = attribute.py_attribute
             # Fixme: duplicated code
-            if py_attribute in kwargs:
+            value = kwargs.get(py_attribute, None)
+            if value is not None:
                 # Fixme: see VitFormat.py StrokeStyleAttribute !!!
-                value = attribute.from_xml(kwargs[py_attribute])
+                value = attribute.from_xml(value)
             else:
                 value = attribute.default
             attribute.set_attribute(self, value)
-- 
2.43.0


From cd2fe543410032d2086e07709ca024cfbbf8a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 096/198] fix: Pattern/SketchOperation to_python does not
 generate the style and the colour of the line

---
 Patro/Pattern/SketchOperation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..ef1884f 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import StrokeStyle, Color, Colors
 from .Calculator import Expression
 
 # Rename id buitin
@@ -170,6 +170,10 @@ class SketchOperation(ObjectGlobalIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = quote(value)
             else:
                 value_str = ''
             values.append(value_str)
-- 
2.43.0


From 9124a918b1f558826dfccf0538e804537b1f4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 097/198] fix: Pattern/Sketch detail scene of an operation
 without line style

---
 Patro/Pattern/Sketch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..854ee43 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -156,11 +156,11 @@ class Sketch:
 
         """Generate a :class:`GraphicPathStyle` instance for a operation"""
 
-        return GraphicPathStyle(
-            stroke_style=operation.line_style,
-            stroke_color=operation.line_color,
-            **kwargs
-        )
+        if operation.line_style is not None:
+            kwargs['stroke_style'] = operation.line_style
+        if operation.line_color is not None:
+            kwargs['stroke_color'] = operation.line_color
+        return GraphicPathStyle(**kwargs)
 
     ##############################################
 
-- 
2.43.0


From 9888794ed779dc506c96e3e9522b98cae6ebf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 098/198] fix: Pattern/SketchOperation the ids of the
 operations are unique in a pattern instead of in the process

---
 Patro/Pattern/Pattern.py         | 17 +++++++++++++++++
 Patro/Pattern/SketchOperation.py | 14 ++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..de67ac0 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -48,6 +48,7 @@ class Pattern:
         self._unit = unit
 
         self._scopes = [] # not a dict so as to don't manage renaming
+        self._operation_ids = set()
 
     ##############################################
 
@@ -61,6 +62,19 @@ class Pattern:
 
     ##############################################
 
+    def register_operation_id(self, id=None):
+
+        """Register an operation id, which must be unique in the pattern, or a new one. Return the id."""
+
+        if id is None:
+            id = max(self._operation_ids, default=0) + 1
+        elif id in self._operation_ids:
+            raise ValueError("id {} is already attributed".format(id))
+        self._operation_ids.add(id)
+        return id
+
+    ##############################################
+
     @property
     def scopes(self):
         return iter(self._scopes)
@@ -124,6 +138,9 @@ class PatternScope(ObjectNameMixin):
     def unit(self):
         return self._pattern._unit
 
+    def register_operation_id(self, id=None):
+        return self._pattern.register_operation_id(id)
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index ef1884f..2ae9538 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -29,7 +29,7 @@ A sketch operation must be build from the corresponding method of the Pattern cl
 
 import logging
 
-from Patro.Common.Object import ObjectGlobalIdMixin
+from Patro.Common.Object import ObjectCkeckedIdMixin
 from Patro.GeometryEngine.Bezier import CubicBezier2D
 from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
@@ -65,7 +65,7 @@ def quote(x):
 ####################################################################################################
 
 # metaclass = SketchOperationMetaClass
-class SketchOperation(ObjectGlobalIdMixin):
+class SketchOperation(ObjectCkeckedIdMixin):
 
     """Baseclass for sketch operation"""
 
@@ -90,6 +90,16 @@ class SketchOperation(ObjectGlobalIdMixin):
 
     ##############################################
 
+    def new_id(self):
+        return self._sketch.pattern.register_operation_id()
+
+    ##############################################
+
+    def check_id(self, id):
+        self._sketch.pattern.register_operation_id(id)
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
-- 
2.43.0


From 4654484e0a41470fa2e82793a6b535118fbf89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 099/198] fix: GraphicScene/GraphicItemMixin positions of an
 item of one position

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 4bdf175..c5979e2 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -212,8 +212,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
-- 
2.43.0


From b11e70f1675d3a415f7d46a82aabc19b2c4b205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 100/198] fix: GraphicScene/GraphicItemMixin a dirty item must
 compute again its geometry

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index c5979e2..3f989c8 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -136,10 +136,10 @@ class GraphicItem:
     def dirty(self, value: bool) -> None:
         if bool(value):
             self._dirty = True
-        else:
-            self._dirty = True
             self._geometry = None
             self._bounding_box = None
+        else:
+            self._dirty = False
 
     ##############################################
 
-- 
2.43.0


From 6b49ccdc1a67a608d2a23c9bd5076489ef2d98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 101/198] fix: GraphicScene/Scene an item whose geometry was
 asked was not indexed

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 1 -
 Patro/GraphicEngine/GraphicScene/Scene.py            | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 3f989c8..ea5def8 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -153,7 +153,6 @@ class GraphicItem:
     def geometry(self) -> None:
         if self._geometry is None:
             self._geometry = self.get_geometry()
-            self._dirty = False
         return self._geometry
 
     ##############################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..61574a7 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -236,6 +236,7 @@ class GraphicSceneScope:
             # print(item, bounding_box)
             self._rtree.insert(item_id, bounding_box)
             self._item_bounding_box_cache[item_id] = bounding_box
+            item.dirty = False
             # except AttributeError:
             #     print('bounding_box not implemented for', item)
             #     pass # Fixme:
-- 
2.43.0


From d7823fddce14de5cf55b67ba28e05b4a7b24114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 102/198] fix: GraphicScene/Scene remove an item

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 61574a7..86d7b7f 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From d56f61dd1c84cfd915f49564ec1b25634e174a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 103/198] fix: GraphicScene/GraphicItem the cubic positions of
 a quadratic item were not updated

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..c10c5a0 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -391,10 +391,7 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        return list(self.geometry.to_cubic().points)
 
 ####################################################################################################
 
-- 
2.43.0


From a9c2db493c9ddb2f01ebb4f04b6af79599046622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 104/198] fix: GraphicScene/Scene add_path does not return its
 items

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 86d7b7f..54352ff 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -317,7 +317,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -510,6 +510,8 @@ class GraphicSceneScope:
             elif isinstance(segment, Path.StringedCubicBezierSegment):
                 pass
 
+        return items
+
     ##############################################
 
     # def quadratic_bezier(self, p0, p1, p2, *args, **kwargs) -> None:
-- 
2.43.0


From 131b054d202c620af910bf6b7319abfe0b94991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 105/198] fix: GraphicScene/Scene the domain of an arc of an
 ellipse was lost

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 3 ++-
 Patro/GraphicEngine/GraphicScene/Scene.py       | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c10c5a0..8b2c2da 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,8 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        domain = AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain=domain)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 54352ff..52cd9a4 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -309,6 +309,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
-- 
2.43.0


From 84af16e49d9a744ffb11f41c72e516e9c58bb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 106/198] fix: GraphicScene/Scene bezier_path of degree one

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 52cd9a4..cb30733 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -545,7 +545,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From 858ff54294a9d7f55c8cd99fe5fca460279feb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 107/198] fix: GeometryEngine/Polygon a polygon could not be
 found in a scene, distance_to_point was missing

---
 Patro/GeometryEngine/Polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index ade613c..70794a8 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -234,6 +234,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance of a point to the edges of the polygon."""
+        return min([edge.distance_to_point(point) for edge in self.edges])
+
+    ##############################################
+
     @property
     def point_barycenter(self):
         center = self.__vector_cls__(self.start_point)
-- 
2.43.0


From be6cace743ac55588dd80d5c10def6e63bc22681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 108/198] fix: SVG path data is read according to its grammar

---
 Patro/FileFormat/Svg/SvgFormat.py | 71 ++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..33ae25f 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,7 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -944,13 +945,19 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
 
     COMMANDS = ''.join(NUMBER_OF_ARGS.keys())
 
+    SPACES = re.compile(r'([ \t\r\n]*)')
+    SEPARATOR = re.compile(r'([ \t\r\n]*,?[ \t\r\n]*)')
+    LETTER = re.compile(r'[ \t\r\n]*([A-Za-z])')
+    NUMBER = re.compile(r'([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?)')
+    FLAG = re.compile(r'([01])')
+
     _logger = _module_logger.getChild('PathDataAttribute')
 
     ##############################################
@@ -960,39 +967,45 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
-        parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
-                part = float(part)
-            parts.append(part)
+        if svg_path is None or isinstance(svg_path, Path2D):
+            # Python value
+            return svg_path
 
         commands = []
         command = None # last command
-        number_of_args = None
-        i = 0
-        while i < len(parts):
-            part = parts[i]
-            if isinstance(part, str):
-                command = part
-                command_lower = command.lower()
-                if command_lower not in cls.COMMANDS:
+        position = 0 # in the data
+
+        def read(pattern):
+            nonlocal position
+            match = pattern.match(svg_path, position)
+            if match is None:
+                raise ValueError("Invalid path data at {} in\n{}".format(position, svg_path))
+            position = match.end()
+            return match.group(1)
+
+        while cls.SPACES.match(svg_path, position).end() < len(svg_path):
+            match = cls.LETTER.match(svg_path, position)
+            if match is not None:
+                position = match.end()
+                command = match.group(1)
+                separator = cls.SPACES
+                if command.lower() not in cls.NUMBER_OF_ARGS:
                     raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
-                number_of_args = cls.NUMBER_OF_ARGS[command_lower]
-                i += 1 # move to first arg
-            # else repeated instruction
-            next_i = i + number_of_args
-            args = parts[i:next_i]
+            else: # repeated instruction
+                if command is None or command in 'zZ':
+                    raise ValueError("Invalid path data at {} in\n{}".format(position, svg_path))
+                separator = cls.SEPARATOR
+
+            args = []
+            for i in range(cls.NUMBER_OF_ARGS[command.lower()]):
+                read(separator)
+                if command in 'aA' and i in (3, 4):
+                    args.append(int(read(cls.FLAG)))
+                else:
+                    args.append(float(read(cls.NUMBER)))
+                separator = cls.SEPARATOR
             commands.append((command, args))
-            i = next_i
+
             # for implicit line to
             if command == 'm':
                 command = 'l'
-- 
2.43.0


From 30d425d6794fa3e11568755e398c4e6326c62bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 109/198] fix: SVG transform lists are read, composed from left
 to right and written by column

---
 Patro/FileFormat/Svg/SvgFormat.py | 32 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 33ae25f..7d8f1dd 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -435,6 +435,9 @@ class TransformAttribute(StringAttribute):
         'translate'
     )
 
+    NUMBER = re.compile(r'[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?')
+    TRANSFORM_ITEM = re.compile(r'[, \t\r\n]*({})[ \t\r\n]*\(([^()]*)\)[, \t\r\n]*'.format('|'.join(TRANSFORM)))
+
     ##############################################
 
     @classmethod
@@ -445,13 +448,17 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            value = value.strip()
+            position = 0
+            while position < len(value):
+                match = cls.TRANSFORM_ITEM.match(value, position)
+                if match is None:
+                    raise ValueError("Invalid transform: '{}'".format(value))
+                position = match.end()
+                transform_type, args = match.groups()
+                if cls.NUMBER.sub('', args).strip(', \t\r\n'):
+                    raise ValueError("Invalid transform: '{}'".format(value))
+                values = [float(x) for x in cls.NUMBER.findall(args)]
                 transforms.append((transform_type, values))
                 # Fixme:
 
@@ -462,9 +469,10 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        # matrix(a b c d e f) is stored by column
+        array = value.to_list()
+        return 'matrix({})'.format(' '.join([str(float(array[i])) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
@@ -485,7 +493,8 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(complete(values, 2))
                 transform = AffineTransformation2D.Translation(vector)
             elif name == 'scale':
-                transform = AffineTransformation2D.Scale(*values)
+                x_scale, y_scale = values if len(values) > 1 else values*2
+                transform = AffineTransformation2D.Scale(x_scale, y_scale)
             elif name == 'rotate':
                 angle, *vector = complete(values, 3)
                 vector = Vector2D(vector)
@@ -499,7 +508,8 @@ class TransformAttribute(StringAttribute):
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last transform is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From c1814e1289de67f025310309e5ee452b9d2362de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:24 +0000
Subject: [PATCH 110/198] fix: an SVG path can be displayed and written

---
 Patro/FileFormat/Svg/SvgFormat.py | 54 ++++++++++++++++++++++++++++++-
 Patro/GeometryEngine/Path.py      |  5 +++
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 7d8f1dd..7a3a5a6 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -79,7 +79,13 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import (
+    ArcSegment,
+    CubicBezierSegment,
+    LinearSegment,
+    Path2D,
+    QuadraticBezierSegment,
+)
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -1031,6 +1037,8 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.to_commands(value)
         path_data = ''
         for command in value:
             if path_data:
@@ -1040,6 +1048,50 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def to_commands(cls, path):
+
+        """Return the absolute commands which draw a path, a rounded corner is drawn by an arc."""
+
+        commands = []
+
+        def add(command, *points):
+            commands.append((command, [float(x) for point in points for x in (point.x, point.y)]))
+
+        def add_arc(radius_x, radius_y, angle, large_arc, sweep, point):
+            add('A', point)
+            commands[-1][1][:0] = [float(radius_x), float(radius_y), float(angle), int(large_arc), int(sweep)]
+
+        def add_corner(part):
+            add_arc(part.radius, part.radius, 0, False, part.bulge_angle > 0, part.bulge_stop_point)
+
+        add('M', path[0].points[0] if len(path) else path.p0)
+        for part in path:
+            is_closing = path.is_closed and part is path.stop_segment
+            if isinstance(part, LinearSegment):
+                if part.radius is not None and part.index > 0:
+                    add_corner(part)
+                corner = path.start_segment if is_closing and isinstance(path.start_segment, LinearSegment) else None
+                if corner is not None and corner.radius is not None:
+                    add('L', part.points[1])
+                    add_corner(corner)
+                elif not is_closing:
+                    add('L', part.points[1])
+            elif isinstance(part, QuadraticBezierSegment):
+                add('Q', *part.points[1:])
+            elif isinstance(part, CubicBezierSegment):
+                add('C', *part.points[1:])
+            elif isinstance(part, ArcSegment):
+                add_arc(part._radius_x, part._radius_y, part._angle, part._large_arc, part._sweep, part.stop_point)
+            else:
+                raise NotImplementedError
+        if path.is_closed:
+            add('Z')
+
+        return commands
+
+    ##############################################
+
     @classmethod
     def as_vector(cls, args):
 
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 18574e2..80dfb23 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -873,6 +873,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{0}({1._p0} {1._parts})'.format(self.__class__.__name__, self)
+
+    ##############################################
+
     def clone(self):
 
         obj = self.__class__(self._p0)
-- 
2.43.0


From f7bea0ec11673b7af3b93d4514f1ef1d2fae274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 111/198] fix: the state of an SVG group ends with the group

---
 Patro/FileFormat/Svg/SvgFile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..570cdb4 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -280,9 +280,8 @@ class SvgDispatcher:
 
         self._state_stack.push(group)
         # self._logger.info('State:\n' + str(self.state))
-
         self.on_root(element)
-
+        self._state_stack.pop()
     ##############################################
 
     def on_graphic_item(self, element):
-- 
2.43.0


From ac3a0dbf08ccf1a9447ba0aedf612242d24509de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 112/198] fix: an SVG item inherits the attributes which it
 does not set

---
 Patro/FileFormat/Svg/SvgFile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 570cdb4..5b00126 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -122,18 +122,20 @@ class RenderState:
                         self.transform = self.transform * value
                 elif state == 'style':
                     pass
-                else:
+                elif value is not None and value != 'inherit': # else inherited
                     setattr(self, state, self.to_python(value))
 
         # Merge style
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip(): # trailing semicolon
+                    continue
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
                     self.transform = self.transform * value
-                else:
+                elif value != 'inherit':
                     setattr(self, state, self.to_python(value))
 
         return self
-- 
2.43.0


From f286e3af4d0700aa4d9cdf09d6193812d5d9fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 113/198] fix: the line cap, line join and miter limit of SVG
 items are states

---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 7a3a5a6..8ed389e 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -316,9 +316,9 @@ class ColorMixin:
 class StrokeMixin:
 
     __attributes__ = (
-        StringAttribute('stroke_line_cap', 'stroke-linecap'),
-        StringAttribute('stroke_line_join', 'stroke-linejoin'),
-        NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
+        StringAttribute('stroke_linecap', 'stroke-linecap'),
+        StringAttribute('stroke_linejoin', 'stroke-linejoin'),
+        NumberAttribute('stroke_miterlimit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
         FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
-- 
2.43.0


From e8f2ad2ceeda16f571a5d7299f6ae8c210df150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 114/198] fix: SVG polygons are read

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 8ed389e..b0b028f 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1196,7 +1196,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From 6d83ec1e3394c40d161fbf14eb4621d64b433963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 115/198] fix: an SVG ellipse has an identifier and a transform

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index b0b028f..66f2fa4 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -755,7 +755,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
-- 
2.43.0


From 6c6920eee84e06811348c8bfb0a1cd0124f9592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 116/198] fix: the comments of an SVG file are skipped

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 5b00126..87ffb2f 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -266,6 +266,8 @@ class SvgDispatcher:
     def on_root(self, root):
 
         for element in root:
+            if not isinstance(element.tag, str): # comment, processing instruction
+                continue
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
-- 
2.43.0


From 31a712ec018320f7611e0abcc931e5044c8b7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 117/198] fix: the view box of an SVG file is optional and
 given by its size

---
 Patro/FileFormat/Svg/SvgFile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 87ffb2f..7c1df03 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -360,8 +360,11 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        if svg_root.view_box is not None:
+            x_inf, y_inf, width, height = svg_root.view_box
+            self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
+        else:
+            self._view_box = None
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From ac550d2b2890971d44b9ac42a2ecaefe4a5f0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 118/198] fix: the numbers of a list are separated by spaces
 and commas

---
 Patro/Common/Xml/Objectivity.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index a4d4819..25bdfb3 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -179,13 +179,7 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From 03c47068888ddbbdfdc5b846882bec6d1ffb3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 119/198] fix: the lengths of SVG items keep their unit

---
 Patro/FileFormat/Svg/SvgFormat.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 66f2fa4..688e13e 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -271,6 +271,12 @@ class UnitValue:
     ##############################################
 
     def __str__(self):
+        return '{}{}'.format(self._value, self._unit)
+
+    ##############################################
+
+    @property
+    def unit(self):
         return self._unit
 
 ####################################################################################################
@@ -282,21 +288,23 @@ class PercentLengthAttribute(InheritAttribute):
     @classmethod
     def _from_xml(cls, value):
         # length ::= number ("em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%")?
-        if value.endswith('%'):
+        if not isinstance(value, str): # Python value
+            return value
+        elif value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
+    def to_xml(cls, value):
 
         # Fixme: ok ???
         if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
+            return '{}%'.format(float(value) * 100)
         elif isinstance(value, UnitValue):
             return '{}{}'.format(float(value), value.unit)
         else:
-- 
2.43.0


From 347a5597f00205c83ee66625879adf6536692eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 120/198] fix: the text of a XML element is read

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 25bdfb3..882aa5f 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -346,15 +346,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = xml_element.text or ''
 
     ##############################################
 
-- 
2.43.0


From 88a964d681625d18e2c51fea08e768061d5770a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 121/198] fix: a boolean attribute can be set from Python

---
 Patro/Common/Xml/Objectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 882aa5f..0ae4fdd 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,9 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if value is True or value == "true" or value == "1":
             return True
-        elif value == "false" or value == "0":
+        elif value is False or value == "false" or value == "0":
             return False
         else:
             raise ValueError("Incorrect boolean value {}".format(value))
-- 
2.43.0


From 0a8dc5b92a12921d5d02a14149de0299c877e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 122/198] fix: the position of a SVG rectangle is optional, its
 radii are the same when one is missing

---
 Patro/FileFormat/Svg/SvgFormat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 688e13e..5f0e6b0 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1245,16 +1245,16 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: width is str
         width = float(self.width)
         height = float(self.height)
-
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
-        if radius_y == 0:
+        if radius_y is None: # same radius
+            radius_y = radius_x
+        if not radius_y:
             radius = None
         else:
             radius = radius_y
-
-        point = Vector2D(self.x, self.y)
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 1ab5b265e2138551341e1090a1dc9b112ad02a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:09 +0000
Subject: [PATCH 123/198] fix: a SVG number with a negative exponent is not
 truncated

---
 Patro/FileFormat/Svg/SvgFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 7c1df03..9d109c8 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -68,7 +68,7 @@ class RenderState:
             else:
                 try:
                     float_value = float(value)
-                    if '.' in value:
+                    if '.' in value or not float_value.is_integer():
                         return float_value
                     else:
                         return int(float_value)
-- 
2.43.0


From f36af9053811979c8d66c0d545cf088285b4a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 124/198] fix: a colour made from a colour is read from it

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..68561d1 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
-- 
2.43.0


From e1ee1abbe1a38d227d73efe69a6c0b42378862db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 125/198] fix: a colour component is rounded, not truncated

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 68561d1..e74678d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -116,7 +116,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From 06a4648263a9c7bbcf3e803a084b60207dc66a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 126/198] fix: a colour string which is not '#rrggbb' is
 rejected, not misread

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index e74678d..7320bab 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -69,7 +69,7 @@ class Color:
                 self._blue = color.blue_float
             else:
                 rgb = str(color)
-                if not rgb.startswith('#'):
+                if not (len(rgb) == 7 and rgb.startswith('#')):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
-- 
2.43.0


From c51153ac9e66b4902bcf3055764b7d0f0ceae06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 127/198] fix: an unknown colour attribute is an AttributeError

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 7320bab..9804977 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -239,7 +239,10 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        try:
+            return self.__dict__['_colors'][name]
+        except KeyError:
+            raise AttributeError(f'Unknown color {name}') from None
 
     ##############################################
 
-- 
2.43.0


From d3dca84b450f7fb3cd5047600d7c7f7c6525f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 128/198] fix: the copy of a path style has all its fields

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..4154239 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
-- 
2.43.0


From 6ed6db857e484138327b409a1dfce556999bce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 129/198] fix: the copy of a Bezier style has the fields of a
 path style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index 4154239..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -207,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From a96ddb72d385007a72458f2d7eb5ef160c098c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:52 +0000
Subject: [PATCH 130/198] fix: the conversions to and from inches are not
 inverted

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..6d2f0a4 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,11 +37,11 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    POINT_2_INCH     = 1 / 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    TEX_POINT_2_INCH = 1 / 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM * POINT_2_INCH
 
     MM_2_INCH     = 1 / INCH_2_MM
     INCH_2_POINT  = 1 / POINT_2_INCH
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 33aa42c12982fb1a2c61519be581c91e5e001ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:52 +0000
Subject: [PATCH 131/198] fix: a typography unit made from an integer has a
 float value

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 6d2f0a4..bcad1c9 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -55,7 +55,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
-- 
2.43.0


From 19c828e10ac11857b84b163a129c968f772a3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:52 +0000
Subject: [PATCH 132/198] fix: tiling a scene does not enlarge its bounding box

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..da287e4 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From 311c2a02cfa39df92d153a84c4be39403daf1a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:52 +0000
Subject: [PATCH 133/198] fix: a tile is at its row and column

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index da287e4..5f8acd2 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From ddf4081094857167c31f2fdefd27ded9e3f0d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 134/198] fix: a scene can be set before the size of its view

---
 Patro/GraphicEngine/Painter/QtPainter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..ab76604 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -525,7 +525,10 @@ class ViewportArea:
         # self._height = geometry.height()
         self._viewport_size = self._to_np_array(geometry.width(), geometry.height())
         if self:
-            self._update_viewport_area()
+            if self._center is None:
+                self.fit_scene()
+            else:
+                self._update_viewport_area()
 
     ##############################################
 
@@ -619,7 +622,7 @@ class ViewportArea:
     def fit_scene(self):
 
         # Fixme: AttributeError: 'NoneType' object has no attribute 'center'
-        if self:
+        if self and self._viewport_size is not None:
             center = self._to_np_array(self.scene_area.center)
             scale, axis = self._compute_scale_to_fit_scene()
             self.zoom_at(center, scale)
-- 
2.43.0


From c402897af88320da0b9252d65d1d8d2076d9d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 135/198] fix: a KeyError in a paint method is not a missing
 paint method

---
 Patro/GraphicEngine/Painter/Painter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 5f8acd2..bcac9d7 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -114,9 +114,10 @@ class Painter:
         # Fixme: GraphicItemScope
         for item in self._scene.z_value_iter():
             try:
-                self.__paint_method__[item.__class__](self, item)
+                method = self.__paint_method__[item.__class__]
             except KeyError:
                 raise NotImplementedError('{} is not implemented in painter'.format(item.__class__))
+            method(self, item)
 
     ##############################################
 
-- 
2.43.0


From f79484aae314476a7d41a102cdaf9347575b1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 136/198] fix: a Bezier curve is written to a SVG drawing

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..83d3324 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -139,5 +139,5 @@ class SvgPainter(Painter):
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 040d34360635c1b9bc8baf00be44c9603ab5b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 137/198] fix: a circle is written as a circle to a SVG drawing

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 83d3324..6166fb5 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -114,7 +114,7 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
-- 
2.43.0


From 48178bd2217cbc321f93045420b76a2bbdce64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 138/198] fix: the colour of a line of a SVG drawing

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 6166fb5..1be3d63 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -92,7 +92,11 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        # the names of the colour database are not SVG names
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            color = 'none'
+        else:
+            color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From f3ff98208799ec8796ce1f6ce09a70160c8e85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 139/198] fix: a dash-dot line of a SVG drawing has dots

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 1be3d63..c01e5c0 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -52,8 +52,8 @@ class SvgPainter(Painter):
         StrokeStyle.SolidLine: None,
         StrokeStyle.DashLine: [6, 3], # Fixme:
         StrokeStyle.DotLine: [1, 2], # Fixme:
-        StrokeStyle.DashDotLine: [6, 3], # Fixme:
-        StrokeStyle.DashDotDotLine: [6, 3], # Fixme:
+        StrokeStyle.DashDotLine: [6, 3, 1, 3], # Fixme:
+        StrokeStyle.DashDotDotLine: [6, 3, 1, 3, 1, 3], # Fixme:
     }
 
     ##############################################
-- 
2.43.0


From 03852a4cd262605fa59a51233f6438e8c7333d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 140/198] fix: a SVG drawing was out of the page

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index c01e5c0..3bcd931 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,9 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
+        # translation, then scale
         self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation = self._transformation * AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From deb21d99492eaf223376feb66f678a944653919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 141/198] fix: the driver of the PDF painter is optional

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..12ebc0e 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -161,6 +161,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From 5768612f294820c376b5f13b127c37e8d0e75974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 142/198] fix: a PDF drawing starts at the margin whatever the
 bounding box

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 12ebc0e..1bcabf5 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -98,9 +98,10 @@ class ReportlabPainter(PdfPainterBase):
         # self._canvas.setTitle(title)
         # self._canvas.setSubject(subject)
 
+        self._unit = cm * .7 # Fixme: scale
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        self._canvas.translate(-bounding_box.x.inf*self._unit, -bounding_box.y.inf*self._unit)
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
@@ -112,7 +113,7 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def cast_position(self, position):
-        return super().cast_position(position) * cm * .7 # Fixme:
+        return super().cast_position(position) * self._unit
 
     ##############################################
 
-- 
2.43.0


From b98b0d4ed0b8a887d35e8478079c8f193feac80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 143/198] fix: a PDF drawing has the colours, the dashes and
 the widths of the lines

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 31 ++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 1bcabf5..6f6e174 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -71,10 +71,10 @@ class ReportlabPainter(PdfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: (),
-        StrokeStyle.DashLine: (), # Fixme: ???
+        StrokeStyle.DashLine: (6, 3),
         StrokeStyle.DotLine: (1, 2),
-        StrokeStyle.DashDotLine: (6, 3),
-        StrokeStyle.DashDotDotLine: (), # Fixme: ???
+        StrokeStyle.DashDotLine: (6, 3, 1, 3),
+        StrokeStyle.DashDotDotLine: (6, 3, 1, 3, 1, 3),
     }
 
     ##############################################
@@ -118,14 +118,21 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def _set_graphic_style(self, item):
+
+        # return False for an invisible line
+
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
-        self._canvas.setStrokeColor(color)
+        if path_syle.stroke_color is None or path_syle.stroke_style == StrokeStyle.NoPen:
+            return False
+
+        self._canvas.setStrokeColor(str(path_syle.stroke_color))
+
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
-        self._canvas.setDash(*line_style)
-        line_width = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        self._canvas.setLineWidth(line_width)
+        self._canvas.setDash(list(line_style))
+
+        self._canvas.setLineWidth(path_syle.line_width_as_float)
 
+        return True
     ##############################################
 
     def paint_TextItem(self, item):
@@ -145,14 +152,14 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def paint_SegmentItem(self, item):
-        # self._set_graphic_style(item)
-        self._canvas.line(*self.cast_item_coordinates(item, flat=True))
+        if self._set_graphic_style(item):
+            self._canvas.line(*self.cast_item_coordinates(item, flat=True))
 
     ##############################################
 
     def paint_CubicBezierItem(self, item):
-        # self._set_graphic_style(item)
-        self._canvas.bezier(*self.cast_item_coordinates(item, flat=True))
+        if self._set_graphic_style(item):
+            self._canvas.bezier(*self.cast_item_coordinates(item, flat=True))
 
 ####################################################################################################
 
-- 
2.43.0


From 9400915fffee86b73ff6bc97df6e756219f6609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 144/198] fix: a dot of a PDF drawing does not take the style
 of the previous line

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 6f6e174..c04593e 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -146,7 +146,7 @@ class ReportlabPainter(PdfPainterBase):
         position = self.cast_position(item.position)
         self._canvas.saveState()
         self._canvas.setFillColor('black')
-        self._canvas.circle(position.x, position.y, 2*mm, fill=1)
+        self._canvas.circle(position.x, position.y, 2*mm, stroke=0, fill=1)
         self._canvas.restoreState()
 
     ##############################################
-- 
2.43.0


From b59131a975a2b6feb9aad84f65c1067206b51f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 145/198] fix: a text cannot be written to a DXF drawing

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..24cb6f7 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -32,6 +32,7 @@ from .Painter import Painter
 
 try:
     import ezdxf
+    from ezdxf.enums import TextEntityAlignment
 except ImportError:
     ezdxf = None
 
@@ -124,7 +125,7 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        self._model_space.add_text(item.text).set_placement(list(position), align=TextEntityAlignment.CENTER)
 
     ##############################################
 
-- 
2.43.0


From 36d58585317c95db01f563c1c573425f27f71a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 146/198] fix: the line types of a DXF drawing are defined

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 24cb6f7..43c910b 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -66,12 +66,13 @@ class EzdxfPainter(DxfPainterBase):
     # AC1032 AutoCAD R2018
 
     __STROKE_STYLE__ = {
+        # standard line types defined by ezdxf.new(setup=True)
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
     __COLOR__ = {
@@ -86,7 +87,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=True) # with the standard line types
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
-- 
2.43.0


From 5972ec3cfe8a6adecef1823bf3cc376ca7987897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 147/198] fix: the colour of a line of a DXF drawing

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 43c910b..40c460e 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -75,10 +75,6 @@ class EzdxfPainter(DxfPainterBase):
         StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
-    __COLOR__ = {
-        None : None,
-        'black': 0,
-    }
 
     ##############################################
 
@@ -114,11 +110,12 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
+        color = path_style.stroke_color
+        true_color = ezdxf.rgb2int((color.red, color.green, color.blue)) # AutoCAD R2004
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
+        return {'linetype': line_type, 'true_color': true_color} # 'lineweight':line_weight
 
     ##############################################
 
-- 
2.43.0


From 3abf32d0bad64c1b8acc5edd110aa23b90271c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 148/198] fix: the transformation of the scene is ignored in a
 TeX drawing

---
 Patro/GraphicEngine/Painter/TexPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..ad7a422 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -100,7 +100,7 @@ class TexPainter(Painter):
         if isinstance(position, str):
             return '(' + position + ')'
         elif isinstance(position, Vector2D):
-            return '({0.x:.2f},{0.y:.2f})'.format(position)
+            return '({0.x:.2f},{0.y:.2f})'.format(self.cast_position(position))
 
     ##############################################
 
-- 
2.43.0


From d5595c0ad0a1073f03f4ea265aa988365c97a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 149/198] fix: the colour, the width and the dashes of a line
 of a TeX drawing

---
 Patro/GraphicEngine/TeX/Tikz.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..c10fd56 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,6 +32,7 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid',
@@ -41,14 +42,16 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        stroke_color = path_syle.stroke_color
 
         styles = []
-        styles.append('line width={}'.format(path_syle.line_width))
-        if stroke_style is not None:
+        styles.append('line width={}pt'.format(path_syle.line_width_as_float))
+        if stroke_style is None or stroke_color is None:
+            styles.append('draw=none')
+        else:
             styles.append(stroke_style)
-        if stroke_color is not None:
-            styles.append(stroke_color)
+            # the names of the colour database are not xcolor names
+            styles.append('color={{rgb,255:red,{0.red};green,{0.green};blue,{0.blue}}}'.format(stroke_color))
         return ', '.join(styles)
 
     ##############################################
-- 
2.43.0


From 279bd1d326b17bf28aabd3c818ac1d0af691d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 150/198] fix: a TeX document with a name of three letters has
 no name

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..1b4982e 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -42,7 +42,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
-- 
2.43.0


From 9e3d583343f3e0222f83a64571a22e8db81d0862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 151/198] fix: the output directory of a TeX document

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index 1b4982e..6b43902 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -60,7 +60,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
-- 
2.43.0


From 02ee6df8602bf8652d855e85f951dbec3b721be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:28 +0000
Subject: [PATCH 152/198] fix: the orientation of the paper of a TeX drawing

---
 Patro/GraphicEngine/Painter/TexPainter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index ad7a422..d3d11e0 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -41,7 +41,7 @@ _preambule = r'''
 
 \usepackage[%
 paper=«0.paper_name»,%
-%landscape,
+«0.orientation»,%
 %includeheadfoot,%
 margin=«0.margin»mm,%
 headsep=0cm, footskip=0cm,%
@@ -82,6 +82,12 @@ class TexPainter(Painter):
     def paper_name(self):
         return self._paper.name.lower() + 'paper'
 
+    @property
+    def orientation(self):
+        return self._paper.orientation
+
+    ##############################################
+
     @property
     def margin(self):
         return self._paper.margin
-- 
2.43.0


From e8cb82071c86db52e062e7e5c5567391f95dd4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:44 +0000
Subject: [PATCH 153/198] fix: the colour and the dashes of a line of a
 Matplotlib drawing

---
 Patro/GraphicEngine/Painter/MplPainter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..78ee81e 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -41,10 +41,10 @@ class MplPainter(Painter):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 3, 1, 3, 1, 3)),
     }
 
     ##############################################
@@ -83,8 +83,12 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
+        # the names of the colour database are not Matplotlib names
+        if path_syle.stroke_color is None or line_style is None:
+            color = 'none'
+        else:
+            color = str(path_syle.stroke_color)
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
         self._axes.add_patch(patch)
-- 
2.43.0


From 43217fd2eeee28cd1389ef743be5946e4add579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 154/198] fix: a scene cannot be written to SVG by the Qt
 painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index ab76604..7e80b8e 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -142,9 +142,10 @@ class QtPainter(Painter):
         self._scale = scale
 
         bounding_box = self._scene.bounding_box
-        size = QSize(*[x*self._scale for x in bounding_box.size])
-        view_box = QRectF(*[x*self._scale for x in bounding_box.rect])
-        generator.setSize(size)
+        size = QSizeF(*[x*self._scale for x in bounding_box.size])
+        # y axis is downward
+        view_box = QRectF(QPointF(bounding_box.x.inf, -bounding_box.y.sup) * self._scale, size)
+        generator.setSize(size.toSize())
         generator.setViewBox(view_box)
 
         painter = QPainter()
@@ -178,7 +179,7 @@ class QtPainter(Painter):
         return None
 
     def scene_to_viewport(self, position):
-        return QPointF(position.x * self._scale, position.y * self._scale)
+        return QPointF(position.x * self._scale, -position.y * self._scale)
 
         # Note: painter.scale apply to text as well
 
-- 
2.43.0


From 966078749a7ea5c01f0b98ed3b569a1c342b94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 155/198] fix: the pen of the Qt painter took the fill colour,
 or the pen of the previous item

---
 Patro/GraphicEngine/Painter/QtPainter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7e80b8e..34f0c3c 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -223,17 +223,17 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
 
         # print(item, color, line_style)
-        if color is None or line_style is StrokeStyle.NoPen:
+        if color is None or line_style == Qt.NoPen:
             # invisible item
-            pen = QPen(Qt.NoPen)
+            self._painter.setPen(QPen(Qt.NoPen))
             # print('Warning Pen:', item, item.user_data, color, line_style)
             return None
         else:
-- 
2.43.0


From 25db97ed74f427da0c05e94c0103cb39a802c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 156/198] fix: a path cannot be painted by the Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 34f0c3c..9351569 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -443,16 +443,16 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = self.cast_item_positions(segment)
                 method(*positions)
 
-        # if item.it_closed:
-        #     path.closeSubpath()
+        if item.is_closed:
+            path.closeSubpath()
 
         self._painter.drawPath(path)
 
-- 
2.43.0


From c9b7dfa50a64861c0952bd4df2311082d1cdbfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 157/198] fix: the transformation of the scene is applied twice
 to a quadratic curve by the Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 9351569..e8ce3a5 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -380,7 +380,8 @@ class QtPainter(Painter):
 
     def paint_QuadraticBezierItem(self, item):
 
-        vertices = [self.cast_position(position) for position in item.cubic_positions]
+        # the geometry of the item is already transformed
+        vertices = [self.scene_to_viewport(position) for position in item.cubic_positions]
         self._paint_cubic(item, vertices)
 
     ##############################################
-- 
2.43.0


From e2fb110ddc058a4406d0cd42ff576c60b8767a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 158/198] fix: the angle of an ellipse is ignored by the Qt
 painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index e8ce3a5..074b991 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -342,8 +342,12 @@ class QtPainter(Painter):
 
         pen = self._set_pen(item)
 
-        # Fixme: angle !!!
-        self._paint_arc(item, center, radius_x, radius_y)
+        # the angle is counter-clockwise
+        self._painter.save()
+        self._painter.translate(center)
+        self._painter.rotate(-item.angle)
+        self._paint_arc(item, QPointF(0, 0), radius_x, radius_y)
+        self._painter.restore()
 
     ##############################################
 
-- 
2.43.0


From c17c6f05df4776144fd8911df6f75e544d2f2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 159/198] fix: a text does not take the pen of the previous
 item of the Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 074b991..1ebdf5c 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -474,6 +474,7 @@ class QtPainter(Painter):
         # height = font_metrics.height()
         # width = font_metrics.width(item.text)
 
+        self._painter.setPen(QPen(QColor('black')))
         self._painter.setFont(qfont)
         self._painter.drawText(position, item.text)
 
-- 
2.43.0


From 67361a411584b0bf3eeb722e63409af60e455bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 160/198] fix: a font of the Qt painter can have a fractional
 size

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 1ebdf5c..051ea06 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -467,7 +467,8 @@ class QtPainter(Painter):
         position = self.cast_position(item.position)
 
         font = item.font
-        qfont = QFont(font.family, font.point_size) # weight, italic = False
+        qfont = QFont(font.family) # weight, italic = False
+        qfont.setPointSizeF(font.point_size)
 
         # Fixme: anchor position
         # font_metrics = QFontMetrics(qfont)
-- 
2.43.0


From e5280afe6eb67a7cfada8cdc1f543461d5c7d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:31 +0000
Subject: [PATCH 161/198] fix: an image was out of its rectangle on screen

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 051ea06..b3038cb 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -399,7 +399,7 @@ class QtPainter(Painter):
     def paint_ImageItem(self, item):
 
         vertices = self.cast_item_positions(item)
-        rec = QRectF(vertices[0], vertices[1])
+        rec = QRectF(vertices[0], vertices[1]).normalized() # y axis is downward
 
         image = item.image
         height, width, bytes_per_line = image.shape
-- 
2.43.0


From cf04418a0ba9242bdcfefa09788ebda3b634846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:25 +0000
Subject: [PATCH 162/198] fix: a scene that cannot be painted crashes the Qt
 painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index b3038cb..5c1f7f8 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -150,10 +150,12 @@ class QtPainter(Painter):
 
         painter = QPainter()
         painter.begin(generator)
-        self.paint(painter)
-        painter.end()
-
-        self._scale = None
+        try:
+            self.paint(painter)
+        finally:
+            # a device cannot be destroyed while it is painted
+            painter.end()
+            self._scale = None
 
     ##############################################
 
-- 
2.43.0


From 709b245d4c5f40ceb6326ac7b5d347f95858dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:39 +0000
Subject: [PATCH 163/198] fix: a quadratic curve is painted at the previous
 position of a coordinate

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 8b2c2da..5e97d1d 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -392,7 +392,7 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        return list(self.geometry.to_cubic().points)
+        return list(self.get_geometry().to_cubic().points)
 
 ####################################################################################################
 
-- 
2.43.0


From c6d0608f44c27f294ce09a689cb91fb0da1bbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 164/198] fix: a clockwise arc added to a scene was replaced by
 its complement

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index cb30733..2c11e42 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -310,8 +310,8 @@ class GraphicSceneScope:
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
             if item.domain:
-                kwargs['start_angle'] = item.domain.start
-                kwargs['stop_angle'] = item.domain.stop
+                # the arc of an item is counterclockwise
+                kwargs['start_angle'], kwargs['stop_angle'] = sorted((item.domain.start, item.domain.stop))
 
         # Line
         elif isinstance(item, Line.Line2D):
@@ -472,14 +472,16 @@ class GraphicSceneScope:
             # add_segment(Segment.Segment2D(*segment.points))
             ellipse = segment.geometry
             # print(ellipse, ellipse.domain)
+            # the arc of an item is counterclockwise
+            start_angle, stop_angle = sorted((ellipse.domain.start, ellipse.domain.stop))
             arc_item = self.ellipse(
                 ellipse.center,
                 ellipse.radius_x,
                 ellipse.radius_y,
                 ellipse.angle,
                 path_style,
-                start_angle=ellipse.domain.start,
-                stop_angle=ellipse.domain.stop,
+                start_angle=start_angle,
+                stop_angle=stop_angle,
                 user_data=user_data, # segment
             )
             items.append(arc_item)
-- 
2.43.0


From 9dac1c5663f7e84daa4cdfdcbb413f421595eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 165/198] fix: a quadratic spline cannot be added to a scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 2c11e42..fe6d1ef 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -372,8 +372,9 @@ class GraphicSceneScope:
     ##############################################
 
     def add_spline(self, spline, path_style: GraphicPathStyle) -> list:
+        method = self.quadratic_bezier if spline.degree == 2 else self.cubic_bezier
         return [
-            self.cubic_bezier(*bezier.points, path_style, user_data=spline)
+            method(*bezier.points, path_style, user_data=spline)
             for bezier in spline.to_bezier()
         ]
 
-- 
2.43.0


From beec1477e9906ce506523dbe1039258045e931ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 166/198] fix: a path item has no geometry

---
 Patro/GeometryEngine/Path.py                    | 12 ++++++++++++
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 80dfb23..babc98e 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -987,6 +987,18 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Return the distance of a point to the parts of the path."""
+        geometries = []
+        for item in self._parts:
+            geometries.append(item.geometry)
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                geometries.append(item.bulge_geometry)
+        distances = [geometry.distance_to_point(point) for geometry in geometries]
+        return min((distance for distance in distances if distance is not None), default=None)
+
+    ##############################################
+
     def move_to(self, point):
         self.p0 = point
 
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 5e97d1d..5cc30f2 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -431,8 +431,18 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        path = Path2D(self.casted_position)
+        for segment in self._segments:
+            positions = [self._scene.cast_position(position) for position in segment.positions]
+            if isinstance(segment, LinearSegment):
+                path.line_to(*positions, absolute=True)
+            elif isinstance(segment, QuadraticSegment):
+                path.quadratic_to(*positions, absolute=True)
+            elif isinstance(segment, CubicSegment):
+                path.cubic_to(*positions, absolute=True)
+        if self._closed:
+            path.close()
+        return path
 
     ##############################################
 
-- 
2.43.0


From 442351d9ca6b51e05dc4a16fe305a264d8ad8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 167/198] fix: the arcs of a path added as one item are lost

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index fe6d1ef..792ced7 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -418,7 +418,8 @@ class GraphicSceneScope:
             elif isinstance(segment, Path.CubicBezierSegment):
                 item.cubic_to(segment.point1, segment.point2, segment.point3)
             elif isinstance(segment, Path.ArcSegment):
-                pass
+                for bezier in segment.geometry.to_bezier():
+                    item.cubic_to(*bezier.points[1:])
             elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
                 pass
             elif isinstance(segment, Path.StringedCubicBezierSegment):
-- 
2.43.0


From 2764488d48ca153e65415505ee64224f98ba95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 168/198] fix: the rounded corners of a path added as one item
 are lost

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 792ced7..2a84cb3 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -405,14 +405,30 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
+        def is_rounded(segment) -> bool:
+            return isinstance(segment, Path.LinearSegment) and segment.radius is not None
+
+        # the first corner of a closed path can be rounded
+        position = path.p0
+        if len(path) and is_rounded(path[0]):
+            position = path[0].bulge_start_point
+        item = self.add_item(GraphicItem.PathItem, position, path_style, user_data)
+
+        def add_bulge(segment) -> None:
+            arc = segment.bulge_geometry
+            domain = arc.domain
+            if segment.bulge_angle < 0: # clockwise
+                domain = Conic.AngularDomain(domain.stop, domain.start)
+            ellipse = Conic.Ellipse2D(arc.center, arc.radius, arc.radius, domain=domain)
+            for bezier in ellipse.to_bezier():
+                item.cubic_to(*bezier.points[1:])
 
         # cf. add_as_path_segments
         for segment in path:
             if isinstance(segment, Path.LinearSegment):
-                # if segment.radius is not None:
-                #     add_bulge(segment)
-                item.line_to(segment.stop_point)
+                if is_rounded(segment):
+                    add_bulge(segment)
+                item.line_to(segment.points[1])
             elif isinstance(segment, Path.QuadraticBezierSegment):
                 item.quadratic_to(segment.point1, segment.point2)
             elif isinstance(segment, Path.CubicBezierSegment):
-- 
2.43.0


From b734391205e9979df3e5efca7da95d79f669a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 169/198] fix: the points of a DXF file cannot be read

---
 Patro/FileFormat/Dxf/Importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..72eef84 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -69,7 +69,8 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        # a point of ezdxf cannot be sliced
+        return Vector2D(point[0], point[1])
 
     @classmethod
     def _to_vectors(cls, points):
-- 
2.43.0


From abc3f0112b8615b8ab86b01352a46b9b0edd8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 170/198] fix: the clockwise arcs of a DXF polyline have a
 negative radius

---
 Patro/FileFormat/Dxf/Polyline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..63dc2c2 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -212,8 +211,9 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
-                arc = Circle2D(center, vertex1.bulge_radius)
+                # the offset and the radius have the sign of the bulge
+                center = segment_center + normal * offset
+                arc = Circle2D(center, abs(vertex1.bulge_radius))
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
                     start_angle += 360
-- 
2.43.0


From a9dfb10f7702016ee2b048ff04920b237771ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 171/198] fix: an arc of a circle across the direction 0 added
 to a scene was replaced by its complement

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 2a84cb3..51c5087 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -305,6 +305,9 @@ class GraphicSceneScope:
             if item.domain:
                 kwargs['start_angle'] = item.domain.start
                 kwargs['stop_angle'] = item.domain.stop
+                # the domain of a circle is counterclockwise, even if stop < start
+                if item.domain.is_clockwise:
+                    kwargs['stop_angle'] += 360
 
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
-- 
2.43.0


From 6852d6ab79fbfce8b6837397c4886e2db21a5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:02 +0000
Subject: [PATCH 172/198] fix: the splines of a DXF file cannot be read

---
 Patro/FileFormat/Dxf/Importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 72eef84..71817af 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -157,8 +157,7 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
+        points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
         spline = BSpline2D(points, item_dxf.degree, item.closed)
         self._add(spline)
-- 
2.43.0


From a0094ee373457adea8e5a386e3ce616e2db3df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:14 +0000
Subject: [PATCH 173/198] fix: the knots of the splines of a DXF file are lost

---
 Patro/FileFormat/Dxf/Importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 71817af..8787daa 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -159,5 +159,8 @@ class DxfImporter:
 
         points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
-        spline = BSpline2D(points, item_dxf.degree, item.closed)
+        knots = list(item.knots)
+        if BSpline2D.check_for_unifom_knots(item_dxf.degree, len(points), knots):
+            knots = None
+        spline = BSpline2D(points, item_dxf.degree, item.closed, knots=knots)
         self._add(spline)
-- 
2.43.0


From 49340ee7c8188a0d9b425f64f4b3be3eb6c7ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:14 +0000
Subject: [PATCH 174/198] fix: an arc of ellipse across the direction 0 of a
 DXF file was replaced by its complement

---
 Patro/FileFormat/Dxf/Importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 8787daa..c7e0900 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -129,6 +129,9 @@ class DxfImporter:
         major_axis = self._to_vector(item_dxf.major_axis)
         minor_axis = major_axis * item_dxf.ratio
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
+        # the arc is counterclockwise
+        if domain.is_clockwise:
+            domain.stop += 360
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
         if angle == 90:
-- 
2.43.0


From 289bf4cea23205fa29a2390a5e44e54256194f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:50 +0000
Subject: [PATCH 175/198] fix: an arc of a vertical ellipse of a DXF file was
 turned

---
 Patro/FileFormat/Dxf/Importer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index c7e0900..33434a8 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -134,10 +134,6 @@ class DxfImporter:
             domain.stop += 360
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
-        if angle == 90:
-            radius_x, radius_y = radius_y, radius_x
-            angle = 0
-        # Fixme: ...
         ellipse = Ellipse2D(
             center,
             radius_x, radius_y,
-- 
2.43.0


From cfe37291d9c07383d0d0b54a183e592c40ece6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 176/198] =?UTF-8?q?fix:=20a=20closed=20spline=20cannot=20b?=
 =?UTF-8?q?e=20converted=20to=20B=C3=A9zier=20curves?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GeometryEngine/Spline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 34699be..4cbbbc6 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -457,7 +457,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         bezier_curves = []
         order = spline.order
-        for i in range(self.number_of_spans):
+        # a closed spline has no span more, its knots are those of an open one
+        for i in range(spline.number_of_points // order):
             i_inf = i * order
             i_sup = i_inf + order
             points = spline._points[i_inf:i_sup]
-- 
2.43.0


From b564352cff52a793e94fa858b36f9f9e7fb9aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:33 +0000
Subject: [PATCH 177/198] fix: the arcs and polylines of a DXF file seen from
 below are not mirrored

---
 Patro/FileFormat/Dxf/Importer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 33434a8..938b2ac 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -78,6 +78,13 @@ class DxfImporter:
 
     ##############################################
 
+    @staticmethod
+    def _is_seen_from_below(item):
+        # its plane is then (-x, y)
+        return item.dxf.extrusion[2] < 0
+
+    ##############################################
+
     def _add(self, item):
         self._items.append(item)
 
@@ -117,6 +124,10 @@ class DxfImporter:
             domain = AngularDomain(item_dxf.start_angle, item_dxf.end_angle)
         else:
             domain = None
+        if self._is_seen_from_below(item):
+            center = Vector2D(-center.x, center.y)
+            if is_arc:
+                domain = AngularDomain(180 - domain.stop, 180 - domain.start)
         circle = Circle2D(center, item_dxf.radius, domain=domain)
         self._add(circle)
 
@@ -132,6 +143,8 @@ class DxfImporter:
         # the arc is counterclockwise
         if domain.is_clockwise:
             domain.stop += 360
+        if self._is_seen_from_below(item):
+            domain = AngularDomain(-domain.stop, -domain.start)
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
         ellipse = Ellipse2D(
@@ -148,6 +161,8 @@ class DxfImporter:
 
         polyline = Polyline(item.closed)
         for x, y, s, e, b in item.get_points():
+            if self._is_seen_from_below(item):
+                x, b = -x, -b
             polyline.add(Vector2D(x, y), b)
         geometry = polyline.geometry()
         self._add(geometry)
-- 
2.43.0


From 354b25fefcc200b13f5e2e5710387d8284957d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:20 +0000
Subject: [PATCH 178/198] fix: a monostate cannot have a constructor with
 arguments

---
 Patro/Common/Singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Singleton.py b/Patro/Common/Singleton.py
index 9fa4ef1..c7cc10a 100644
--- a/Patro/Common/Singleton.py
+++ b/Patro/Common/Singleton.py
@@ -111,6 +111,6 @@ class monostate:
 
     def __new__(cls, *args, **kwargs):
         # print('monostate __new__:', cls, args, kwargs, sep='\n... ')
-        obj = super(monostate, cls).__new__(cls, *args, **kwargs)
+        obj = super(monostate, cls).__new__(cls)
         obj.__dict__ = cls._shared_state
         return obj
-- 
2.43.0


From b3042ab033c2fdcdc40c6174a5783de77f8fe995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 179/198] fix: the conversions of a yarn number to tex are not
 the inverses of the ones from tex

---
 Patro/TextileTechnology/Yarn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..ae17342 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
-- 
2.43.0


From f251c7f115a8e49024033fb273cb3204955512ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 180/198] fix: a yarn without twist type cannot be created

---
 Patro/TextileTechnology/Yarn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index ae17342..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From 5b69ef4cc814617e0a4455aa52fa33ddf2800c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 181/198] fix: a fabric cannot be created

---
 Patro/TextileTechnology/Fabric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..4fab543 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -100,7 +100,7 @@ class Fabric:
         self._shear = float(kwargs['shear'])
         self._fiction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
-- 
2.43.0


From fe5a9699c72267a25d481e29003309b9ca80542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 182/198] fix: a seam has no name

---
 Patro/TextileTechnology/Seam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..f929630 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{self._class.name}{self._type}-{self._number_of_rows}'.format(self=self)
-- 
2.43.0


From c37e44446d1f7b73a16610137be9336b7d8869e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 183/198] fix: the database of fibers cannot be loaded

---
 Patro/TextileTechnology/Fiber.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..c7231d2 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
             self.add(Fiber(name, FiberType.Synthetic, None, None))
-- 
2.43.0


From 1bea195df07bff554eb3c9fc9a8988591c6dd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 184/198] fix: the database of stitches cannot be loaded

---
 Patro/TextileTechnology/StitchType.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/TextileTechnology/StitchType.py b/Patro/TextileTechnology/StitchType.py
index 3a961cd..a489cb9 100644
--- a/Patro/TextileTechnology/StitchType.py
+++ b/Patro/TextileTechnology/StitchType.py
@@ -86,8 +86,8 @@ class StitchDatabase(Database):
 
         data = super().load(yaml_path)
 
-        self._introduction = data['introduction']
-        classes =  data['classes']
+        self._introduction = data['Introduction']
+        classes =  data['Classes']
 
         for classe_name, stitch_classe in classes.items():
             name = stitch_classe['name']
-- 
2.43.0


From ad49b7f67e684063b8354918f5a440aa5b11c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 185/198] fix: a file is searched in the directories named by
 the letters of the directory

---
 Patro/Common/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Path.py b/Patro/Common/Path.py
index 0ddcf5b..8f9b329 100644
--- a/Patro/Common/Path.py
+++ b/Patro/Common/Path.py
@@ -39,7 +39,7 @@ def parent_directory_of(file_name, step=1):
 ####################################################################################################
 
 def find(file_name, directories):
-    if isinstance(directories, bytes):
+    if isinstance(directories, (bytes, str)):
         directories = (directories,)
     for directory in directories:
         for directory_path, sub_directories, file_names in os.walk(directory):
-- 
2.43.0


From 054d43a2220f68445112c57b45a0806a66afbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 186/198] fix: an arrow head with an axial offset cannot be
 created

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..811e9c2 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -160,7 +160,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
-- 
2.43.0


From 0c66388bd780283111cdeb5cbb5598699047501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 187/198] fix: an arrow head without side is not refused

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 811e9c2..0c875f9 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -98,8 +98,8 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
-- 
2.43.0


From feeaa61d57747d0e46569f3e916c7ce88cc4377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 188/198] fix: the right curve of an arrow head is not the
 mirror of the left one

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0c875f9..286f846 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -270,7 +270,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
-- 
2.43.0


From 87084c0ecc45d6746b2d528d0548fc83a73e8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:23 +0000
Subject: [PATCH 189/198] fix: an XML object created without arguments has no
 attributes

---
 Patro/Common/Xml/Objectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 0ae4fdd..ac59320 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -252,7 +252,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
-- 
2.43.0


From 84372f51d1546d24caf79fdc8c54c91b40513d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:40 +0000
Subject: [PATCH 190/198] fix: an attribute of a super class hides the one of a
 more derived class

---
 Patro/Common/Xml/Objectivity.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index ac59320..cdb62c9 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -213,8 +213,8 @@ class XmlObjectAdaptatorMetaClass(type):
         type.__init__(cls, class_name, super_classes, class_attribute_dict)
 
         # Collect attributes from super-classes and update
-        super_attributes = cls.register_from_super_class(super_classes)
-        cls.__attributes__ = super_attributes + list(cls.__attributes__)
+        cls.__own_attributes__ = tuple(class_attribute_dict.get('__attributes__', ()))
+        cls.__attributes__ = cls.collect_attributes()
 
         # Define a property for each attribute
         for attribute in cls.__attributes__:
@@ -223,19 +223,22 @@ class XmlObjectAdaptatorMetaClass(type):
 
     ##############################################
 
-    def register_from_super_class(cls, super_classes):
+    def collect_attributes(cls):
 
-        """Collect attributes from super-classes"""
+        """Collect the attributes of the class and its super-classes.  An attribute is the one defined by
+        the first class of the method resolution order.
 
-        # Fixme: use set ???
+        """
 
-        super_attributes = []
-        for super_class in super_classes:
-            # __mro__ = [cls, ..., object]
-            super_attributes += cls.register_from_super_class(super_class.__mro__[1:-1]) # super_class.__subclasses__()
-            if hasattr(super_class, '__attributes__'):
-                super_attributes += list(super_class.__attributes__)
-        return super_attributes
+        attributes = {}
+        for class_ in reversed(cls.__mro__):
+            # A mixin class doesn't have own attributes
+            own_attributes = class_.__dict__.get('__own_attributes__', None)
+            if own_attributes is None:
+                own_attributes = class_.__dict__.get('__attributes__', ())
+            for attribute in own_attributes:
+                attributes[attribute.py_attribute] = attribute
+        return list(attributes.values())
 
 ####################################################################################################
 
-- 
2.43.0


From 1b2b13648ba40a1fac09c5c80014d230ca15b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:09 +0000
Subject: [PATCH 191/198] fix: the distance of a point to an elliptic arc is
 the one to the whole ellipse

---
 Patro/GeometryEngine/Conic.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index ec41182..e7dbf4f 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -751,11 +751,41 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     ##############################################
 
+    def _arc_closest_point(self, point):
+
+        """Return the closest point of the arc, the points are expressed in the ellipse coordinate system."""
+
+        # The segment to the point is normal to the ellipse at the angle t when
+        #   k*sin(t)*cos(t) - x*sin(t) + y*cos(t) = 0
+        # this is a polynomial of exp(i*t)
+        x = self._radius_x * point.x
+        y = self._radius_y * point.y
+        k = self._radius_x**2 - self._radius_y**2
+        roots = np.roots((k, -2*complex(x, -y), 0, 2*complex(x, y), -k))
+
+        # a domain made from a SVG arc is clockwise if stop < start
+        domain = self._domain
+        start = min(domain.start, domain.stop)
+        angles = [angle for angle in np.degrees(np.angle(roots)) if (angle - start) % 360 <= domain.span]
+        angles += [domain.start, domain.stop]
+
+        points = [self.__vector_cls__.from_ellipse(self._radius_x, self._radius_y, angle) for angle in angles]
+        return min(points, key=lambda arc_point: (arc_point - point).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point, return_point=False, is_inside=False):
 
         # Fixme: can be transform the problem to a circle using transformation ???
 
         point_in_frame = self.point_in_ellipse_frame(point)
+        if not is_inside and self._domain is not None and not self._domain.is_closed:
+            point_in_ellipse = self._arc_closest_point(point_in_frame)
+            distance = (point_in_frame - point_in_ellipse).magnitude
+            if return_point:
+                return distance, self.point_from_ellipse_frame(point_in_ellipse)
+            else:
+                return distance
         point_in_frame_abs = self.__vector_cls__(abs(point_in_frame.x), abs(point_in_frame.y))
         distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
-- 
2.43.0


From 42abe6d6f2f4d7c47ab89658dc77a7abbda331d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:54 +0000
Subject: [PATCH 192/198] fix: a TeX document is written in UTF-8 whatever the
 locale

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index 6b43902..4477f50 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -104,7 +104,7 @@ class Document:
 
     def write(self):
 
-        with open(self.tex_filename, 'w') as fd:
+        with open(self.tex_filename, 'w', encoding='utf8') as fd:
             fd.write(str(self))
 
     ##############################################
-- 
2.43.0


From bd29ed3b693be1e0de900a60e622e2079b812959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:54 +0000
Subject: [PATCH 193/198] fix: a file of fibers is read in UTF-8 whatever the
 locale

---
 Patro/TextileTechnology/Database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Database.py b/Patro/TextileTechnology/Database.py
index 4c6ff7d..d3bb172 100644
--- a/Patro/TextileTechnology/Database.py
+++ b/Patro/TextileTechnology/Database.py
@@ -59,4 +59,5 @@ class Database:
     def load(self, yaml_path=None):
         if yaml_path is None:
             yaml_path = self.DEFAULT_DATA_DIRECTORY.joinpath(self.DEFAULT_DATA_FILENAME)
-        return yaml.load(open(yaml_path, 'r'), Loader=yaml.SafeLoader)
+        with open(yaml_path, 'r', encoding='utf8') as fh:
+            return yaml.load(fh, Loader=yaml.SafeLoader)
-- 
2.43.0


From 91b87312dadd1e36ab9df76b0584358baf365208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:05 +0000
Subject: [PATCH 194/198] fix: a measurement can have the name of an object of
 sympy

---
 Patro/Measurement/Measurement.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 74c9bbb..6f4dde0 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -23,6 +23,7 @@ __all__ = ['MeasurementSet', 'Measurement']
 ####################################################################################################
 
 import logging
+import re
 from pathlib import Path
 from typing import Optional, Iterator
 
@@ -60,12 +61,22 @@ class Measurement:
             self._value = float(value)
         else:
             # https://docs.sympy.org/latest/modules/core.html#id1
-            self._expression = sympy.sympify(str(value))
+            self._expression = self._parse_expression(str(value))
             self._evaluated_expression = None
             self._value = None
 
     ##############################################
 
+    @staticmethod
+    def _parse_expression(expression: str) -> sympy.core.expr.Expr:
+        # An identifier, which is not a called function, is the name of a measurement, thus a measurement can be
+        # named as a sympy object, e.g. E or beta
+        names = re.findall(r'(?<![\w.])[^\W\d]\w*(?!\w|\s*\()', expression)
+        symbols = {name: sympy.Symbol(name) for name in names if name != 'pi'}
+        return sympy.sympify(expression, locals=symbols)
+
+    ##############################################
+
     @staticmethod
     def _validate_name(name: str) -> str:
         name = str(name)
@@ -148,7 +159,7 @@ class MeasurementSet:
         self._pattern_making_system = pattern_making_system   # Fixme: purpose ???
         self._personal = PersonalData() if personal_data is None else personal_data
         self._measurements = {}   # name -> Measurement
-        self._expressions = {}   # name -> expression  for sympy substitution
+        self._expressions = {}   # symbol -> expression  for sympy substitution
 
     ##############################################
 
@@ -208,7 +219,7 @@ class MeasurementSet:
         if measurement.name in self._measurements:
             raise NameError(f"Measurement {measurement.name} is already registered")
         self._measurements[measurement.name] = measurement
-        self._expressions[measurement.name] = measurement.expression
+        self._expressions[sympy.Symbol(measurement.name)] = measurement.expression
         return measurement
 
     ##############################################
-- 
2.43.0


From 2c66f300d08ede8930a43df0d79a902b2e7ff234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:18 +0000
Subject: [PATCH 195/198] fix: the last span of a spline is closed, for its
 basis too

---
 Patro/GeometryEngine/Spline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 4cbbbc6..f40364d 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -274,7 +274,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if not(self.start_knot <= t <= self.end_knot):
             raise ValueError('Invalid t {}'.format(t))
         if self._uniform:
-            return int(t) + self._degree # start padding
+            return min(int(t), self.end_knot - 1) + self._degree # start padding, the last span is closed
         else:
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
@@ -300,7 +300,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         """De Boor-Cox recursion formula"""
 
         if k == 0:
-            return 1 if self._knots[i] <= t < self._knots[i+1] else 0
+            inf, sup = self._knots[i:i+2]
+            # the last span is closed
+            return 1 if inf <= t < sup or inf < t == sup == self.end_knot else 0
 
         ki = self._knots[i]
         kik = self._knots[i+k]
-- 
2.43.0


From 8dd96908607777d1ed7cac3ccc2af2c2c2863496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:33 +0000
Subject: [PATCH 196/198] fix: a closed path whose start is moved ends at its
 start

---
 Patro/GeometryEngine/Path.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index babc98e..884cfe0 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -930,6 +930,19 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    @property
+    def p0(self):
+        return self._p0
+
+    @p0.setter
+    def p0(self, value):
+        self._p0 = self.__vector_cls__(value)
+        if getattr(self, '_is_closed', False):
+            # a closed path ends at its start
+            self.stop_segment.point = value
+
+    ##############################################
+
     @property
     def is_closed(self):
         return self._is_closed
-- 
2.43.0


From 319eba5ba020fd428a1a75ec8bb7753a9d11fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:47 +0000
Subject: [PATCH 197/198] fix: a regular polygon can be cloned and reversed,
 its frame follows its transformations

---
 Patro/GeometryEngine/Polygon.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 70794a8..a7e019b 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -635,6 +635,31 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        obj._set_points([point.clone() for point in self._points]) # they can be clockwise
+        return obj
+
+    ##############################################
+
+    def reverse(self):
+        obj = self.clone()
+        obj._set_points(obj._points[::-1])
+        return obj
+
+    ##############################################
+
+    def _set_points(self, points):
+        super()._set_points(points)
+        # Note: the polygon is assumed to be still regular
+        self._center = Vector2D(*(sum(c) / self._number_of_edges for c in zip(*self._points)))
+        vector = self._points[0] - self._center
+        self._radius = vector.magnitude
+        if vector:
+            self._angle = vector.orientation
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
-- 
2.43.0


From 726e4194281e7ef2286f5dc1252372d0702a5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:20 +0000
Subject: [PATCH 198/198] fix: segments whose bounding boxes are disjoint do
 not intersect

---
 Patro/GeometryEngine/Segment.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index 901e2b1..0884dd4 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -110,6 +110,14 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
         segment1 = self
 
+        # the orientations of nearly aligned points are decided by the rounding,
+        # segments whose bounding boxes are disjoint don't intersect
+        for i in range(2):
+            inf1, sup1 = sorted((segment1.p0[i], segment1.p1[i]))
+            inf2, sup2 = sorted((segment2.p0[i], segment2.p1[i]))
+            if sup1 < inf2 or sup2 < inf1:
+                return False
+
         # triangle_orientation returns 0 if two points are identical, except from the situation
         # when p0 and p1 are identical and different from p2
         ccw11 = triangle_orientation(segment1.p0, segment1.p1, segment2.p0)
-- 
2.43.0

