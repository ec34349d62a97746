From 3d376c1942ed7f9038fd731c9ed47433c426af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 01/36] fix: dict_data_eq ignored the keys that only the second
 dictionary has

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..42e3114 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1189,6 +1189,8 @@ def data_eq(value1, value2):
 
 def dict_data_eq(dict1, dict2):
     """ Returns True if two dictionaries are equal on data equality, False otherwise. """
+    if len(dict1) != len(dict2):
+        return False
     for key, value in dict1.items():
         if key not in dict2:
             return False
-- 
2.43.0


From 969ee85549c2d8a86601697f024989685fe6e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 02/36] fix: data_eq considered any two classes equal

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 42e3114..8146016 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1166,7 +1166,7 @@ def data_eq(value1, value2):
         return value1 == value2
 
     if isinstance(value1, type):
-        return full_classname(value1) == full_classname(value2)
+        return full_classname(value1, compute_for='class') == full_classname(value2, compute_for='class')
 
     # Else: its an object
     if full_classname(value1) != full_classname(value2):
-- 
2.43.0


From e7a160c32e73e106548aa8c3b3196766df364f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 03/36] fix: dict_diff swapped its operands and missed keys
 when the second dictionary is longer

---
 dessia_common/utils/diff.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 043c9a0..fd93d1b 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -139,21 +139,16 @@ def dict_diff(dict1, dict2, path='#'):
     """ Returns diff between two dictionaries. """
     diff_object = Diff([], [], [])
 
-    dict_ = dict1
-    other_dict = dict2
-    first_object = False
-    if len(dict2) > len(dict1):
-        dict_ = dict2
-        other_dict = dict1
-        first_object = True
-    for key, value in dict_.items():
+    for key, value in dict1.items():
         path_key = f'{path}/{key}'
-        if key not in other_dict:
-            diff_object.missing_attributes.append(MissingAttribute(path=path_key,
-                                                                   missing_in_first_object=first_object))
+        if key not in dict2:
+            diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
-            diff_key = diff(value, other_dict[key], path=path_key)
+            diff_key = diff(value, dict2[key], path=path_key)
             diff_object += diff_key
+    for key in dict2:
+        if key not in dict1:
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}', missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From be7f3fd543710bf9c0f7bb07e39d9f96e77e8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:26 +0000
Subject: [PATCH 04/36] fix: diff compared other attributes and types than
 data_eq does

---
 dessia_common/utils/diff.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index fd93d1b..4ae2672 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -7,7 +7,7 @@ from typing import List
 
 from dessia_common import FLOAT_TOLERANCE
 from dessia_common.utils.types import isinstance_base_types
-from dessia_common.utils.helpers import is_sequence
+from dessia_common.utils.helpers import full_classname, is_sequence
 
 
 class DifferentValues:
@@ -101,7 +101,7 @@ def diff(value1, value2, path='#'):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_diff(value1, value2, path=path)
 
-    if not isinstance(value1, type(value2)):
+    if not isinstance(value1, type(value2)) and not isinstance(value2, type(value1)):
         invalid_types.append(DifferentType(path, value1, value2))
         return Diff(diff_values, missing_keys_in_other_object, invalid_types)
 
@@ -121,13 +121,11 @@ def diff(value1, value2, path='#'):
         if value1._data_eq(value2):
             return Diff([], [], [])
 
-        # Use same code snippet as in data_eq
-        eq_dict = value1._serializable_dict()
-        if 'name' in eq_dict:
-            del eq_dict['name']
+        if full_classname(value1) != full_classname(value2):
+            return Diff([], [], [DifferentType(path, value1, value2)])
 
-        other_eq_dict = value2._serializable_dict()
-        return dict_diff(eq_dict, other_eq_dict, path=path)
+        # Same attributes as in data_eq
+        return dict_diff(value1._data_eq_dict(), value2._data_eq_dict(), path=path)
 
     if value1 == value2:
         return Diff([], [], [])
-- 
2.43.0


From 4f50f69216b47f1bbeedbb8684df967da401db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 05/36] fix: set_in_object_from_path added a string key next to
 an existing non-string key

---
 dessia_common/utils/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 513c6d3..178165c 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -188,6 +188,9 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
+        if last_segment not in last_object:
+            # Existing key might not be a string, as handled in extract_segment_from_object
+            last_segment = next((key for key in last_object if str(key) == last_segment), last_segment)
         last_object[last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 25d92e678f286e5e646049c88f64ea3067f19143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:23 +0000
Subject: [PATCH 06/36] fix: 'xor' combination of filters behaved as 'or'

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 8146016..b8d8d34 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1045,7 +1045,7 @@ class FiltersList(DessiaObject):
         if logical_operator == 'or':
             return [any(booleans_tuple) for booleans_tuple in zip(*booleans_lists)]
         if logical_operator == 'xor':
-            return [bool(sum(booleans_tuple)) for booleans_tuple in zip(*booleans_lists)]
+            return [sum(booleans_tuple) % 2 == 1 for booleans_tuple in zip(*booleans_lists)]
         raise NotImplementedError(f"'{logical_operator}' str for 'logical_operator' attribute is not a use case")
 
     def get_booleans_index(self, dobjects_list: List[DessiaObject]):
-- 
2.43.0


From ae892bb11fb904332acaf78b7c62c406b84cc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:40 +0000
Subject: [PATCH 07/36] fix: type_check ignored its level for int, float and
 str

---
 dessia_common/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/checks.py b/dessia_common/checks.py
index 5b25f29..cde8c2f 100644
--- a/dessia_common/checks.py
+++ b/dessia_common/checks.py
@@ -142,11 +142,11 @@ def type_check(value, expected_type, level: str = 'error'):
     This is experimental!
     """
     if expected_type is int:
-        return is_int(value)
+        return is_int(value, level=level)
     if expected_type is float:
-        return is_float(value)
+        return is_float(value, level=level)
     if expected_type is str:
-        return is_str(value)
+        return is_str(value, level=level)
 
     if not isinstance(value, expected_type):
         return CheckList([FailedCheck(f'Value {value} is not of type {expected_type}')])
-- 
2.43.0


From 4e35ac1be775a5871fd28aaf1039d1f35ab7ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:40 +0000
Subject: [PATCH 08/36] fix: istep_from_value_on_list gave a wrong index on
 decreasing segments and divided by zero on flat ones

---
 dessia_common/utils/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index b928f2b..53efd65 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,7 +10,9 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
-            alpha = (value - point1_s) / (point2_s - point1_s)
+            if point1 == point2:
+                return float(ipoint)
+            alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
             return ipoint + alpha
-- 
2.43.0


From a4c23e448625c8b6dba2137a97bcd54c4ad9293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:03 +0000
Subject: [PATCH 09/36] fix: Parameter.are_values_equal did not wrap around the
 period

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index b8d8d34..8462c8c 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -775,8 +775,8 @@ class Parameter(DessiaObject):
     def are_values_equal(self, value1, value2, tol=1e-2):
         """ Check equality according to given tolerance. """
         if self.periodicity is not None:
-            value1 = value1 % self.periodicity
-            value2 = value2 % self.periodicity
+            gap = (value1 - value2) % self.periodicity
+            return min(gap, self.periodicity - gap) <= tol
 
         return math.isclose(value1, value2, abs_tol=tol)
 
-- 
2.43.0


From 6a90dd773ee49e1a11c86d00615fda5ff352f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 10/36] fix: optimize_cma_then_gradient started the gradient
 from a dimensioned vector

---
 dessia_common/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..abe4a89 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -163,7 +163,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([bound.dimensionless_value(getattr(model_cma, bound.attribute_name))
+                        for bound in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From 655cd1f177ed36bc4e5d558aefb97202dbb87424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 11/36] fix: typematch accepted tuples of different lengths

---
 dessia_common/utils/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 7242719..e115274 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -341,7 +341,9 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
         return typematch(type_args[0], match_against_args[0])
 
     if type_origin is tuple:
-        # Order matters, all arguments should match
+        # Order and length matter, all arguments should match
+        if len(type_args) != len(match_against_args):
+            return False
         return all(typematch(a, b) for a, b in zip(type_args, match_against_args))
 
     if type_origin is dict:
-- 
2.43.0


From f6f3e481aa111e10a751bcfdf59c1a51d312ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 12/36] fix: sum of Datasets kept common attributes that the
 second one does not have

---
 dessia_common/datatools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..8c98f3d 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -133,7 +133,7 @@ class Dataset(DessiaObject):
         sum_hlist = self.__class__(dessia_objects=self.dessia_objects + other.dessia_objects,
                                    name=self.name[:5] + '_+_' + other.name[:5])
 
-        if all(item in self.common_attributes for item in other.common_attributes):
+        if self.common_attributes == other.common_attributes:
             sum_hlist._common_attributes = self.common_attributes
             if self._matrix is not None and other._matrix is not None:
                 sum_hlist._matrix = self._matrix + other._matrix
-- 
2.43.0


From 0834f4e561bf5d4cdb3ca1cc354a4d888ba71ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 13/36] fix: printed Dataset repeated its first rows instead of
 showing the last ones

---
 dessia_common/datatools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 8c98f3d..dfc0024 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -212,7 +212,7 @@ class Dataset(DessiaObject):
 
     def _print_objects_slice(self, key: slice, attr_space: List[int]):
         string = ""
-        for index in range(len(self[key])):
+        for index in range(*key.indices(len(self))):
             string += "\n"
             string += self._print_object(index, attr_space)
         return string
-- 
2.43.0


From 0f3df1f8919e4faa824522fb388072ccf63371a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 14/36] fix: sorting a ClusteredDataset left its labels in the
 previous order

---
 dessia_common/datatools/cluster.py |  4 ++++
 dessia_common/datatools/dataset.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 1adc1e3..c9dbe04 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -89,6 +89,10 @@ class ClusteredDataset(Dataset):
         # new_hlist.name += "_list")
         return new_hlist
 
+    def _reorder(self, indexes: List[int]):
+        Dataset._reorder(self, indexes)
+        self.labels = [self.labels[idx] for idx in indexes]
+
     def _printed_attributes(self):
         return ["label"] + Dataset._printed_attributes(self)
 
diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index dfc0024..1d44bec 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -432,10 +432,12 @@ class Dataset(DessiaObject):
                 sort_indexes = npy.argsort(self.column_values(key))
             elif isinstance(key, str):
                 sort_indexes = npy.argsort(self.attribute_values(key))
-            self.dessia_objects = [self.dessia_objects[idx] for idx in (sort_indexes if ascend else sort_indexes[::-1])]
-            if self._matrix is not None:
-                self._matrix = [self._matrix[idx] for idx in
-                                (sort_indexes if ascend else sort_indexes[::-1])]
+            self._reorder(sort_indexes if ascend else sort_indexes[::-1])
+
+    def _reorder(self, indexes: List[int]):
+        self.dessia_objects = [self.dessia_objects[idx] for idx in indexes]
+        if self._matrix is not None:
+            self._matrix = [self._matrix[idx] for idx in indexes]
 
     def mean(self):
         """
-- 
2.43.0


From 4e86213e804bcb95b4aee3f8f729a80904a98835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 15/36] fix: clustered_sublists mixed up clusters, labels and
 outliers

---
 dessia_common/datatools/cluster.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index c9dbe04..ebabd9e 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -137,12 +137,13 @@ class ClusteredDataset(Dataset):
         |    21.0 |            0.199 |           90.0 |     2648.0 |             15.0 |
         """
         sublists = []
-        label_tags = sorted(list(map(str, set(self.labels).difference({-1}))))
-        unic_labels = list(set(self.labels))
+        unic_labels = sorted(set(self.labels).difference({-1}))
+        label_tags = list(map(str, unic_labels))
         for _ in range(self.n_clusters):
             sublists.append([])
         if -1 in self.labels:
             sublists.append([])
+            unic_labels.append(-1)
             label_tags.append("outliers")
 
         for idx, label in enumerate(self.labels):
@@ -151,9 +152,7 @@ class ClusteredDataset(Dataset):
         new_dessia_objects = [Dataset(dessia_objects=sublist, name=self.name + f"_{label_tag}")
                               for label_tag, sublist in zip(label_tags, sublists)]
 
-        return ClusteredDataset(new_dessia_objects,
-                                list(set(self.labels).difference({-1})) + ([-1] if -1 in self.labels else []),
-                                name=self.name + "_split")
+        return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
         if not isinstance(self.dessia_objects[0], Dataset):
-- 
2.43.0


From 603da95186f3837aa0a458760722024d9fc00a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 16/36] fix: tuple annotations with a nested Tuple[T, ...]
 could not be deserialized

---
 dessia_common/schemas/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 380665c..1ddeb16 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1111,10 +1111,9 @@ class HeterogeneousSequence(TypingProperty):
     def annotation_from_serialized(cls, serialized: str) -> Type[Tuple]:
         """ Deserialize Tuple annotation with undefined length support. """
         rawargs = cls._raw_args_from_serialized(serialized)
-        if ",..." in rawargs:
-            arg = rawargs.split(",...")[0]
-            subtype = deserialize_annotation(arg)
-            return Tuple[subtype, ...]
+        args = extract_args(rawargs)
+        if len(args) == 2 and args[1] == "...":
+            return Tuple[deserialize_annotation(args[0]), ...]
         return Tuple[TypingProperty._args_from_serialized(serialized)]
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From a6a6322f59d3d0b1179c52b02d4faf4af6a4bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 17/36] fix: Literal annotations lost spaces and were split at
 commas when deserialized

---
 dessia_common/schemas/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 1ddeb16..0aa6e8f 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -650,8 +650,7 @@ class TypingProperty(Property):
     def _raw_args_from_serialized(cls, serialized: str) -> str:
         """ Get arguments as str from serialized value. """
         if "[" in serialized and "]" in serialized:
-            args = re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
-            return args.replace(" ", "")
+            return re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
         return ""
 
     @classmethod
@@ -1644,7 +1643,7 @@ class EnumProperty(TypingProperty):
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Specifically reset args as a tuple while removing one layer of single quotes. """
         args = cls._raw_args_from_serialized(serialized)
-        return Literal[tuple(args.replace("'", "").split(","))]
+        return Literal[tuple(re.findall(r"'([^']*)'", args))]
 
     @property
     def get_import_name(self):
@@ -1862,7 +1861,14 @@ def extract_args(string: str) -> List[str]:
     closed_brackets = 0
     current_arg = ""
     arguments = []
-    for character in string.replace(" ", ""):
+    quoted = False
+    for character in string:
+        if character == "'":
+            quoted = not quoted
+        if quoted or character == " ":
+            # Literal values are kept as they are, other spaces are meaningless
+            current_arg += character if quoted else ""
+            continue
         if character == "[":
             opened_brackets += 1
         if character == "]":
-- 
2.43.0


From 6c8aa5e81dada75850bdc08ce5d64d6eb51a9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 18/36] fix: CadViewType, PlotDataType and MarkdownType
 annotations could not be deserialized

---
 dessia_common/schemas/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 0aa6e8f..ad85f7d 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1739,7 +1739,8 @@ SERIALIZED_TO_SCHEMA_CLASS = {
     "Tuple": HeterogeneousSequence, "List": HomogeneousSequence, "Iterator": HomogeneousSequence,
     "Union": UnionProperty, "Dict": DynamicDict, "InstanceOf": InstanceOfProperty, "Subclass": SubclassProperty,
     "MethodType": MethodTypeProperty, "ClassMethodType": MethodTypeProperty, "Type": ClassProperty,
-    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty
+    "AttributeType": AttributeTypeProperty, "ClassAttributeType": AttributeTypeProperty, "Literal": EnumProperty,
+    "CadViewType": SelectorProperty, "PlotDataType": SelectorProperty, "MarkdownType": SelectorProperty
 }
 
 
-- 
2.43.0


From 0573a9f2196b87477f4cf19ac7886335772d9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 19/36] fix: deep copy of typed methods and attributes lost
 their class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 7d643ec8d8a73185edbf6331fc5e9af3b4a40cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:05 +0000
Subject: [PATCH 20/36] fix: Sum block summed its variables instead of their
 values

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 4f26944a6a450e15a751938a2654c6d17a0e7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:05 +0000
Subject: [PATCH 21/36] fix: method_dict of a workflow failed as soon as an
 input had a default value

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..2b7cb49 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -834,7 +834,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 4cd634afc62e640748b92cc858fbbcf874b265be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 22/36] fix: remove_input_from_step listed an input twice when
 it was in no step

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2b7cb49..f1527f1 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1432,8 +1432,10 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' is not in any step.")
+        self.spare_inputs.append(input_)
         current_step.inputs.remove(input_)
         return self.method_schemas["run"]
 
-- 
2.43.0


From 32d5af4383a308db8c21930aca56d5cc3d02190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:25 +0000
Subject: [PATCH 23/36] fix: reorder_step_inputs accepted orders that list an
 input several times

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f1527f1..b05eb61 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1443,7 +1443,7 @@ class Workflow(Block):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
-- 
2.43.0


From 5af75c1b69dd0d90de93169563040f3f58742d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:25 +0000
Subject: [PATCH 24/36] fix: reorder_steps accepted negative indices, which
 duplicated a step and lost another

---
 dessia_common/workflow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b05eb61..4b7ddd8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1471,6 +1471,8 @@ class Workflow(Block):
                              f"It should be of length '{len(self.steps)}' ")
         if len(set(order)) != len(self.steps):
             raise ValueError(f"Duplicated indices found in given order '{order}'")
+        if any(i not in range(len(self.steps)) for i in order):
+            raise ValueError(f"Given order '{order}' has indices that are out of range")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
 
-- 
2.43.0


From ea19c3ff1a8031574acfecaf3f1c023520911d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 25/36] fix: script of a workflow with a Filter block was not
 valid Python

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..6a90314 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -683,7 +683,7 @@ class Filter(Block):
         filter_variables = [f"DessiaFilter("
                             f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
                             f"bound={f.bound}, name='{f.name}')" for f in self.filters]
-        filters = f"[{','.join(filter_variables)}"
+        filters = f"[{','.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
-- 
2.43.0


From 97b4a6ad711dc6ffa5c04bd5395bfe6c04709920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 26/36] fix: copy of a workflow variable lost its label and
 position

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4b7ddd8..2eff22c 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -147,7 +147,8 @@ class Variable(DessiaObject):
         if memo is None:
             memo = {}
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
-        variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable = Variable(type_=self.type_, default_value=default_value, name=self.name, label=self.label,
+                            position=self.position)
         if self.locked:
             variable.lock()
         return variable
-- 
2.43.0


From 04d76ff40aea9222f515b46969d51a8c2cc0fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 27/36] fix: copy of a workflow lost its description and
 documentation

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2eff22c..685c793 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -553,7 +553,8 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
+                            documentation=self.documentation, name=self.name)
 
         # Locking variables
         for i, input_ in enumerate(self.inputs):
-- 
2.43.0


From 9ba4547bfb8b2c448a49e50841be1e5bae8d2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:48 +0000
Subject: [PATCH 28/36] fix: nonblock variables of a workflow lost their lock
 when deserialized

---
 dessia_common/workflow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 685c793..653320a 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2312,6 +2312,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, config in zip(nonblock_variables, dict_['nonblock_variables']):
+            if config.get("locked") and variable.has_default_value:
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From 2a29e8f4075c6c4c89a15adc1e8753d188722af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 29/36] fix: workflows with a step that has no display could
 not be hashed nor compared

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 653320a..98dcaac 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -302,7 +302,7 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + (self.display_variable_index or 0))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-- 
2.43.0


From dd5d783bfb3e4a1b7b6ed14e4e05a141386dc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 30/36] fix: copy of an untyped workflow variable got the type
 of its default value

---
 dessia_common/workflow/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 98dcaac..380a256 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -149,6 +149,7 @@ class Variable(DessiaObject):
         default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
         variable = Variable(type_=self.type_, default_value=default_value, name=self.name, label=self.label,
                             position=self.position)
+        variable.type_ = self.type_
         if self.locked:
             variable.lock()
         return variable
-- 
2.43.0


From 6b6cd09cac2eb3683e1e94f5e903080cfe96a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:12 +0000
Subject: [PATCH 31/36] fix: copy of a workflow lost the labels and default
 values of its block inputs

---
 dessia_common/workflow/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 380a256..d31da31 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -558,9 +558,13 @@ class Workflow(Block):
                             documentation=self.documentation, name=self.name)
 
         # Locking variables
-        for i, input_ in enumerate(self.inputs):
+        for input_, copied_input in zip(self.inputs, workflow.inputs):
+            copied_input.label = input_.label
+            copied_input.default_value = UNDEFINED
+            if input_.has_default_value:
+                copied_input.default_value = deepcopy_value(input_.default_value, memo)
             if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+                copied_input.lock()
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 5ac079ab15055a75e49a9e6883d16bff2cef25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 32/36] fix: copy of a workflow step lost the grouped inputs
 that earlier steps own

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index d31da31..73e2925 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -574,8 +574,8 @@ class Workflow(Block):
             input_index = self.variable_indices(input_)
             copied_input = copied_workflow.variable_from_index(input_index)
             inputs.append(copied_input)
-            if input_ in step.group_inputs:
-                group_inputs.append(copied_input)
+        for input_ in step.group_inputs:
+            group_inputs.append(copied_workflow.variable_from_index(self.variable_indices(input_)))
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-- 
2.43.0


From 7020da5b34e00480ea71d96c0d8f392eb001db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 33/36] fix: copies drop the keyword-only attributes of an
 object

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 8462c8c..b253f3d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -336,7 +336,7 @@ class DessiaObject(SerializableObject):
             _fullargsspec_cache[class_name] = class_argspec
 
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
                 if hasattr(value, '__copy__'):
@@ -357,7 +357,7 @@ class DessiaObject(SerializableObject):
         if memo is None:
             memo = {}
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 dict_[arg] = deepcopy_value(getattr(self, arg), memo=memo)
         return self.__class__(**dict_)
-- 
2.43.0


From 4ef9433763ff37130a39e1399cab6cf87618bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:24 +0000
Subject: [PATCH 34/36] fix: typematch accepts a type against its Optional, in
 any order of the Union arguments

---
 dessia_common/utils/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index e115274..01275e5 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -305,6 +305,11 @@ def typematch(type_: Type, match_against: Type) -> bool:
         # Trivial cases. If types are strictly equal, then it should pass straight away
         return True
 
+    healed_type, healed_match = heal_type(type_)[0], heal_type(match_against)[0]
+    if healed_type != type_ or healed_match != match_against:
+        # Optionals match as the types they wrap
+        return typematch(healed_type, healed_match)
+
     if is_typing(type_):
         return complex_first_type_match(type_, match_against)
 
@@ -374,7 +379,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = type_args[0]
+            type_ = type_args[1] if type_args[0] is type(None) else type_args[0]
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From 6f646361d595294ea4cb5da2c3a55031ea64672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 35/36] fix: a deep copy keeps equal sub-objects apart, with
 their own names, by identifying them by id in the memo

---
 dessia_common/utils/copy.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..d2cde18 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -44,7 +44,7 @@ def deepcopy_value(value, memo):
             warnings.warn(f'{value.__class__.__name__}.copy() does not implement deep and memo arguments')
             copied_value = value.copy()
 
-        memo[value] = copied_value
+        add_to_memo(value, copied_value, memo)
         return copied_value
 
     if isinstance(value, (dessia_common.files.BinaryFile, dessia_common.files.StringFile)):
@@ -60,7 +60,7 @@ def deepcopy_value(value, memo):
         except TypeError:
             # Memo not handled
             copied_value = copy.deepcopy(value)
-        memo[value] = copied_value
+        add_to_memo(value, copied_value, memo)
         return copied_value
 
     if is_sequence(value):
@@ -99,8 +99,11 @@ def deepcopy_sequence(seq_value, memo):
 
 
 def search_memo(value, memo):
-    """ Search in given memo. """
-    try:
-        return memo[value]
-    except (TypeError, KeyError):
-        return None
+    """ Search in given memo. As in copy.deepcopy, values are identified by their ids. """
+    return memo.get(id(value))
+
+
+def add_to_memo(value, copied_value, memo):
+    """ Remember the copy of a value. The value is also kept, so that its id is not the one of another value later. """
+    memo[id(value)] = copied_value
+    memo['value', id(value)] = value
-- 
2.43.0


From ea7abc8b7306dd8538919cce31d017e21e4b56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 36/36] fix: equal objects that are written differently (names,
 types of numbers) are not merged when written with references

---
 dessia_common/serialization.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..ea765f1 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -124,9 +124,29 @@ def serialize(value):
     return serialized_value
 
 
+def _written_content(value):
+    """ What is written of a value, to tell apart equal values that are not written the same (names, for instance). """
+    if isinstance(value, SerializableObject):
+        if value.__class__.to_dict is not SerializableObject.to_dict:
+            return value.__class__, getattr(value, 'name', None)
+        return value.__class__, tuple((k, _written_content(v)) for k, v in value._serializable_dict().items())
+    if isinstance(value, dict):
+        return tuple((k, _written_content(v)) for k, v in value.items())
+    if is_sequence(value):
+        return tuple(_written_content(v) for v in value)
+    if value is None or isinstance(value, (bool, int, float, str)):
+        return value.__class__, value
+    return None
+
+
+def _memo_key(value):
+    """ Key of a value in memo. Objects that are equal but not written the same are different. """
+    return value, _written_content(value) if isinstance(value, SerializableObject) else None
+
+
 def _find_in_memo(memo, value, id_memo):
     """ Browse memo to find other occurrences of given value. """
-    path_to_refs, serialized_value, id_, _ = memo[value]
+    path_to_refs, serialized_value, id_, _ = memo[_memo_key(value)]
     id_memo[id_] = serialized_value
     return {REF_MARKER: path_to_refs}, memo
 
@@ -144,12 +164,12 @@ def _serialize_and_set_in_memo(memo, value, id_memo, id_method, path):
     if id_method:
         id_ = str(uuid.uuid1())
         path_to_refs = f"#/_references/{id_}"
-        memo[value] = path_to_refs, serialized, id_, path
+        memo[_memo_key(value)] = path_to_refs, serialized, id_, path
         if is_dessia_object and value._standalone_in_db:
             id_memo[id_] = serialized
             serialized = {REF_MARKER: path_to_refs}
     else:
-        memo[value] = path, serialized, None, path
+        memo[_memo_key(value)] = path, serialized, None, path
     return serialized
 
 
@@ -164,7 +184,7 @@ def serialize_with_pointers(value, memo=None, path='#', id_method=True, id_memo=
     if isinstance(value, type):
         serialized = serialize_annotation(value)
     elif hasattr(value, 'to_dict'):
-        if value in memo:
+        if _memo_key(value) in memo:
             return _find_in_memo(memo, value, id_memo)
         serialized = _serialize_and_set_in_memo(memo=memo, value=value, id_memo=id_memo, id_method=id_method, path=path)
 
-- 
2.43.0

