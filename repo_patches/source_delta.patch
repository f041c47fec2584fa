From f0b2f8e23e09ee4070ddf91b7018694c4b95b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 01/45] fix: remove indirect dependencies in descending index
 order

---
 omtools/core/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..5e23fc6 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,9 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices; ascending order, so that removing in
+    # reverse does not shift the indices yet to be removed
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From d2c2e39b4baee59a411bf222cee030b815b45ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 02/45] fix: apply array exponents elementwise

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 omtools/core/variable.py                                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..d5c9a64 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,7 +64,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
                 print(in_name)
                 print(inputs[in_name])
                 exit()
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..d589024 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,7 +701,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From e05c92282d2297fe7d4101c086e8a19913faf34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 03/45] fix: do not overwrite the coeff option when computing
 partials

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index d5c9a64..86f861f 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From d0c9561a1e59e5e0a5fd080cba289bdb5814267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 04/45] fix: raise an error instead of exiting the interpreter
 on division by zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 86f861f..0d69fa1 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -65,9 +65,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
             if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+                raise ZeroDivisionError("Input " + in_name +
+                                        " is zero and has a negative power")
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From adea399ba1feb721c60a7d32340d1945e8c9be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 05/45] fix: allow division of an expression by an array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index d589024..f77d65e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -647,7 +647,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From 91ad2bdd28d3155ed0f304c71fd69490b7fb1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 06/45] fix: average over more than one axis

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From 14bd01a2f785f1d0fd4f7e5347dfa0c809abc440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 07/45] fix: allow the same expression as both operands of a
 binary operator

---
 .../arithmetic_comps/power_combination_comp.py    | 12 +++++++++++-
 omtools/comps/linearcombination_comp.py           | 12 +++++++++++-
 omtools/utils/process_options.py                  | 15 +++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 0d69fa1..503464d 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list
-from omtools.utils.process_options import scalar_types, get_scalars_list
+from omtools.utils.process_options import scalar_types, get_scalars_list, combine_repeated_names
 
 
 class PowerCombinationComp(ArrayExplicitComponent):
@@ -45,6 +45,16 @@ class PowerCombinationComp(ArrayExplicitComponent):
             self.options['powers'] = get_scalars_list(self.options['powers'],
                                                       self.options['in_names'])
 
+        (
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        ) = combine_repeated_names(
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        )
+
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
         out_name = self.options['out_name']
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..a629cf1 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -1,6 +1,6 @@
 import numpy as np
 from openmdao.api import ExplicitComponent
-from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list
+from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list, combine_repeated_names
 
 
 class LinearCombinationComp(ExplicitComponent):
@@ -37,6 +37,16 @@ class LinearCombinationComp(ExplicitComponent):
             self.options['coeffs'] = get_scalars_list(self.options['coeffs'],
                                                       self.options['in_names'])
 
+        (
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        ) = combine_repeated_names(
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        )
+
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
         out_name = self.options['out_name']
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index c257204..17250c6 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -28,6 +28,21 @@ def get_scalars_list(scalars, names):
     return scalars
 
 
+
+def combine_repeated_names(names, scalars, vals):
+    """
+    Merge entries with the same name, adding up their scalars
+    """
+    combined = dict()
+    for name, scalar, val in zip(names, scalars, vals):
+        if name in combined:
+            scalar = combined[name][0] + scalar
+        combined[name] = (scalar, val)
+    scalars = [scalar for scalar, _ in combined.values()]
+    vals = [val for _, val in combined.values()]
+    return list(combined), scalars, vals
+
+
 shape_types = (tuple, list)
 
 
-- 
2.43.0


From 7aa730efd14541cad3873d38f45a0a1d93c6d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 08/45] fix: shape and derivatives of if_else

---
 omtools/std/if_else.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..12032e4 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -20,7 +20,7 @@ class ConditionalComponent(ExplicitComponent):
         self.add_input(condition.name, condition.val)
         self.add_input(expr_true.name, expr_true.val)
         self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
             of=out_name,
@@ -47,10 +47,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
@@ -65,6 +65,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 20f9745423f5d76a3ff0426ac3a1cd3aee30d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 09/45] fix: matmat result has the shape of the value it
 computes

---
 omtools/comps/matmat_comp.py | 6 +++++-
 omtools/std/matmat.py        | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..c29da18 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -24,6 +24,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
         self.options.declare('in_vals', types=list)
 
     def setup(self):
@@ -35,7 +36,10 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        if self.options['out_shape'] is not None:
+            output_shape = self.options['out_shape']
+
+        elif in_shapes[1][1] != 1:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         else:
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..6fe4304 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -33,11 +33,12 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2.shape],
+            out_shape=out.shape,
             in_vals=[mat1.val, mat2.val],
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
@@ -45,6 +46,7 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
+            out_shape=out.shape,
             in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
         )
     else:
-- 
2.43.0


From 33daaf7654ff6920530bc9cf1460b2f9fdfba27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 10/45] fix: cross product along an axis counted from the end

---
 omtools/std/cross.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..77a4d6d 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -30,6 +30,10 @@ def cross(in1, in2, axis: int):
     else:
         out.shape = in1.shape
 
+    # the component expects an axis counted from the front
+    if axis < 0:
+        axis += len(in1.shape)
+
     if in1.shape[axis] != 3:
         raise Exception(
             "The specified axis must correspond to the value of 3 in shape")
-- 
2.43.0


From bba82049ee23d6be9b522f5bf0d96ad22b3d85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 11/45] fix: einsum partials when an operand follows a repeated
 operand

---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..e9bcd9c 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -348,7 +348,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
-- 
2.43.0


From 10d9bf4086f592c16eab433fd9381726e1df84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 12/45] fix: index sparse einsum partials with a tuple

---
 omtools/comps/einsum_comp_sparse_derivs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index e9bcd9c..7500a87 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -381,7 +381,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(
+                    partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From 0a8b52ad9ed6252299d18cfc19649c446a1377b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 13/45] fix: sparse einsum partials of an operand after one
 with dense partials

---
 omtools/comps/einsum_comp_sparse_derivs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 7500a87..da42046 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry per input
+                self.partial_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
-- 
2.43.0


From 1ab3274c12e08a1df975fb416858afc985bd9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 14/45] fix: indexing an expression whose default value has a
 different shape

---
 omtools/core/variable.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index f77d65e..453ec4b 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -143,9 +143,15 @@ class Variable():
         self,
         key: Union[int, slice, Tuple[slice]],
     ):
+        # default value does not have the shape of the expression in
+        # general
+        default_val = self.val
+        if np.shape(default_val) != tuple(self.shape):
+            default_val = np.ones(self.shape)
+
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=default_val)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +202,8 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = default_val[tuple([slice(s[0], s[1], s[2])
+                                 for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
@@ -207,7 +214,7 @@ class Variable():
         self._decomp.build = lambda: DecomposeComp(
             in_name=self.name,
             expr=self._decomp,
-            val=self.val,
+            val=default_val,
         )
         return expr
 
-- 
2.43.0


From 6972d4021b8bdf50274156a3613da5bd2de6b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 15/45] fix: indexed assignment of an expression registered
 after the assignment

---
 omtools/core/explicit_output.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..87b3586 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -157,10 +157,13 @@ class ExplicitOutput(Output):
             raise ValueError("Indices used for assignment must not overlap")
 
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            # an expression may be renamed when it is registered
+            expr_indices={e.name: i
+                          for e, i in self._tgt_indices.items()},
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: v
+                  for e, v in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From 648713c075f0393d646ec613f916b2ff58bcf130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 16/45] fix: keep the brackets of every implicit output

---
 omtools/core/implicit_output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..cd86933 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,7 +154,8 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From 3741898836de126a749dd8473d9edfe5abcee239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 17/45] fix: honor maxiter option of ImplicitComponent

---
 omtools/comps/implicit_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..e03bd79 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -158,7 +158,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
-- 
2.43.0


From 689814072ed058f82dfbe8a78a9cdac9cc011216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 18/45] fix: linear solve of implicit outputs whose residual
 elements are coupled

---
 omtools/comps/implicit_component.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index e03bd79..2a8ac4d 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -255,14 +255,17 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                                                            in_expr.name]
                 jacobian[out_name, out_name] = jac[res_name, out_name]
 
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                self.derivs[out_name] = jac[res_name, out_name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
         for out_name in self.group.res_out_map.values():
             if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
+                d_outputs[out_name] += np.linalg.solve(
+                    self.derivs[out_name],
+                    d_residuals[out_name].flatten(),
+                ).reshape(d_outputs[out_name].shape)
             else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+                d_residuals[out_name] += np.linalg.solve(
+                    self.derivs[out_name].T,
+                    d_outputs[out_name].flatten(),
+                ).reshape(d_residuals[out_name].shape)
-- 
2.43.0


From ecf4d0475151e29990932d03fa95afa9988ebc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 19/45] fix: reject expand indices that would permute the axes
 of the input

---
 omtools/std/expand.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..33932a1 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -25,6 +25,10 @@ def expand(expr: Variable, shape: tuple, indices=None):
             if index not in in_indices:
                 expand_indices.append(i)
 
+        # axes of the input keep their order
+        if ''.join(i for i in out_indices if i in in_indices) != in_indices:
+            raise ValueError(indices, " is invalid")
+
     out = Variable()
     out.shape = shape
     out.add_dependency_node(expr)
-- 
2.43.0


From 4c328bddb15000372e108e6f6daf31eeed3d3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 20/45] fix: partials of arcsin and sech for arrays with more
 than one axis

---
 omtools/comps/arcsincomp.py | 3 ++-
 omtools/comps/sechcomp.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..354ee55 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (
+            1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..2cc2a8a 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,9 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (
+            -1.0 * np.tanh(inputs[in_name]) *
+            (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 619483e0097bd74ef913c4996d04460c6d6fe109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 21/45] fix: matmat with a computed vector as the second
 operand

---
 omtools/std/matmat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 6fe4304..acd50d2 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -47,7 +47,10 @@ def matmat(mat1, mat2):
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
             out_shape=out.shape,
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[
+                mat1.val,
+                np.broadcast_to(mat2.val, mat2.shape).reshape(mat2_shape)
+            ],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From d1e4a1c4c9f50d85028ed020342d45ac799980b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 22/45] fix: if_else with computed array operands

---
 omtools/std/if_else.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 12032e4..80d9c84 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,9 +17,9 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
+        self.add_input(condition.name, shape=condition.shape, val=condition.val)
+        self.add_input(expr_true.name, shape=expr_true.shape, val=expr_true.val)
+        self.add_input(expr_false.name, shape=expr_false.shape, val=expr_false.val)
         self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
-- 
2.43.0


From 7c3d7f2f293331beb1d862342d78496adb52c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 23/45] fix: implicit outputs start at their declared value

---
 omtools/comps/implicit_component.py | 2 +-
 omtools/core/implicit_output.py     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 2a8ac4d..b28b621 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index cd86933..de6a5f2 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,6 +154,7 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
+        self.group.out_vals[self.name] = self.val
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
-- 
2.43.0


From 08835bd9d5281d7aecb4417c93a4d185b2ffdb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 24/45] fix: reject indexed assignment to an output that is
 already defined

---
 omtools/core/explicit_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 87b3586..7ae8224 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -90,6 +90,9 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError("Variable for output " + self.name +
+                             " is already defined using define")
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From 68272d52851a2163171319ca02195d00e50b4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 25/45] fix: do not keep an option declared with an invalid
 default

---
 omtools/utils/options_dictionary.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..e3d469f 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -290,6 +290,7 @@ class OptionsDictionary(object):
 
         default_provided = default is not _undefined
 
+        previous = self._dict.get(name)
         self._dict[name] = {
             'value': default,
             'values': values,
@@ -304,7 +305,15 @@ class OptionsDictionary(object):
 
         # If a default is given, check for validity
         if default_provided:
-            self._assert_valid(name, default)
+            try:
+                self._assert_valid(name, default)
+            except Exception:
+                # do not keep an option whose default is not valid
+                if previous is None:
+                    del self._dict[name]
+                else:
+                    self._dict[name] = previous
+                raise
 
     def undeclare(self, name):
         """
-- 
2.43.0


From 22aa8898054203cd7fd3a9abd2df4f242dbeaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 26/45] fix: honor the name and promotions given to a component
 added as a subsystem

---
 omtools/core/group.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..114c79d 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -93,11 +93,16 @@ def _post_setup(func: Callable) -> Callable:
                 promotes = ['*']
                 promotes_inputs = None
                 promotes_outputs = None
-                if isinstance(sys, OMGroup):
+                if isinstance(expr, Subsystem):
                     pfx = ''
-                    promotes = expr.promotes
                     promotes_inputs = expr.promotes_inputs
                     promotes_outputs = expr.promotes_outputs
+                    # components are promoted by default
+                    if isinstance(sys, OMGroup) or any(
+                            p is not None
+                            for p in (expr.promotes, promotes_inputs,
+                                      promotes_outputs)):
+                        promotes = expr.promotes
                 OMGroup.add_subsystem(
                     self,
                     pfx + expr.name,
-- 
2.43.0


From 83f08bee493b4234c61a1d1728461c818ed4fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 27/45] fix: outputs given a definition start at their declared
 value

---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..f51fdac 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1.)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 7ae8224..8630e91 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -81,6 +81,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From 5bf9685bf2380afeea0e29ec10bd0df83e1a31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 28/45] fix: reject a definition whose shape is not that of the
 output

---
 omtools/core/explicit_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 8630e91..f62f22e 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -69,6 +69,9 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
+        if tuple(expr.shape) != tuple(self.shape):
+            raise ValueError("Shape of output " + self.name +
+                             " and of its definition do not match")
         self.defined = True
 
         self.add_dependency_node(expr)
-- 
2.43.0


From 68df19256c85d285945c8d523474ec481ce8de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 29/45] fix: linear solve of an implicit component overwrites
 its result

---
 omtools/comps/implicit_component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index b28b621..af60bef 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -260,12 +260,12 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
     def solve_linear(self, d_outputs, d_residuals, mode):
         for out_name in self.group.res_out_map.values():
             if mode == 'fwd':
-                d_outputs[out_name] += np.linalg.solve(
+                d_outputs[out_name] = np.linalg.solve(
                     self.derivs[out_name],
                     d_residuals[out_name].flatten(),
                 ).reshape(d_outputs[out_name].shape)
             else:
-                d_residuals[out_name] += np.linalg.solve(
+                d_residuals[out_name] = np.linalg.solve(
                     self.derivs[out_name].T,
                     d_outputs[out_name].flatten(),
                 ).reshape(d_residuals[out_name].shape)
-- 
2.43.0


From 1d3484334bc774404e2d4417037db10c2d294e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 30/45] fix: derivatives of residuals that use other implicit
 outputs

---
 omtools/comps/implicit_component.py | 68 +++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index af60bef..a535295 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -33,6 +33,23 @@ def _remove_nonresiduals(root: Variable):
         root.remove_dependency_node(rem)
 
 
+def _collect_implicit_outputs(outputs: set, expr: Variable):
+    """
+    Collect names of implicit outputs that ``expr`` depends on
+
+    Parameters
+    ----------
+    outputs: set
+        Names collected so far
+    expr: Variable
+        Node that serves as root for DAG
+    """
+    for dependency in expr.dependencies:
+        if isinstance(dependency, ImplicitOutput):
+            outputs.add(dependency.name)
+        _collect_implicit_outputs(outputs, dependency)
+
+
 # TODO: disallow independent variables
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
@@ -52,6 +69,12 @@ def _post_setup(func: Callable) -> Callable:
                 in_exprs = set(collect_input_exprs([], res_expr, res_expr))
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
+                # other outputs of this component used in this residual
+                out_names = set(self.group.res_out_map.values())
+                coupled = {e.name for e in in_exprs if e.name in out_names}
+                _collect_implicit_outputs(coupled, res_expr)
+                coupled.discard(out_name)
+                in_exprs = {e for e in in_exprs if e.name not in coupled}
 
                 # accumulate inputs and outputs to set values
                 self.all_inputs[out_name] = in_exprs
@@ -78,11 +101,13 @@ def _post_setup(func: Callable) -> Callable:
                             wrt=in_expr.name,
                         )
 
-                # residual wrt output
-                self.declare_partials(
-                    of=out_name,
-                    wrt=out_name,
-                )
+                # residual wrt output, and wrt other outputs
+                for wrt_name in {out_name}.union(coupled):
+                    self.declare_partials(
+                        of=out_name,
+                        wrt=wrt_name,
+                    )
+                self.coupled_outputs[out_name] = coupled
 
                 # set response and design variables to compute derivatives
                 # treat inputs and output as inputs to internal model
@@ -157,6 +182,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
+        self.coupled_outputs: Dict[str, Set[str]] = dict()
         self.derivs = dict()
         self.maxiter = maxiter
         self.n2 = n2
@@ -254,18 +280,26 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
                 jacobian[out_name, out_name] = jac[res_name, out_name]
+                for wrt_name in self.coupled_outputs[out_name]:
+                    jacobian[out_name, wrt_name] = jac[res_name, wrt_name]
 
-                self.derivs[out_name] = jac[res_name, out_name]
+                for wrt_name in out_names:
+                    self.derivs[out_name, wrt_name] = jac[res_name, wrt_name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] = np.linalg.solve(
-                    self.derivs[out_name],
-                    d_residuals[out_name].flatten(),
-                ).reshape(d_outputs[out_name].shape)
-            else:
-                d_residuals[out_name] = np.linalg.solve(
-                    self.derivs[out_name].T,
-                    d_outputs[out_name].flatten(),
-                ).reshape(d_residuals[out_name].shape)
+        out_names = list(self.all_inputs.keys())
+        mtx = np.block([[self.derivs[of, wrt] for wrt in out_names]
+                        for of in out_names])
+        if mode == 'fwd':
+            rhs, sol = d_residuals, d_outputs
+        else:
+            mtx = mtx.T
+            rhs, sol = d_outputs, d_residuals
+        val = np.linalg.solve(
+            mtx,
+            np.concatenate([rhs[name].flatten() for name in out_names]),
+        )
+        for name in out_names:
+            size = sol[name].size
+            sol[name] = val[:size].reshape(sol[name].shape)
+            val = val[size:]
-- 
2.43.0


From 300662aeadb5586a49d7a00e7ae21b40fb3719a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 31/45] fix: residuals of one implicit component may share an
 input

---
 omtools/comps/implicit_component.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index a535295..9fa6222 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,6 +62,7 @@ def _post_setup(func: Callable) -> Callable:
 
         # Collect residual expressions and their corresponding inputs
         # and outputs
+        in_names = set()
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
@@ -91,11 +92,14 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        # residuals may have inputs in common
+                        if in_expr.name not in in_names:
+                            in_names.add(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
-- 
2.43.0


From 5729c7ffeb977074f16633aa78ca38f96a1ef6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 32/45] fix: expanding a one-element input uses its declared
 value

---
 omtools/comps/scalar_expansion_comp.py | 3 ++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..40d505e 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,14 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', default=np.ones(1), types=np.ndarray)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
 
-        self.add_input(in_name)
+        self.add_input(in_name, val=self.options['val'])
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 33932a1..a23e0e2 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -61,5 +61,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From 963ee4c61e1684f8c8f4642770f33d3c836bd99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 33/45] fix: reject operands and arguments of impossible shapes
 when the operation is written

sum, average, einsum and inner silently broadcast operands whose shapes do not
match; reshape and reorder_axes accepted arguments that no result satisfies.
---
 omtools/std/average.py        |  2 ++
 omtools/std/inner.py          |  5 +++++
 omtools/std/reorder_axes.py   |  3 +++
 omtools/std/reshape.py        |  3 +++
 omtools/std/sum.py            |  2 ++
 omtools/utils/einsum_utils.py | 19 +++++++++++++++++++
 6 files changed, 34 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..56524ed 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -26,6 +26,8 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != operands[0].shape:
+            raise ValueError("The shapes of the inputs must match!")
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..7ecbdf5 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -31,6 +31,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        if expr1.shape != expr2.shape:
+            raise ValueError("The shapes of the inputs must match!")
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
@@ -39,6 +41,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        if not np.array_equal(np.take(expr1.shape, axes[0]),
+                              np.take(expr2.shape, axes[1])):
+            raise ValueError("The sizes of the axes must match!")
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
diff --git a/omtools/std/reorder_axes.py b/omtools/std/reorder_axes.py
index c9509e7..aab09ac 100644
--- a/omtools/std/reorder_axes.py
+++ b/omtools/std/reorder_axes.py
@@ -26,6 +26,9 @@ def reorder_axes(expr: Variable, operation: str):
 
     # Computing out_shape
     new_axes_locations = compute_new_axes_locations(expr.shape, operation)
+    if sorted(new_axes_locations) != list(range(len(expr.shape))):
+        raise ValueError(operation, " does not reorder the axes of ",
+                         expr.shape)
     out.shape = tuple(expr.shape[i] for i in new_axes_locations)
 
     out.build = lambda: ReorderAxesComp(
diff --git a/omtools/std/reshape.py b/omtools/std/reshape.py
index 9d73f88..5c2de46 100644
--- a/omtools/std/reshape.py
+++ b/omtools/std/reshape.py
@@ -1,5 +1,6 @@
 from omtools.comps.reshape_comp import ReshapeComp
 from omtools.core.variable import Variable
+import numpy as np
 
 
 def reshape(expr: Variable, new_shape: tuple):
@@ -16,6 +17,8 @@ def reshape(expr: Variable, new_shape: tuple):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if np.prod(expr.shape) != np.prod(new_shape):
+        raise ValueError("Cannot reshape ", expr.shape, " to ", new_shape)
     out = Variable()
     out.shape = new_shape
     out.add_dependency_node(expr)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..5c6958e 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -24,6 +24,8 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != summands[0].shape:
+            raise ValueError("The shapes of the inputs must match!")
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..4854c53 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -5,6 +5,25 @@ def compute_einsum_shape(
     operation_aslist: List[str],
     in_shapes: Union[Tuple[int], List[Tuple[int]]],
 ):
+    if isinstance(in_shapes, tuple):
+        in_shapes = [in_shapes]
+    if len(in_shapes) != len(operation_aslist) - 1:
+        raise ValueError('One set of subscripts is required for each operand')
+    sizes = dict()
+    for tensor_rep, in_shape in zip(operation_aslist[:-1], in_shapes):
+        if len(tensor_rep) != len(in_shape):
+            raise ValueError('Subscripts ' + tensor_rep +
+                             ' do not match an operand with shape ' +
+                             str(in_shape))
+        for char, size in zip(tensor_rep, in_shape):
+            if sizes.setdefault(char, size) != size:
+                raise ValueError('Sizes of axes with subscript ' + char +
+                                 ' do not match')
+    for char in operation_aslist[-1]:
+        if char not in sizes:
+            raise ValueError('Output subscript ' + char +
+                             ' is not a subscript of any operand')
+
     out_shape = []
 
     if operation_aslist[-1] == '' :
-- 
2.43.0


From 10d1444672f710e79067707d3f6388bc24349654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 34/45] fix: dividing an expression by itself reports a zero
 element

---
 .../comps/arithmetic_comps/power_combination_comp.py   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 503464d..3897872 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -45,6 +45,14 @@ class PowerCombinationComp(ArrayExplicitComponent):
             self.options['powers'] = get_scalars_list(self.options['powers'],
                                                       self.options['in_names'])
 
+        # an input divides where any of its powers is negative, also when
+        # the powers of a repeated input add up to a nonnegative power
+        self.divides = dict()
+        for in_name, power in zip(self.options['in_names'],
+                                  self.options['powers']):
+            self.divides[in_name] = self.divides.get(
+                in_name, False) | (np.asarray(power) < 0)
+
         (
             self.options['in_names'],
             self.options['powers'],
@@ -74,7 +82,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
+            if np.any((inputs[in_name] == 0) & self.divides[in_name]):
                 raise ZeroDivisionError("Input " + in_name +
                                         " is zero and has a negative power")
             outputs[out_name] *= inputs[in_name]**power
-- 
2.43.0


From 62fcda74a5fceb6bd685c45b59e4993c82a8b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 35/45] fix: operators reject operands that are neither
 expressions nor constants, and arrays of another shape

---
 omtools/core/variable.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 453ec4b..2790a69 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -407,12 +407,29 @@ class Variable():
         return len(self.dependents)
 
 
+def _check_operands(expr1, expr2):
+    """
+    Reject operands of an elementwise operation that are neither
+    ``Variable`` objects nor constants, and arrays that would have to be
+    broadcast
+    """
+    for operand, other in ((expr1, expr2), (expr2, expr1)):
+        if not isinstance(operand, (Variable, numbers.Number, np.ndarray)):
+            raise TypeError(operand,
+                            " is not an Variable object, a number or an array")
+        if isinstance(operand, np.ndarray) and isinstance(other, Variable):
+            if operand.ndim > 0 and operand.shape != tuple(other.shape):
+                raise ValueError("Shape of array does not match shape of " +
+                                 repr(other))
+
+
 class ElementwiseAddition(Variable):
     """
     ``Variable`` object used to create a LinearCombinationComp for
     addition
     """
     def initialize(self, expr1, expr2):
+        _check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -476,6 +493,7 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        _check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -543,6 +561,7 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        _check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -612,6 +631,7 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        _check_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -698,7 +718,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -713,9 +733,8 @@ class ElementwisePower(Variable):
             )
 
         else:
-            # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError(expr2, " is not a number or an array")
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 902d0d2aede0b391eb8d1374808b0a67bf692904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 36/45] fix: if_else rejects operands that are no expressions
 and conditions of more than one element

---
 omtools/std/if_else.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 80d9c84..b6edfeb 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -59,6 +59,15 @@ def if_else(
     expr_true: Variable,
     expr_false: Variable,
 ):
+    for var in (condition, expr_true, expr_false):
+        if not isinstance(var, Variable):
+            raise TypeError(
+                'The condition and both branches must be Variable objects, not '
+                '{}'.format(type(var)))
+    if np.prod(condition.shape) != 1:
+        raise ValueError(
+            'The condition must have exactly one element, not shape '
+            '{}'.format(condition.shape))
     if expr_true.shape != expr_false.shape:
         raise ValueError(
             "Variable shapes must be the same for Variable objects for both branches of execution"
-- 
2.43.0


From c9703bc48fc7c3b5b718385973cd56b471e388ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 37/45] fix: matmat and matvec reject a first operand that is
 no matrix

---
 omtools/std/matmat.py | 4 ++++
 omtools/std/matvec.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index acd50d2..e180dc2 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -21,6 +21,10 @@ def matmat(mat1, mat2):
 
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    if len(mat1.shape) != 2:
+        raise ValueError(
+            "The first argument must be a matrix, not of shape {}".format(
+                mat1.shape))
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
diff --git a/omtools/std/matvec.py b/omtools/std/matvec.py
index 0ab6651..5d79c53 100644
--- a/omtools/std/matvec.py
+++ b/omtools/std/matvec.py
@@ -20,6 +20,10 @@ def matvec(mat1, vec1):
     '''
     if not (isinstance(mat1, Variable) and isinstance(vec1, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    if len(mat1.shape) != 2:
+        raise ValueError(
+            "The first argument must be a matrix, not of shape {}".format(
+                mat1.shape))
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(vec1)
-- 
2.43.0


From 417adcf34da30f30301bac5e4b2e16e3bce7879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 38/45] fix: expand rejects subscripts that do not fit the
 shapes

---
 omtools/std/expand.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index a23e0e2..537d334 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -29,6 +29,14 @@ def expand(expr: Variable, shape: tuple, indices=None):
         if ''.join(i for i in out_indices if i in in_indices) != in_indices:
             raise ValueError(indices, " is invalid")
 
+        if len(out_indices) != len(shape):
+            raise ValueError('Shape or indices is invalid')
+        _, _, _, in_shape, _, _ = decompose_shape_tuple(shape, expand_indices)
+        # no input index is needed to expand a scalar
+        if in_shape != expr.shape and not (expr.shape == (1, )
+                                           and in_shape == ()):
+            raise ValueError('Shape or indices is invalid')
+
     out = Variable()
     out.shape = shape
     out.add_dependency_node(expr)
@@ -37,18 +45,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
         if indices is None:
             raise ValueError('If expanding something other than a scalar ' +
                              'indices must be given')
-        (
-            _,
-            _,
-            _,
-            in_shape,
-            _,
-            _,
-        ) = decompose_shape_tuple(shape, expand_indices)
-
-        if in_shape != expr.shape:
-            raise ValueError('Shape or indices is invalid')
-
         out.build = lambda: ArrayExpansionComp(
             shape=shape,
             expand_indices=expand_indices,
-- 
2.43.0


From cf54ab65373f02eb40cfbbce263dfbb56fbe023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 39/45] fix: partials of an implicit component are those of the
 point given to linearize

---
 omtools/comps/implicit_component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 9fa6222..fae28b0 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -265,6 +265,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
     def linearize(self, inputs, outputs, jacobian):
         self._set_values(inputs, outputs)
+        # the intermediate values must belong to this point, too
+        self.prob.run_model()
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From bb253f670bbc3c207c1a6d7bfc342418dfc2e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 40/45] fix: a group set up again forgets what the earlier
 setup made, instead of building an empty model

---
 omtools/core/group.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 114c79d..b2f5014 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,6 +35,9 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # Forget what an earlier setup made
+        self._restart()
+
         # The user-defined Group.setup() method
         func(self)
 
@@ -165,6 +168,32 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self._restarts = False
+        self._registered_before_setup: list = []
+        self._subsystem_before_setup: Subsystem = None
+
+    def _restart(self):
+        """
+        Restore what was there before the first setup, so that the group
+        can be set up again
+        """
+        # set up when it is created (see create_group)
+        if self._static_mode:
+            return
+        if self._restarts == False:
+            self._restarts = True
+            self._subsystem_before_setup = self._most_recently_added_subsystem
+            if len(self.nodes) == 0:
+                self._registered_before_setup = list(self._root.dependencies)
+        for node in self.nodes.values():
+            node.dependents = []
+            node.times_visited = 0
+            node._dag_cost = 1
+        self.nodes = {}
+        self._root = Variable()
+        for node in self._registered_before_setup:
+            self._root.add_dependency_node(node)
+        self._most_recently_added_subsystem = self._subsystem_before_setup
 
     def initialize(self, *args, **kwargs):
         """
-- 
2.43.0


From 826ee2bdd43bd522aa472222c388df64fb478a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 41/45] fix: name decompositions after the identifier of what
 they decompose

Two expressions of one name (an input declared twice) could not both be
indexed, and an input of a name with a colon could not be indexed at all:
the component's name was not unique, or not a valid name.
---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 2790a69..37c0924 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -152,7 +152,7 @@ class Variable():
         if self._getitem_called == False:
             self._getitem_called = True
             self._decomp = Variable(shape=self.shape, val=default_val)
-            self._decomp.name = 'decompose_' + self.name
+            self._decomp.name = 'decompose_' + self._id
             self._decomp.add_dependency_node(self)
 
         # store key as a tuple of tuples of ints
-- 
2.43.0


From 6432588ff9b8a197d549649732b6206f4784abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 42/45] fix: keep the derivative of a power finite where the
 power is zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 omtools/comps/linearpowercombination.py                  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 3897872..1c70138 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -100,7 +100,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # x**0 has no slope, also where x is zero
+                    b = np.where(power == 0, 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index b7842d9..9b16038 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -108,7 +108,8 @@ class LinearPowerCombinationComp(ExplicitComponent):
                     b = power
                     if in_name == in_name2:
                         a = power
-                        b = power - 1.
+                        # x**0 has no slope, also where x is zero
+                        b = np.where(power == 0, 0., power - 1.)
 
                     term *= a * inputs[in_name2]**b
 
-- 
2.43.0


From a1a3df9faf9d7a54ce76dfdd2335882ccfd7723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:50 +0000
Subject: [PATCH 43/45] fix: subtract an unsigned array without wrapping around

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 37c0924..85b4897 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -543,7 +543,7 @@ class ElementwiseSubtraction(Variable):
                 out_name=self.name,
                 in_names=[expr1.name],
                 coeffs=1,
-                constant=-expr2,
+                constant=-1. * expr2,
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From f57a1ab40a8bd3a6e03507cd9762823926bce334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:50 +0000
Subject: [PATCH 44/45] fix: accept NumPy's numbers as constants, coefficients
 and powers

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 omtools/comps/linearcombination_comp.py                  | 2 +-
 omtools/comps/linearpowercombination.py                  | 2 +-
 omtools/utils/process_options.py                         | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 1c70138..cde8999 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -19,7 +19,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                              allow_none=True)
         self.options.declare('coeff',
                              default=1.,
-                             types=(int, float, np.ndarray))
+                             types=(int, float, np.number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
         self.post_initialize()
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index a629cf1..ab2e8a1 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -18,7 +18,7 @@ class LinearCombinationComp(ExplicitComponent):
                              allow_none=True)
         self.options.declare('constant',
                              default=0.,
-                             types=(int, float, np.ndarray))
+                             types=(int, float, np.number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
     def setup(self):
diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index 9b16038..763d1d7 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -21,7 +21,7 @@ class LinearPowerCombinationComp(ExplicitComponent):
                              allow_none=True)
         self.options.declare('constant',
                              default=0.,
-                             types=(int, float, np.ndarray))
+                             types=(int, float, np.number, np.ndarray))
         self.options.declare('coeffs',
                              default=None,
                              types=(list, np.ndarray),
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index 17250c6..ecce3e9 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -14,11 +14,11 @@ def get_names_list(names):
     return names
 
 
-scalar_types = (int, float, list, np.ndarray)
+scalar_types = (int, float, np.number, list, np.ndarray)
 
 
 def get_scalars_list(scalars, names):
-    if isinstance(scalars, (int, float)):
+    if isinstance(scalars, (int, float, np.number)):
         scalars = [scalars] * len(names)
     elif isinstance(scalars, (list)):
         pass
-- 
2.43.0


From 7ff340cd7657cff1fd312ee2f4ab4a731a4dd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 45/45] fix: a rejected indexed assignment leaves the output as
 it was

---
 omtools/core/explicit_output.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index f62f22e..7e8c551 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -97,7 +97,6 @@ class ExplicitOutput(Output):
         if self.defined == True and self.indexed_assignment == False:
             raise ValueError("Variable for output " + self.name +
                              " is already defined using define")
-        self.add_dependency_node(expr)
         tgt_indices = []
 
         # n-d array assignment
@@ -153,16 +152,19 @@ class ExplicitOutput(Output):
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
             tgt_indices)
-        self.checked_indices = self.checked_indices.union(tgt_indices)
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # only an assignment that is not rejected changes the output
+        self.checked_indices = self.checked_indices.union(tgt_indices)
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
+        self.add_dependency_node(expr)
+
         self.build = lambda: IndexedPassThroughComp(
             # an expression may be renamed when it is registered
             expr_indices={e.name: i
-- 
2.43.0

