From 433abb016ec65754441e71ccc11ec6c218da763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 01/54] fix: remove the intended indirect dependencies
 regardless of set iteration order

---
 omtools/core/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..1bba039 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,9 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices; indices must be in increasing order so
+    # that removing in reverse order does not shift remaining indices
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From 9124c402568edafc44fc225e786533b57e6e9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/54] fix: replace every use of an output in the expressions
 that define it

---
 omtools/core/implicit_output.py            | 3 ++-
 omtools/utils/replace_output_leaf_nodes.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..19768d6 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -24,7 +24,8 @@ def replace_input_leaf_nodes(
     graphs for residuals so that ``ImplicitComponent`` objects do
     not include subsystems.
     """
-    for dependency in node.dependencies:
+    # iterate over a copy; node.dependencies is modified in loop
+    for dependency in list(node.dependencies):
         if isinstance(dependency, Input):
             if len(dependency.dependencies) > 0:
                 node.remove_dependency_node(dependency)
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..f526109 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -12,7 +12,8 @@ def replace_output_leaf_nodes(
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
+    # iterate over a copy; node.dependencies is modified in loop
+    for dependency in list(node.dependencies):
         if dependency is root:
             # replace dependency reference with Input node
             node.remove_dependency_node(dependency)
-- 
2.43.0


From 35bb0d98834ee87af29e380d4ec01897c2b44409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 03/54] fix: connect expressions that are registered after
 indexed assignment

---
 omtools/core/explicit_output.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..e235e54 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, Tuple[Tuple[int], List[int]]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr in self._tgt_indices.keys():
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -156,11 +156,15 @@ class ExplicitOutput(Output):
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # NOTE: expressions may be registered (renamed) after assignment,
+        # so names are only looked up when constructing component
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={e.name: v
+                          for e, v in self._tgt_indices.items()},
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: v
+                  for e, v in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From 86747ce386960a908966f0f01e5278dc0c8e630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 04/54] fix: index variables whose default value is a
 placeholder

---
 omtools/core/variable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..a074aca 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -143,9 +143,12 @@ class Variable():
         self,
         key: Union[int, slice, Tuple[slice]],
     ):
+        # default value is a placeholder that does not necessarily have
+        # the same shape as the variable
+        src_val = np.broadcast_to(self.val, self.shape)
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=src_val[key])
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +199,7 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = src_val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
-- 
2.43.0


From dcb1945bd8e826393b7d98ca2581fee32c66f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 05/54] fix: do not modify the coefficient of a product when
 computing partials

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..66bba58 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 9abade172453d6616ec1060de01a4c2a77cc8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 06/54] fix: raise error on division by zero instead of exiting
 the interpreter

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 66bba58..c880f8e 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,10 +64,10 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
+                raise ZeroDivisionError(
+                    "Cannot raise zero to a negative power; value of " +
+                    in_name + " is " + str(inputs[in_name]))
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From bcddd2af05edaaba68cdb4cd05976544cd52306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 07/54] fix: use every element of an array of exponents

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index a074aca..829a4c5 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -704,7 +704,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From 9fad322163fc9bc80f94c0084e4222bcd9d2b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 08/54] fix: partial derivative of zero raised to the power of
 zero is zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index c880f8e..ed3cb10 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -83,7 +83,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # partial is zero where power is zero
+                    b = np.where(np.equal(power, 0), 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
-- 
2.43.0


From 505669bc97142ac7849db4cd37b730347139b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 09/54] fix: allow division by a constant array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 829a4c5..4563443 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -650,7 +650,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From 2aff5449829ebb248a8ee33657393415ea43fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 10/54] fix: raise TypeError for unsupported operands instead
 of dropping the operation

---
 omtools/core/variable.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 4563443..542d65e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,14 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def _check_operand(other):
+    """
+    Check that operand in binary operation is supported
+    """
+    if not isinstance(other, (Variable, numbers.Number, np.ndarray)):
+        raise TypeError(other, " is not an Variable object or literal")
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -44,24 +52,28 @@ class Variable():
         """
         Represent addition between two expressions
         """
+        _check_operand(other)
         return ElementwiseAddition(self, other)
 
     def __sub__(self, other):
         """
         Represent subtraction between two expressions
         """
+        _check_operand(other)
         return ElementwiseSubtraction(self, other)
 
     def __mul__(self, other):
         """
         Represent multiplication between two expressions
         """
+        _check_operand(other)
         return ElementwiseMultiplication(self, other)
 
     def __truediv__(self, other):
         """
         Represent division between two expressions
         """
+        _check_operand(other)
         return ElementwiseDivision(self, other)
 
     def __pow__(self, other):
@@ -694,7 +706,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -711,7 +723,7 @@ class ElementwisePower(Variable):
         else:
             # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError(expr2, " is not a literal")
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From aa8896d3d288a28f7554ce5b35468f21975524da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 11/54] fix: allow arithmetic operations to use an expression
 for both operands

---
 .../power_combination_comp.py                 | 33 +++++++++++--------
 omtools/comps/linearcombination_comp.py       |  9 +++--
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index ed3cb10..335fbee 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -52,7 +52,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
         coeff = self.options['coeff']
 
         self.array_add_output(out_name)
-        for in_name, val in zip(in_names, in_vals):
+        # an input may be used more than once
+        for in_name, val in dict(zip(in_names, in_vals)).items():
             self.array_add_input(in_name, val=val)
             self.array_declare_partials(out_name, in_name)
 
@@ -76,18 +77,24 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        for in_name in in_names:
-            deriv = coeff * np.ones(self.options['shape'])
-            for in_name2, power in zip(in_names, powers):
-                a = 1.
-                b = power
-                if in_name == in_name2:
-                    a = power
-                    # partial is zero where power is zero
-                    b = np.where(np.equal(power, 0), 0., power - 1.)
-                deriv *= a * inputs[in_name2]**b
-
-            partials[out_name, in_name] = deriv.flatten()
+        for in_name in dict.fromkeys(in_names):
+            total = np.zeros(self.options['shape'])
+            # product rule; an input may be used more than once
+            for i in range(len(in_names)):
+                if in_names[i] != in_name:
+                    continue
+                deriv = coeff * np.ones(self.options['shape'])
+                for j, power in enumerate(powers):
+                    a = 1.
+                    b = power
+                    if i == j:
+                        a = power
+                        # partial is zero where power is zero
+                        b = np.where(np.equal(power, 0), 0., power - 1.)
+                    deriv *= a * inputs[in_names[j]]**b
+                total += deriv
+
+            partials[out_name, in_name] = total.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..05321c6 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -45,12 +45,17 @@ class LinearCombinationComp(ExplicitComponent):
 
         rows_cols = np.arange(np.prod(shape))
 
+        # an input may be used more than once
+        total_coeffs = dict.fromkeys(in_names, 0)
+        for in_name, coeff in zip(in_names, coeffs):
+            total_coeffs[in_name] = total_coeffs[in_name] + coeff
+
         self.add_output(out_name, shape=shape)
-        for in_name, coeff, val in zip(in_names, coeffs, in_vals):
+        for in_name, val in dict(zip(in_names, in_vals)).items():
             self.add_input(in_name, shape=shape, val=val)
             self.declare_partials(out_name,
                                   in_name,
-                                  val=coeff,
+                                  val=total_coeffs[in_name],
                                   rows=rows_cols,
                                   cols=rows_cols)
 
-- 
2.43.0


From c1c1439f18654741cd96d72dde4bc3b980a7eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 12/54] fix: allow standard functions to use an expression for
 more than one operand

---
 omtools/std/average.py             |  3 +++
 omtools/std/cross.py               |  2 ++
 omtools/std/dot.py                 |  2 ++
 omtools/std/inner.py               |  2 ++
 omtools/std/matmat.py              |  2 ++
 omtools/std/max.py                 |  3 +++
 omtools/std/min.py                 |  3 +++
 omtools/std/outer.py               |  2 ++
 omtools/std/sum.py                 |  3 +++
 omtools/utils/distinct_operands.py | 12 ++++++++++++
 10 files changed, 34 insertions(+)
 create mode 100644 omtools/utils/distinct_operands.py

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..a157a96 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_average_comp import SingleTensorAverageComp
 from omtools.comps.multiple_tensor_average_comp import MultipleTensorAverageComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,8 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    operands = distinct_operands(*operands)
+    for expr in operands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..ef168ed 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -1,5 +1,6 @@
 from omtools.comps.cross_product_comp import CrossProductComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 
 def cross(in1, in2, axis: int):
@@ -21,6 +22,7 @@ def cross(in1, in2, axis: int):
 
     if not (isinstance(in1, Variable) and isinstance(in2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    in1, in2 = distinct_operands(in1, in2)
     out = Variable()
     out.add_dependency_node(in1)
     out.add_dependency_node(in2)
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..b322f03 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_dot_product_comp import TensorDotProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -25,6 +26,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
 
     if not (isinstance(expr1, Variable) and isinstance(expr2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..4cd7242 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
 
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..4f2d6f9 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,5 +1,6 @@
 from omtools.comps.matmat_comp import MatMatComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -21,6 +22,7 @@ def matmat(mat1, mat2):
 
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    mat1, mat2 = distinct_operands(mat1, mat2)
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
diff --git a/omtools/std/max.py b/omtools/std/max.py
index 0438e98..aea1d71 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_max_comp import ElementwiseMaxComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def max(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 9f43b0a..0c74b09 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_min_comp import ElementwiseMinComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def min(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index ebbed1f..39047a9 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_outer_product_comp import TensorOuterProductComp
 from omtools.comps.vector_outer_product_comp import VectorOuterProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -23,6 +24,7 @@ def outer(expr1: Variable, expr2: Variable):
         raise TypeError(expr1, " is not an Variable object")
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..c980753 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_sum_comp import SingleTensorSumComp
 from omtools.comps.multiple_tensor_sum_comp import MultipleTensorSumComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -24,6 +25,8 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    summands = distinct_operands(*summands)
+    for expr in summands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/utils/distinct_operands.py b/omtools/utils/distinct_operands.py
new file mode 100644
index 0000000..3827c68
--- /dev/null
+++ b/omtools/utils/distinct_operands.py
@@ -0,0 +1,12 @@
+def distinct_operands(*operands):
+    """
+    Replace repeated operands with copies. Required because each input
+    of a stock ``Component`` corresponding to a function of several
+    operands must have a different name.
+    """
+    distinct = []
+    for operand in operands:
+        if any(operand is other for other in distinct):
+            operand = 1 * operand
+        distinct.append(operand)
+    return distinct
-- 
2.43.0


From 6173ad42f12d12e30b31342e40dae59dcf15ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 13/54] fix: dense einsum partials of an input that follows a
 repeated input

---
 omtools/comps/einsum_comp_dense_derivs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
-- 
2.43.0


From 6e2c5d17177d7af62b4993977fc9996652518d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 14/54] fix: sparse einsum partials

---
 omtools/comps/einsum_comp_sparse_derivs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..5fcb708 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,9 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry for each distinct input
+                self.partial_indices_list.append(None)
+                self.flattened_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -348,7 +351,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
@@ -381,7 +384,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From 2f33c38184d860fb59aa4709bbe185c36c4c87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 15/54] fix: average along multiple axes

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From a12c8e9f7be30e83b8bab76c1147191ac001151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 16/54] fix: partials of sech for inputs with more than one
 axis

---
 omtools/comps/sechcomp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..839fba6 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,8 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (-1.0 * np.tanh(inputs[in_name]) *
+                                       (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From cb382920355aca5a54015a88f3d6773337dc4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 17/54] fix: use default value of input when expanding a scalar

---
 omtools/comps/scalar_expansion_comp.py | 4 +++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..0b98172 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,15 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', types=np.ndarray)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        val = self.options['val']
 
-        self.add_input(in_name)
+        self.add_input(in_name, val=val)
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From 6607948986506d3e72213b663d959619e7f3313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 18/54] fix: shape of product of matrix and vector or single
 column matrix

---
 omtools/comps/matmat_comp.py | 5 ++++-
 omtools/std/matmat.py        | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..f7de4f0 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -24,6 +24,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
         self.options.declare('in_vals', types=list)
 
     def setup(self):
@@ -35,7 +36,9 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        if self.options['out_shape'] is not None:
+            output_shape = self.options['out_shape']
+        elif in_shapes[1][1] != 1:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         else:
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 4f2d6f9..0c502cd 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -35,11 +35,12 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2.shape],
+            out_shape=out.shape,
             in_vals=[mat1.val, mat2.val],
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
@@ -47,7 +48,11 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            out_shape=out.shape,
+            in_vals=[
+                mat1.val,
+                np.broadcast_to(mat2.val, mat2.shape).reshape(mat2_shape)
+            ],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From d6e2b2f2728460bba6fb3b1dc7a15dc87de31b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 19/54] fix: shape and partials of conditional expressions

---
 omtools/std/if_else.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..bbbf986 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,17 +17,20 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        shape = expr_true.shape
+        # an expression may be used more than once
+        for expr in dict.fromkeys([condition, expr_true, expr_false]):
+            self.add_input(expr.name, shape=expr.shape, val=expr.val)
+        self.add_output(out_name, shape=shape)
 
-        self.declare_partials(
-            of=out_name,
-            wrt=[expr_true.name, expr_false.name],
-            rows=np.arange(np.prod(expr_true.shape)),
-            cols=np.arange(np.prod(expr_true.shape)),
-        )
+        r = np.arange(np.prod(shape))
+        for expr in dict.fromkeys([expr_true, expr_false]):
+            self.declare_partials(
+                of=out_name,
+                wrt=expr.name,
+                rows=r,
+                cols=r,
+            )
 
     def compute(self, inputs, outputs):
         out_name = self.options['out_name']
@@ -46,12 +49,12 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
+        partials[out_name, expr_true.name] = 0
+        partials[out_name, expr_false.name] = 0
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
-            partials[out_name, expr_true.name] = 0
+            partials[out_name, expr_false.name] = 1
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
-            partials[out_name, expr_false.name] = 0
+            partials[out_name, expr_true.name] = 1
 
 
 def if_else(
@@ -65,6 +68,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 2f0ad1953bda8a7b9cfbc5d71edb47bc6e9a63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 20/54] fix: honor maxiter argument of ImplicitComponent

---
 omtools/comps/implicit_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..e03bd79 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -158,7 +158,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
-- 
2.43.0


From 1955b167cf5f43d8087470d816e1dff8ccb374f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 21/54] fix: allow bracketing some or all of several implicit
 outputs

---
 omtools/comps/implicit_component.py | 3 ++-
 omtools/core/implicit_output.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index e03bd79..6cbef07 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -206,7 +206,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and out_name in self.group.brackets_map[
+                        0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 19768d6..334cda3 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -155,7 +155,8 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
-        self.group.brackets_map = (dict(), dict())
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From fa4ec623363347748ccb39353ee9160cf0265a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 22/54] fix: allow residuals of an ImplicitComponent to share
 inputs

---
 omtools/comps/implicit_component.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 6cbef07..0e622da 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,6 +43,9 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        # names of inputs added so far; residuals may share inputs
+        added_inputs = set()
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
@@ -68,11 +71,13 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        if in_expr.name not in added_inputs:
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
+                            added_inputs.add(in_expr.name)
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
-- 
2.43.0


From 409f3175f99b522595e20cd342d04fc605e69fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 23/54] fix: use initial value of implicit outputs

---
 omtools/comps/implicit_component.py | 7 ++-----
 omtools/core/implicit_output.py     | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 0e622da..b38ab80 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -65,7 +65,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
@@ -110,10 +110,7 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
+                self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 334cda3..527c1cb 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -155,6 +155,7 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
+        self.group.out_vals[self.name] = self.val
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
-- 
2.43.0


From 7f9bff88a6ff7e1762a75a8b665ee076dc8eb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 24/54] fix: partials and linear solve of coupled residuals

---
 omtools/comps/implicit_component.py | 46 ++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index b38ab80..c7f6c64 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -83,12 +83,6 @@ def _post_setup(func: Callable) -> Callable:
                             wrt=in_expr.name,
                         )
 
-                # residual wrt output
-                self.declare_partials(
-                    of=out_name,
-                    wrt=out_name,
-                )
-
                 # set response and design variables to compute derivatives
                 # treat inputs and output as inputs to internal model
                 # treat residual as output of internal model
@@ -103,6 +97,14 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+
+        # residuals wrt outputs; residuals may be coupled
+        for out_name in self.all_inputs.keys():
+            for wrt_name in self.all_inputs.keys():
+                self.declare_partials(
+                    of=out_name,
+                    wrt=wrt_name,
+                )
         self.prob.setup()
 
         # set initial values for inputs and output
@@ -256,16 +258,26 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 for in_expr in self.all_inputs[out_name]:
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
-                jacobian[out_name, out_name] = jac[res_name, out_name]
-
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                for wrt_name in out_names:
+                    jacobian[out_name, wrt_name] = jac[res_name, wrt_name]
+                    self.derivs[out_name, wrt_name] = jac[res_name, wrt_name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.all_inputs.keys())
+        # jacobian of all residuals wrt all outputs
+        jac = np.block([[self.derivs[of, wrt] for wrt in out_names]
+                        for of in out_names])
+        if mode == 'fwd':
+            rhs, sol = d_residuals, d_outputs
+        else:
+            rhs, sol = d_outputs, d_residuals
+            jac = jac.T
+        x = np.linalg.solve(
+            jac,
+            np.concatenate([rhs[name].flatten() for name in out_names]),
+        )
+        start = 0
+        for name in out_names:
+            size = sol[name].size
+            sol[name] = x[start:start + size].reshape(sol[name].shape)
+            start += size
-- 
2.43.0


From 26c3012a011054d7ecb2fb8cac645854e3b4984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 25/54] fix: inherit and extend setup methods of Group and
 ImplicitComponent

---
 omtools/comps/implicit_component.py | 18 ++++++++++++++++--
 omtools/core/group.py               | 17 +++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index c7f6c64..b789818 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,7 +37,18 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
-        func(self)
+        # internal problem is set up once, after the outermost call when
+        # a user-defined setup method calls super().setup()
+        if self._in_setup == True:
+            func(self)
+            return
+
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
+
         # setup internal problem
         g = self.group
 
@@ -129,7 +140,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # subclasses may inherit setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -164,6 +177,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.derivs = dict()
         self.maxiter = maxiter
         self.n2 = n2
+        self._in_setup = False
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..9369c97 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,8 +35,18 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # Components are constructed once, after the outermost call when
+        # a user-defined setup method calls super().setup()
+        if self._in_setup == True:
+            func(self)
+            return
+
         # The user-defined Group.setup() method
-        func(self)
+        self._in_setup = True
+        try:
+            func(self)
+        finally:
+            self._in_setup = False
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
@@ -124,7 +134,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # subclasses may inherit setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -160,6 +172,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self._in_setup: bool = False
 
     def initialize(self, *args, **kwargs):
         """
-- 
2.43.0


From b3db230c1fbd86290789307559385725e14963b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 26/54] fix: allow calling Problem.setup more than once

---
 omtools/comps/implicit_component.py | 18 ++++++++++---
 omtools/core/group.py               | 42 +++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index b789818..683b23e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,6 +43,11 @@ def _post_setup(func: Callable) -> Callable:
             func(self)
             return
 
+        # start over if Problem.setup is called more than once
+        if self._is_setup == True:
+            self._create_problem()
+        self._is_setup = True
+
         self._in_setup = True
         try:
             func(self)
@@ -169,15 +174,22 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._create_problem()
+        self.maxiter = maxiter
+        self.n2 = n2
+        self._in_setup = False
+        self._is_setup = False
+
+    def _create_problem(self):
+        """
+        Create empty internal problem
+        """
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = maxiter
-        self.n2 = n2
-        self._in_setup = False
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 9369c97..9dd4389 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -1,6 +1,6 @@
 from collections.abc import Iterable
 from contextlib import contextmanager
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Tuple
 
 from openmdao.api import Group as OMGroup
 from openmdao.core.system import System
@@ -41,6 +41,10 @@ def _post_setup(func: Callable) -> Callable:
             func(self)
             return
 
+        self.nodes = dict()
+        dag = self._save_dag()
+        subsystem = self._most_recently_added_subsystem
+
         # The user-defined Group.setup() method
         self._in_setup = True
         try:
@@ -129,6 +133,10 @@ def _post_setup(func: Callable) -> Callable:
             # Cut down on memory consumption
             del expr
 
+        # Problem.setup may be called more than once
+        self._restore_dag(dag)
+        self._most_recently_added_subsystem = subsystem
+
     return _sort_expressions_and_build_components
 
 
@@ -183,6 +191,28 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
     def setup(self):
         pass
 
+    def _save_dag(self) -> List[Tuple[Variable, List[Variable]]]:
+        """
+        Record all nodes created outside of ``self.setup`` and their
+        dependencies
+        """
+        nodes = dict()
+        self._root.register_nodes(nodes)
+        return [(node, list(node.dependencies))
+                for node in [self._root] + list(nodes.values())]
+
+    def _restore_dag(self, dag: List[Tuple[Variable, List[Variable]]]):
+        """
+        Discard expressions created in ``self.setup``, so that calling
+        ``Problem.setup`` more than once constructs the same components
+        every time
+        """
+        for node, dependencies in dag:
+            node.dependencies = dependencies
+            node.dependents = []
+            node.times_visited = 0
+            node._dag_cost = 1
+
     def declare_input(
             self,
             name: str,
@@ -426,10 +456,6 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         Group
             Child ``Group`` object whosevariables are all promoted
         """
-        try:
-            group = Group()
-            self.add_subsystem(name, group, promotes=['*'])
-            yield group
-        finally:
-            group.setup()
-            pass
+        group = Group()
+        self.add_subsystem(name, group, promotes=['*'])
+        yield group
-- 
2.43.0


From ef1035363c17f79ca0d0b775d25c1dd6628bd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 27/54] fix: reject definitions of outputs that conflict with
 output

---
 omtools/core/explicit_output.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index e235e54..81346fe 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -69,6 +69,10 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
+        if expr.shape != self.shape:
+            raise ValueError("Shapes of output " + repr(self) +
+                             " and expression " + repr(expr) +
+                             " do not match")
         self.defined = True
 
         self.add_dependency_node(expr)
@@ -90,6 +94,9 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError("Variable for output " + self.name +
+                             " is already defined")
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From 33bf322bfbc1a3369e4730ae87de0b915e6c68c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 28/54] fix: reject einsum subscripts without output axes

---
 omtools/std/einsum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/einsum.py b/omtools/std/einsum.py
index 25a1fb7..52c0578 100644
--- a/omtools/std/einsum.py
+++ b/omtools/std/einsum.py
@@ -26,6 +26,8 @@ def einsum(*operands: List[Variable], subscripts: str, partial_format='dense'):
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
         out.add_dependency_node(expr)
+    if '->' not in subscripts:
+        raise ValueError("Subscripts must specify output axes, e.g. 'ij,j->i'")
     operation_aslist = einsum_subscripts_tolist(subscripts)
     shape = compute_einsum_shape(operation_aslist,
                                  [expr.shape for expr in operands])
-- 
2.43.0


From 2b83b6990d432ffc9e227e3ea81012dcc33b4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 29/54] fix: use initial value of outputs computed iteratively

---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..1c8c347 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1.0)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 81346fe..48db06d 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -85,6 +85,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From 99f9e1dc829a55cffed81d1bbc120ef7f5c656e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 30/54] fix: honor name and promotes of Component subsystems

---
 omtools/core/group.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 9dd4389..616d64d 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -107,11 +107,17 @@ def _post_setup(func: Callable) -> Callable:
                 promotes = ['*']
                 promotes_inputs = None
                 promotes_outputs = None
-                if isinstance(sys, OMGroup):
+                if isinstance(expr, Subsystem):
                     pfx = ''
-                    promotes = expr.promotes
                     promotes_inputs = expr.promotes_inputs
                     promotes_outputs = expr.promotes_outputs
+                    # NOTE: all variables in Component objects are
+                    # promoted by default
+                    if isinstance(sys, OMGroup) or any(
+                            p is not None
+                            for p in (expr.promotes, promotes_inputs,
+                                      promotes_outputs)):
+                        promotes = expr.promotes
                 OMGroup.add_subsystem(
                     self,
                     pfx + expr.name,
-- 
2.43.0


From 0abcbbe2f7bf44721c9f9d18f3485c01cd243481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 31/54] fix: reject reordering of axes when expanding an array

---
 omtools/std/expand.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..adfe56f 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -15,6 +15,10 @@ def expand(expr: Variable, shape: tuple, indices=None):
 
         if '->' not in indices:
             raise ValueError(indices, " is invalid")
+        # axes of expr must appear in the same order in expanded array
+        in_indices, out_indices = indices.split('->')
+        if [i for i in out_indices if i in in_indices] != list(in_indices):
+            raise ValueError(indices, " is invalid")
 
     if indices is not None:
         in_indices, out_indices = indices.split('->')
-- 
2.43.0


From e769d15cbc005dc3f62a2792fffb8486d8dd0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 32/54] fix: partials of arcsin for inputs with more than one
 axis

---
 omtools/comps/arcsincomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..354ee55 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (
+            1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 170bb14de3f71fe68e6571e9de5c71aa96e6d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 33/54] fix: do not change shape of vector inputs to matmat

---
 omtools/std/matmat.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 0c502cd..c37c627 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,4 +1,5 @@
 from omtools.comps.matmat_comp import MatMatComp
+from omtools.comps.matvec_comp import MatVecComp
 from omtools.core.variable import Variable
 from omtools.utils.distinct_operands import distinct_operands
 from typing import List
@@ -42,17 +43,12 @@ def matmat(mat1, mat2):
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
         out.shape = (mat1.shape[0], )
 
-        mat2_shape = (mat2.shape[0], 1)
 
-        out.build = lambda: MatMatComp(
+        out.build = lambda: MatVecComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
-            in_shapes=[mat1.shape, mat2_shape],
-            out_shape=out.shape,
-            in_vals=[
-                mat1.val,
-                np.broadcast_to(mat2.val, mat2.shape).reshape(mat2_shape)
-            ],
+            in_shapes=[mat1.shape, mat2.shape],
+            in_vals=[mat1.val, mat2.val],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 95297f968d49f79bcde4fbeb2704f776b17f497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 34/54] fix: shapes of reduced expressions are tuples of int

---
 omtools/std/average.py | 2 +-
 omtools/std/dot.py     | 2 +-
 omtools/std/inner.py   | 3 ++-
 omtools/std/max.py     | 2 +-
 omtools/std/min.py     | 2 +-
 omtools/std/pnorm.py   | 2 +-
 omtools/std/sum.py     | 2 +-
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index a157a96..fba50ec 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -49,7 +49,7 @@ def average(*operands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
-        out.shape = tuple(output_shape)
+        out.shape = tuple(output_shape.tolist())
 
         if len(operands) == 1:
             out.build = lambda: SingleTensorAverageComp(
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index b322f03..9c928c4 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -50,7 +50,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
                 "The specified axis must correspond to the value of 3 in shape"
             )
         else:
-            out.shape = tuple(np.delete(list(expr1.shape), axis))
+            out.shape = tuple(np.delete(list(expr1.shape), axis).tolist())
 
             out.build = lambda: TensorDotProductComp(
                 in_names=[expr1.name, expr2.name],
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 4cd7242..771190b 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -43,7 +43,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     else:
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
-        out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
+        out.shape = tuple(
+            np.append(new_in0_shape, new_in1_shape).tolist())
 
         out.build = lambda: TensorInnerProductComp(
             in_names=[expr1.name, expr2.name],
diff --git a/omtools/std/max.py b/omtools/std/max.py
index aea1d71..ea46ab4 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -36,7 +36,7 @@ def max(*exprs, axis=None, rho=20.):
 
     if len(exprs) == 1 and axis != None:
         output_shape = np.delete(expr.shape, axis)
-        out.shape = tuple(output_shape)
+        out.shape = tuple(output_shape.tolist())
 
         out.build = lambda: AxisMaxComp(
             shape=exprs[0].shape,
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 0c74b09..8188d5d 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -36,7 +36,7 @@ def min(*exprs, axis=None, rho=20.):
 
     if len(exprs) == 1 and axis != None:
         output_shape = np.delete(expr.shape, axis)
-        out.shape = tuple(output_shape)
+        out.shape = tuple(output_shape.tolist())
 
         out.build = lambda: AxisMinComp(
             shape=exprs[0].shape,
diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 659133f..23ad4cf 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -43,7 +43,7 @@ def pnorm(expr, pnorm_type=2, axis=None):
             )
         else:
             output_shape = np.delete(expr.shape, axis)
-            out.shape = tuple(output_shape)
+            out.shape = tuple(output_shape.tolist())
 
             out.build = lambda: VectorizedAxisWisePnormComp(
                 shape=expr.shape,
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index c980753..b60c01b 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -47,7 +47,7 @@ def sum(*summands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
-        out.shape = tuple(output_shape)
+        out.shape = tuple(output_shape.tolist())
 
         if len(summands) == 1:
             out.build = lambda: SingleTensorSumComp(
-- 
2.43.0


From 430a2b812bc156419128bd4442d05974d5e3fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 35/54] fix: relevance of inputs to coupled residuals

---
 omtools/comps/implicit_component.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 683b23e..04fa582 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -121,6 +121,13 @@ def _post_setup(func: Callable) -> Callable:
                     of=out_name,
                     wrt=wrt_name,
                 )
+            # coupled residuals depend on one another's inputs; without
+            # these partials, OpenMDAO treats such inputs as irrelevant
+            for in_name in added_inputs:
+                self.declare_partials(
+                    of=out_name,
+                    wrt=in_name,
+                )
         self.prob.setup()
 
         # set initial values for inputs and output
-- 
2.43.0


From ffe64b0e1cd1cc713cb31c64c8f58ed77d7bf2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 36/54] fix: reject sum and average of operands with different
 shapes

---
 omtools/std/average.py | 3 +++
 omtools/std/sum.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index fba50ec..40f754a 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -27,6 +27,9 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    for expr in operands:
+        if expr.shape != operands[0].shape:
+            raise Exception("The shapes of the inputs must match!")
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index b60c01b..d09316c 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -25,6 +25,9 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    for expr in summands:
+        if expr.shape != summands[0].shape:
+            raise Exception("The shapes of the inputs must match!")
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
-- 
2.43.0


From 7f1c2588c0cb46bf3842e4a9c1fc1cc11feb3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 37/54] fix: reject inner product of vectors of different
 lengths

---
 omtools/std/inner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 771190b..d6854cf 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -33,6 +33,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        if expr1.shape != expr2.shape:
+            raise Exception("The shapes of the inputs must match!")
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-- 
2.43.0


From 3b5131ab299c150a2bfc958497320875f36f1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 38/54] fix: partials of extrema and p-norms at inputs other
 than last computed

---
 omtools/comps/axiswise_max_comp.py              | 2 ++
 omtools/comps/axiswise_min_comp.py              | 2 ++
 omtools/comps/scalar_extremum_comp.py           | 2 ++
 omtools/comps/vectorized_axiswise_pnorm_comp.py | 2 ++
 omtools/comps/vectorized_pnorm_comp.py          | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..365ee0b 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -87,6 +87,8 @@ class AxisMaxComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        # compute was not necessarily last called with these inputs
+        self.compute(inputs, dict())
         partials[out_name, in_name] = self.dKS_dg.flatten()
 
 
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..baf93d8 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -86,6 +86,8 @@ class AxisMinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        # compute was not necessarily last called with these inputs
+        self.compute(inputs, dict())
         partials[out_name, in_name] = self.dKS_dg.flatten()
 
 
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..db8c89c 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -87,6 +87,8 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        # compute was not necessarily last called with these inputs
+        self.compute(inputs, dict())
         partials[out_name, in_name] = self.dKS_dg.flatten()
 
 
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..9bb528f 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -94,6 +94,8 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        # compute was not necessarily last called with these inputs
+        self.compute(inputs, dict())
         partials[out_name, in_name] = np.einsum(
             self.operation, self.outputs**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..f3f0775 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -55,6 +55,8 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
+        # compute was not necessarily last called with these inputs
+        self.compute(inputs, dict())
         partials[out_name, in_name] = self.outputs**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
-- 
2.43.0


From 66b5069af16f92526fbc0fbe8066eefdfd41804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 39/54] fix: partials of power combinations at zero where power
 is zero

---
 omtools/comps/linearpowercombination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index b7842d9..0219b13 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -108,7 +108,8 @@ class LinearPowerCombinationComp(ExplicitComponent):
                     b = power
                     if in_name == in_name2:
                         a = power
-                        b = power - 1.
+                        # partial is zero where power is zero
+                        b = power - 1. if power != 0 else 0.
 
                     term *= a * inputs[in_name2]**b
 
-- 
2.43.0


From 1f14dd0f7d8ed7fabd7830d71eed98ceab964e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 40/54] fix: reject residuals whose shape differs from their
 implicit output

---
 omtools/core/implicit_output.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 527c1cb..1bf9660 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -88,6 +88,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape mismatch between residual, " +
+                             repr(residual_expr.shape) + ", and " + repr(self))
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
@@ -134,6 +137,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if residual_expr.shape != self.shape:
+            raise ValueError("Shape mismatch between residual, " +
+                             repr(residual_expr.shape) + ", and " + repr(self))
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
-- 
2.43.0


From 28336fe1cf5d71ba1744892476cfb4ba2b29521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 41/54] fix: reject implicit outputs that are never defined

---
 omtools/comps/implicit_component.py | 4 ++++
 omtools/core/group.py               | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 04fa582..d59a711 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -57,6 +57,10 @@ def _post_setup(func: Callable) -> Callable:
         # setup internal problem
         g = self.group
 
+        for out in g.implicit_outputs:
+            if out.defined == False:
+                raise ValueError("Output not defined for " + repr(out))
+
         _remove_nonresiduals(g._root)
 
         # names of inputs added so far; residuals may share inputs
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 616d64d..64960c4 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -186,6 +186,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self.implicit_outputs: List[ImplicitOutput] = []
         self._in_setup: bool = False
 
     def initialize(self, *args, **kwargs):
@@ -360,6 +361,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
             val=val,
         )
         # self._root.add_dependency_node(im)
+        self.implicit_outputs.append(im)
         return im
 
     def register_output(self, name: str,
-- 
2.43.0


From d2b2c8a7202036d7fb6f06418fd3ea35b6480ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 42/54] fix: visit each expression once when constructing
 models

---
 omtools/core/variable.py | 71 +++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 542d65e..b8c2243 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -227,9 +227,14 @@ class Variable():
         return expr
 
     def add_fwd_edges(self):
-        for dependency in self.dependencies:
-            dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+        # visit each node once; recursion would visit every path
+        stack = [self]
+        while stack != []:
+            node = stack.pop()
+            for dependency in node.dependencies:
+                if len(dependency.dependents) == 0:
+                    stack.append(dependency)
+                dependency.add_dependent_node(node)
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -265,23 +270,25 @@ class Variable():
         nodes: dict[Variable]
             Dictionary of nodes registered so far
         """
-        for node in self.dependencies:
-            # Check for name collisions
-            if node._id in nodes.keys():
-                if nodes[node._id] is not None:
-                    # if name is in use and a separate object is already
-                    # registered, then we have a name collision
-                    if nodes[node._id] is not node:
-                        raise ValueError(
-                            "Name collision (", node.name, ") between ",
-                            nodes[node._id], " and ", node,
-                            "; check that calls to regiser_output and ",
-                            "create_* do not give the same name to ",
-                            "two outputs")
-            else:
-                # register node
-                nodes[node._id] = node
-                node.register_nodes(nodes)
+        stack = [self]
+        while stack != []:
+            for node in stack.pop().dependencies:
+                # Check for name collisions
+                if node._id in nodes.keys():
+                    if nodes[node._id] is not None:
+                        # if name is in use and a separate object is already
+                        # registered, then we have a name collision
+                        if nodes[node._id] is not node:
+                            raise ValueError(
+                                "Name collision (", node.name, ") between ",
+                                nodes[node._id], " and ", node,
+                                "; check that calls to regiser_output and ",
+                                "create_* do not give the same name to ",
+                                "two outputs")
+                else:
+                    # register node
+                    nodes[node._id] = node
+                    stack.append(node)
 
     def incr_times_visited(self):
         """
@@ -351,8 +358,28 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        costs = dict()
+        visited = set()
+        stack = [self]
+        while stack != []:
+            node = stack[-1]
+            remaining = [
+                dependency for dependency in node.dependencies
+                if dependency not in costs
+            ]
+            if remaining == []:
+                # costs of all dependencies are known
+                node._dag_cost = 1 + sum(costs[dependency]
+                                         for dependency in node.dependencies)
+                costs[node] = node._dag_cost
+                stack.pop()
+            elif node in visited:
+                raise ValueError(
+                    repr(node) + " depends on itself; use define to " +
+                    "compute an output in terms of itself")
+            else:
+                visited.add(node)
+                stack.extend(remaining)
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
-- 
2.43.0


From db7cb39af06eaf38f0eaa97b4fa48682f65b8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 43/54] fix: visit each expression once in definitions of
 outputs and residuals

---
 omtools/utils/collect_input_exprs.py       | 17 +++++++++++------
 omtools/utils/replace_output_leaf_nodes.py | 20 +++++++++++++-------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..d9ef49e 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -13,10 +13,15 @@ def collect_input_exprs(
     Collect input nodes so that the resulting ``ImplicitComponent`` has
     access to inputs outside of itself.
     """
-    for dependency in expr.dependencies:
-        if dependency.name != root.name:
-            if isinstance(dependency, Input) == True and len(
-                    dependency.dependencies) == 0:
-                inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+    # visit each node once; recursion would visit every path
+    visited = set()
+    stack = [expr]
+    while stack != []:
+        for dependency in stack.pop().dependencies:
+            if dependency.name != root.name and dependency not in visited:
+                visited.add(dependency)
+                stack.append(dependency)
+                if isinstance(dependency, Input) == True and len(
+                        dependency.dependencies) == 0:
+                    inputs.append(dependency)
     return inputs
diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index f526109..58f43d3 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -12,10 +12,16 @@ def replace_output_leaf_nodes(
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    # iterate over a copy; node.dependencies is modified in loop
-    for dependency in list(node.dependencies):
-        if dependency is root:
-            # replace dependency reference with Input node
-            node.remove_dependency_node(dependency)
-            node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+    visited = {node}
+    stack = [node]
+    while stack != []:
+        node = stack.pop()
+        # iterate over a copy; node.dependencies is modified in loop
+        for dependency in list(node.dependencies):
+            if dependency is root:
+                # replace dependency reference with Input node
+                node.remove_dependency_node(dependency)
+                node.add_dependency_node(leaf)
+            if dependency not in visited:
+                visited.add(dependency)
+                stack.append(dependency)
-- 
2.43.0


From 5316569e4850f86ff17fd0dc23703153168602a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 44/54] fix: p-norm keeps the imaginary part of complex steps

---
 omtools/comps/vectorized_pnorm_comp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index f3f0775..890b886 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,8 +47,9 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
-            inputs[in_name].flatten(), ord=pnorm_type)
+        # np.linalg.norm would discard the imaginary part of complex steps
+        self.outputs = outputs[out_name] = np.sum(
+            inputs[in_name]**pnorm_type)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
-- 
2.43.0


From 06d8ab736336793735b5d6c2f792924501072813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 45/54] fix: linearize residuals at current values of inputs
 and outputs

---
 omtools/comps/implicit_component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d59a711..8012376 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -276,7 +276,9 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                     outputs[out_name] = 0.5 * xp + 0.5 * xn
 
     def linearize(self, inputs, outputs, jacobian):
+        # partial derivatives are computed at the current values
         self._set_values(inputs, outputs)
+        self.prob.run_model()
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From e2d7f490f3c32a9b6095abc982240f2b6c43ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 46/54] fix: do not compute parts of expressions that no output
 depends on

---
 omtools/comps/decompose_comp.py | 7 +++++--
 omtools/core/variable.py        | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/decompose_comp.py b/omtools/comps/decompose_comp.py
index d95809c..6ca7f4b 100644
--- a/omtools/comps/decompose_comp.py
+++ b/omtools/comps/decompose_comp.py
@@ -9,6 +9,7 @@ class DecomposeComp(ExplicitComponent):
         self.options.declare('in_name', types=str)
         self.options.declare('expr', types=Variable)
         self.options.declare('val', types=np.ndarray)
+        self.options.declare('out_exprs', types=list)
 
     def setup(self):
         expr = self.options['expr']
@@ -21,7 +22,8 @@ class DecomposeComp(ExplicitComponent):
             # units=in_expr.units,
         )
 
-        for out_expr, src_indices in expr.src_indices.items():
+        for out_expr in self.options['out_exprs']:
+            src_indices = expr.src_indices[out_expr]
             name = out_expr.name
             shape = out_expr.shape
 
@@ -41,6 +43,7 @@ class DecomposeComp(ExplicitComponent):
     def compute(self, inputs, outputs):
         expr = self.options['expr']
         in_name = self.options['in_name']
-        for out_expr, src_indices in expr.src_indices.items():
+        for out_expr in self.options['out_exprs']:
+            src_indices = expr.src_indices[out_expr]
             name = out_expr.name
             outputs[name] = inputs[in_name].flatten()[src_indices]
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index b8c2243..b33c44c 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -223,6 +223,11 @@ class Variable():
             in_name=self.name,
             expr=self._decomp,
             val=self.val,
+            # parts that no output depends on are not computed
+            out_exprs=[
+                out_expr for out_expr in self._decomp.src_indices
+                if out_expr.dependents != []
+            ],
         )
         return expr
 
-- 
2.43.0


From a237b3754cd3b6a800ad5b4f2163528eac0aefb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 47/54] fix: structure surrogate training data as one row per
 grid point

---
 omtools/utils/structure_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/utils/structure_data.py b/omtools/utils/structure_data.py
index 894f676..f826366 100644
--- a/omtools/utils/structure_data.py
+++ b/omtools/utils/structure_data.py
@@ -18,9 +18,9 @@ def structure_data(inputs, output, ny=1):
         *inputs,
         indexing='ij',
     ), ).reshape(
-        int(np.prod(output.shape) / ny),
         len(inputs),
-    )
+        int(np.prod(output.shape) / ny),
+    ).T
 
     # KLUDGE: get xlimits based on structured training inputs
     xlimits = np.zeros((len(inputs), 2))
-- 
2.43.0


From a2c9ef17d2d7f3a7e6794c7c9bedbe10206aaedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 48/54] fix: sum and average over all axes of their operands

---
 omtools/std/average.py | 8 ++++++++
 omtools/std/sum.py     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 40f754a..c488748 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -30,6 +30,14 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if expr.shape != operands[0].shape:
             raise Exception("The shapes of the inputs must match!")
+
+    # axes that are all axes of the inputs reduce all elements
+    if axes is not None and len(axes) == len(expr.shape) and np.delete(
+            expr.shape, axes).size == 0:
+        if len(operands) > 1:
+            return average(average(*operands))
+        axes = None
+
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index d09316c..91b8116 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -28,6 +28,14 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if expr.shape != summands[0].shape:
             raise Exception("The shapes of the inputs must match!")
+
+    # axes that are all axes of the inputs reduce all elements
+    if axes is not None and len(axes) == len(expr.shape) and np.delete(
+            expr.shape, axes).size == 0:
+        if len(summands) > 1:
+            return sum(sum(*summands))
+        axes = None
+
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
-- 
2.43.0


From 5f05dc84ff4870e3e3dca3c3529c3bb0413b5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 49/54] fix: p-norm over all axes of its operand

---
 omtools/std/pnorm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 23ad4cf..6581e2f 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -26,6 +26,11 @@ def pnorm(expr, pnorm_type=2, axis=None):
     if axis is not None:
         if not isinstance(axis, int) and not isinstance(axis, tuple):
             raise TypeError("axis must be an integer or tuple of integers")
+        axes = axis if isinstance(axis, tuple) else (axis, )
+        if len(axes) == len(expr.shape) and np.delete(expr.shape,
+                                                      axes).size == 0:
+            # axes that are all axes of the input reduce all elements
+            axis = None
     out = Variable()
     out.add_dependency_node(expr)
 
-- 
2.43.0


From 415e5067ad8e3672a2b12e7c0416118822c93d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 50/54] fix: maximum and minimum along the only axis of a
 vector

---
 omtools/std/max.py | 4 ++++
 omtools/std/min.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/omtools/std/max.py b/omtools/std/max.py
index ea46ab4..7db1175 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -34,6 +34,10 @@ def max(*exprs, axis=None, rho=20.):
     for expr in exprs:
         out.add_dependency_node(expr)
 
+    # the only axis of a vector contains all elements
+    if len(exprs) == 1 and len(expr.shape) == 1 and axis in (0, -1):
+        axis = None
+
     if len(exprs) == 1 and axis != None:
         output_shape = np.delete(expr.shape, axis)
         out.shape = tuple(output_shape.tolist())
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 8188d5d..ecf2f82 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -34,6 +34,10 @@ def min(*exprs, axis=None, rho=20.):
     for expr in exprs:
         out.add_dependency_node(expr)
 
+    # the only axis of a vector contains all elements
+    if len(exprs) == 1 and len(expr.shape) == 1 and axis in (0, -1):
+        axis = None
+
     if len(exprs) == 1 and axis != None:
         output_shape = np.delete(expr.shape, axis)
         out.shape = tuple(output_shape.tolist())
-- 
2.43.0


From f6edd4da446bd911c86aa7a3f9f7e9518d98c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 51/54] fix: inner product over all axes of both operands

---
 omtools/comps/tensor_inner_product_comp.py | 2 +-
 omtools/std/inner.py                       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/tensor_inner_product_comp.py b/omtools/comps/tensor_inner_product_comp.py
index 0f679e7..c823a91 100644
--- a/omtools/comps/tensor_inner_product_comp.py
+++ b/omtools/comps/tensor_inner_product_comp.py
@@ -30,7 +30,7 @@ class TensorInnerProductComp(ExplicitComponent):
         new_in1_shape = np.delete(list(in_shapes[1]), axes[1])
 
         if out_shape == None:
-            out_shape = tuple(np.append(new_in0_shape, new_in1_shape))
+            out_shape = tuple(np.append(new_in0_shape, new_in1_shape)) or (1, )
 
         self.add_output(out_name, shape=out_shape)
 
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index d6854cf..88362a6 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -45,8 +45,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     else:
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
+        # a full contraction has one element
         out.shape = tuple(
-            np.append(new_in0_shape, new_in1_shape).tolist())
+            np.append(new_in0_shape, new_in1_shape).tolist()) or (1, )
 
         out.build = lambda: TensorInnerProductComp(
             in_names=[expr1.name, expr2.name],
-- 
2.43.0


From f22fb37254bc0131bab156b549d9b6f781f4f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 52/54] fix: cross product along an axis counted from the back

---
 omtools/comps/cross_product_comp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/comps/cross_product_comp.py b/omtools/comps/cross_product_comp.py
index b752043..528d77d 100644
--- a/omtools/comps/cross_product_comp.py
+++ b/omtools/comps/cross_product_comp.py
@@ -18,6 +18,9 @@ class CrossProductComp(ExplicitComponent):
         self.options.declare('in2_val', types=np.ndarray)
 
     def setup(self):
+        if self.options['axis'] < 0:
+            self.options['axis'] += len(self.options['shape'])
+
         shape = self.options['shape']
         axis = self.options['axis']
         in1_name = self.options['in1_name']
-- 
2.43.0


From ce7d466a190fca301706bfe45ed4e690b5624edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 53/54] fix: derivatives of inner products over axes counted
 from the back

---
 omtools/comps/tensor_inner_product_comp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/tensor_inner_product_comp.py b/omtools/comps/tensor_inner_product_comp.py
index c823a91..fa6d9cb 100644
--- a/omtools/comps/tensor_inner_product_comp.py
+++ b/omtools/comps/tensor_inner_product_comp.py
@@ -45,6 +45,13 @@ class TensorInnerProductComp(ExplicitComponent):
         I0_ind = tuple(2 * list(ind0))
         I1_ind = tuple(2 * list(ind1))
 
+        # I0 and I1 have twice as many axes as the inputs, so axes must be
+        # counted from the front
+        self.axes = tuple(
+            [axis + len(shape) if axis < 0 else axis
+             for axis in np.atleast_1d(axes_in)]
+            for axes_in, shape in zip(axes, in_shapes))
+
         self.I0 = np.zeros(tuple(2 * list(in_shapes[0])))
         self.I1 = np.zeros(tuple(2 * list(in_shapes[1])))
 
@@ -77,7 +84,7 @@ class TensorInnerProductComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
-        axes = self.options['axes']
+        axes = self.axes
 
         temp_partials = np.tensordot(self.I0, inputs[in_names[1]], axes=axes)
 
-- 
2.43.0


From bfa2f2a7376f675079648687f604c162b8feb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 54/54] fix: reduce all axes in sum, average and p-norm
 components

Replaces the handling in the functions, so that several operands are reduced by
one component, and components used directly accept all axes, too.
---
 omtools/comps/multiple_tensor_average_comp.py   |  8 ++++++--
 omtools/comps/multiple_tensor_sum_comp.py       |  8 ++++++--
 omtools/comps/single_tensor_average_comp.py     |  8 ++++++--
 omtools/comps/single_tensor_sum_comp.py         |  8 ++++++--
 omtools/comps/vectorized_axiswise_pnorm_comp.py |  8 ++++++--
 omtools/std/average.py                          | 10 +---------
 omtools/std/pnorm.py                            |  7 +------
 omtools/std/sum.py                              | 10 +---------
 8 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 8b2de65..8ade2ff 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -42,7 +42,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
         # Computation of Output shape if the shape is not provided
         if out_shape == None and axes != None:
             output_shape = np.delete(shape, axes)
-            self.output_shape = tuple(output_shape)
+            self.output_shape = tuple(output_shape) or (1, )
         else:
             self.output_shape = out_shape
 
@@ -70,7 +70,11 @@ class MultipleTensorAverageComp(ExplicitComponent):
 
             rows = np.unravel_index(np.arange(input_size), shape=shape)
             rows = np.delete(np.array(rows), axes, axis=0)
-            rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            if len(rows) > 0:
+                rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            else:
+                # one element if all axes are reduced
+                rows = np.zeros(input_size, int)
 
             num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
diff --git a/omtools/comps/multiple_tensor_sum_comp.py b/omtools/comps/multiple_tensor_sum_comp.py
index b5e54d5..0a2619a 100644
--- a/omtools/comps/multiple_tensor_sum_comp.py
+++ b/omtools/comps/multiple_tensor_sum_comp.py
@@ -42,7 +42,7 @@ class MultipleTensorSumComp(ExplicitComponent):
         # Computation of Output shape if the shape is not provided
         if out_shape == None and axes != None:
             output_shape = np.delete(shape, axes)
-            self.output_shape = tuple(output_shape)
+            self.output_shape = tuple(output_shape) or (1, )
 
         else:
             self.output_shape = out_shape
@@ -70,7 +70,11 @@ class MultipleTensorSumComp(ExplicitComponent):
 
             rows = np.unravel_index(np.arange(input_size), shape=shape)
             rows = np.delete(np.array(rows), axes, axis=0)
-            rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            if len(rows) > 0:
+                rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            else:
+                # one element if all axes are reduced
+                rows = np.zeros(input_size, int)
 
             for in_name, in_val in zip(in_names, vals):
                 self.add_input(in_name, shape=shape, val=in_val)
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index 6753aab..d3733ec 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -45,7 +45,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             self.output_shape = out_shape
         elif axes != None:
             output_shape = np.delete(shape, axes)
-            self.output_shape = tuple(output_shape)
+            self.output_shape = tuple(output_shape) or (1, )
 
         input_size = np.prod(shape)
 
@@ -63,7 +63,11 @@ class SingleTensorAverageComp(ExplicitComponent):
 
             rows = np.unravel_index(np.arange(input_size), shape=shape)
             rows = np.delete(np.array(rows), axes, axis=0)
-            rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            if len(rows) > 0:
+                rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            else:
+                # one element if all axes are reduced
+                rows = np.zeros(input_size, int)
 
             num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
diff --git a/omtools/comps/single_tensor_sum_comp.py b/omtools/comps/single_tensor_sum_comp.py
index 91fd69f..40ad8a3 100644
--- a/omtools/comps/single_tensor_sum_comp.py
+++ b/omtools/comps/single_tensor_sum_comp.py
@@ -45,7 +45,7 @@ class SingleTensorSumComp(ExplicitComponent):
             self.output_shape = out_shape
         elif axes != None:
             output_shape = np.delete(shape, axes)
-            self.output_shape = tuple(output_shape)
+            self.output_shape = tuple(output_shape) or (1, )
 
         self.add_input(in_name, shape=shape, val=val)
         input_size = np.prod(shape)
@@ -63,7 +63,11 @@ class SingleTensorSumComp(ExplicitComponent):
 
             rows = np.unravel_index(np.arange(input_size), shape=shape)
             rows = np.delete(np.array(rows), axes, axis=0)
-            rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            if len(rows) > 0:
+                rows = np.ravel_multi_index(rows, dims=self.output_shape)
+            else:
+                # one element if all axes are reduced
+                rows = np.zeros(input_size, int)
 
             self.declare_partials(out_name,
                                   in_name,
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 9bb528f..3e5da85 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -64,7 +64,7 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         # Computation of Output shape if the shape is not provided
         if out_shape == None:
             output_shape = np.delete(shape, axis)
-            self.output_shape = tuple(output_shape)
+            self.output_shape = tuple(output_shape) or (1, )
         else:
             self.output_shape = out_shape
 
@@ -75,7 +75,11 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         cols = np.arange(input_size)
         rows = np.unravel_index(np.arange(input_size), shape=shape)
         rows = np.delete(np.array(rows), axis, axis=0)
-        rows = np.ravel_multi_index(rows, dims=self.output_shape)
+        if len(rows) > 0:
+            rows = np.ravel_multi_index(rows, dims=self.output_shape)
+        else:
+            # one element if all axes are reduced
+            rows = np.zeros(input_size, int)
 
         self.declare_partials(out_name, in_name, rows=rows, cols=cols)
 
diff --git a/omtools/std/average.py b/omtools/std/average.py
index c488748..a5d897c 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -30,14 +30,6 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if expr.shape != operands[0].shape:
             raise Exception("The shapes of the inputs must match!")
-
-    # axes that are all axes of the inputs reduce all elements
-    if axes is not None and len(axes) == len(expr.shape) and np.delete(
-            expr.shape, axes).size == 0:
-        if len(operands) > 1:
-            return average(average(*operands))
-        axes = None
-
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
@@ -60,7 +52,7 @@ def average(*operands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
-        out.shape = tuple(output_shape.tolist())
+        out.shape = tuple(output_shape.tolist()) or (1, )
 
         if len(operands) == 1:
             out.build = lambda: SingleTensorAverageComp(
diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 6581e2f..256ff41 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -26,11 +26,6 @@ def pnorm(expr, pnorm_type=2, axis=None):
     if axis is not None:
         if not isinstance(axis, int) and not isinstance(axis, tuple):
             raise TypeError("axis must be an integer or tuple of integers")
-        axes = axis if isinstance(axis, tuple) else (axis, )
-        if len(axes) == len(expr.shape) and np.delete(expr.shape,
-                                                      axes).size == 0:
-            # axes that are all axes of the input reduce all elements
-            axis = None
     out = Variable()
     out.add_dependency_node(expr)
 
@@ -48,7 +43,7 @@ def pnorm(expr, pnorm_type=2, axis=None):
             )
         else:
             output_shape = np.delete(expr.shape, axis)
-            out.shape = tuple(output_shape.tolist())
+            out.shape = tuple(output_shape.tolist()) or (1, )
 
             out.build = lambda: VectorizedAxisWisePnormComp(
                 shape=expr.shape,
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 91b8116..4384369 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -28,14 +28,6 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if expr.shape != summands[0].shape:
             raise Exception("The shapes of the inputs must match!")
-
-    # axes that are all axes of the inputs reduce all elements
-    if axes is not None and len(axes) == len(expr.shape) and np.delete(
-            expr.shape, axes).size == 0:
-        if len(summands) > 1:
-            return sum(sum(*summands))
-        axes = None
-
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
@@ -58,7 +50,7 @@ def sum(*summands: List[Variable], axes=None):
             )
     else:
         output_shape = np.delete(expr.shape, axes)
-        out.shape = tuple(output_shape.tolist())
+        out.shape = tuple(output_shape.tolist()) or (1, )
 
         if len(summands) == 1:
             out.build = lambda: SingleTensorSumComp(
-- 
2.43.0

