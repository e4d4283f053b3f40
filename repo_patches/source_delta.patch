From 99f48902302acbe9264e8f18bfcc483811336846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 01/20] fix: check additional constraints on complete
 assignments

The bound set by an objective changes between solutions, so candidate values
filtered earlier (and single-variable or constant objectives, which were only
filtered once) could break it: optimize yielded worse solutions and
optimal_solution reported a non-optimal one as optimal.
---
 src/satisfy/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..51ea413 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -156,7 +156,7 @@ class Solver(object):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -270,6 +270,9 @@ class Solver(object):
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
             else:
+                # the additional constraints can change while the search is suspended (see Objective)
+                if any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                    continue
                 timer.stop()
                 # for constraint in model.constraints():
                 #     print(constraint.evaluate(substitution), constraint)
-- 
2.43.0


From a26a515c6bb3068d1e4ae6cfc804a34ebdb5b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/20] fix: parenthesize compiled 'or' and 'not'

(x | y) & z was compiled as x or (y and z).
---
 src/satisfy/expression.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..ad25c8f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -600,9 +600,6 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-    def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
-
 
 class Not(UnOp):
     __symbol__ = '^'
@@ -615,7 +612,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
-- 
2.43.0


From 5dd44201de81b4b474daff291675503bb0fcd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 03/20] fix: compile the operand of unary operators as Python
 source

Neg and Abs used the display form of their operand (/ for //, & for and), and
(-x) ** 2 was compiled as -(x ** 2).
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ad25c8f..6cbc947 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
-- 
2.43.0


From d14105d915a9f56565bd1b34c798c5b5e2e084e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 04/20] fix: parenthesize constants and two-term sums in
 compiled source

Const(-2) ** x was compiled as -(2 ** x), Prod([Sum([x, y]), z]) as x + y * z.
---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 6cbc947..4f82349 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({})".format(self)
 
     def __add__(self, other):
         if self._value == 0:
@@ -673,14 +673,14 @@ class Accumulation(Collection):
     def _as_str(self, op, fun, convert=str):
         values = []
         if self._const != self.__neutral_element__:
-            values.append(str(self._const))
+            values.append(convert(Const(self._const)))
         values.extend(convert(e) for e in self)
         if len(values) == 0:
             return str(self.__neutral_element__)
         elif len(values) == 1:
             return str(values[0])
         elif len(values) == 2:
-            return "{} {} {}".format(values[0], op, values[1])
+            return "({} {} {})".format(values[0], op, values[1])
         else:
             return "{}([{}])".format(fun, ", ".join(values))
 
@@ -786,4 +786,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({})".format(self._value)
-- 
2.43.0


From c7ed04b9353b07f5a5e47512519e9a254043bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 05/20] fix: keep compiled helper functions apart from variable
 names

A variable named sum, prod or abs captured the helper of the same name.
---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 4f82349..29c1547 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,7 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'sum': sum, 'prod': prod})
+        return eval(py_source, {'__sum': sum, '__prod': prod, '__abs': abs})
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return "abs({})".format(self.operand.py_expr())
+        return "__abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -703,7 +703,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return self._as_str(op='+', fun='__sum', convert=lambda x: x.py_expr())
 
 
 class Prod(Accumulation):
@@ -725,7 +725,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return self._as_str(op='*', fun='__prod', convert=lambda x: x.py_expr())
 
 
 class Variable(Expression):
-- 
2.43.0


From fb6dc11ddcec21458dc98d119a10be45807b016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 06/20] fix: fallback of as_function takes keyword arguments
 like the compiled one

When compilation failed (a variable named 'if', too many nested parentheses),
the returned function could not be called as ExpressionConstraint does.
---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 29c1547..4c2f79a 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -69,7 +69,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 2e8bf7b075c555bd7b8e4284c42b5737cf4a4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 07/20] fix: dividing a number by an expression

6 / x raised a TypeError, since expressions have no // operator.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 4c2f79a..7b9fd6e 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -162,10 +162,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From 2c54654be157da2467323eda6581e8981a579e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 08/20] fix: Parameter.free_vars takes the substitution like
 every expression

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 7b9fd6e..ed9d2f4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -776,7 +776,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From bd8e22a160dadd4bd48b00c9cbe60186019cf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 09/20] fix: compare the operands in Collection.equals

== on expressions builds a new (always true) expression, so any two expressions
of the same kind and length were reported equal; accumulations also have a constant.
---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ed9d2f4..336c0b4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -330,7 +330,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -652,6 +652,9 @@ class Accumulation(Collection):
         self._const = const
         super().__init__(elist)
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     @property
     def const(self):
         return self._const
-- 
2.43.0


From 233fe1cf52ec0b0eaa686a1632e613cfc51f28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/20] fix: Model.set_solvable had no effect

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From ea01e2f13c58b6d43d5b3d106ff7c184242f2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 11/20] fix: reject variable names ending with a newline

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..2b3698b 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From 89200c72870f4e9cb5b1aebf11edc386394b9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 12/20] fix: drop compiled constraints when solving without
 compilation

A constraint compiled by an earlier search kept the parameter values of that search.
---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..3f27a35 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def reset(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def reset(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 51ea413..d3f9c60 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,8 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            else:
+                constraint.reset()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From 4372c679db81389e3cab702f74ec8d8b93bf749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 13/20] fix: honour avoid_leading_zeros=False in
 CryptarithmSolver

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From bd9780ccc901bbc7a2dfac7c36d26b52a4e8ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/20] fix: a sudoku with contradictory clues has no solution

Two equal clues in a row, column or block were never compared with each other.
---
 src/satisfy/sudoku.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..d81dfc9 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -55,6 +55,12 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for cells in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            clues = [schema[cell.row_index][cell.col_index] for cell in cells]
+            clues = [value for value in clues if value not in null_values]
+            if len(set(clues)) < len(clues):
+                model.add_constraint(False)
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From b34f2bbc14a46562e9341378ce7e8a7115044676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 15/20] fix: export Infinity, and make str() of the singletons
 work

---
 src/satisfy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..21bdeb9 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -3,7 +3,7 @@ import time
 
 __all__ = [
     'INFINITY',
-    'InfiniTY',
+    'Infinity',
     'UNDEFINED',
     'Undefined',
     'Timer',
@@ -27,7 +27,7 @@ class _Singleton(object):
         return "{}()".format(self.name())
 
     def __str__(self):
-        return self.name
+        return self.name()
 
 
 class Infinity(_Singleton):
-- 
2.43.0


From a374dd6d8fac9cea7fc17284a8c1636617ea09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/20] fix: ascii_map_coloring reads its already open input
 file

---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From f6a337f392ccb78aca45584c3704ac82809c80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 17/20] fix: account for the time spent after the last solution

A search that ended or timed out left its timer running, so the statistics
missed the last interval (all of it, when there was no solution).
---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index d3f9c60..f8cd7c7 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -230,6 +230,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -286,6 +287,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From 42c4bf0c0c4ab9bd9e5b864d6b9079d7b5ea4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 18/20] fix: knapsack weights given as iterators

The validated copy of the weights was discarded and the exhausted iterator used,
so every capacity constraint was trivially true.
---
 src/satisfy/knapsack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..9e59980 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -41,6 +41,7 @@ class KnapsackOptimizer(ModelOptimizer):
             ws.append(w)
         if len(ws) < len(values):
             raise ValueError("too few weights")
+        weights = tuple(ws)
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-- 
2.43.0


From 0707555bfc2a5fbdec6e02c17c607681b7fc7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:14 +0000
Subject: [PATCH 19/20] fix: interpret expressions whose variable names Python
 would normalize

---
 src/satisfy/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 336c0b4..1a20c4f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -2,6 +2,7 @@ import abc
 import functools
 import itertools
 import logging
+import unicodedata
 
 
 __all__ = [
@@ -53,6 +54,10 @@ class Expression(abc.ABC):
 
     def py_source(self):
         alist = list(self.vars())
+        for name in alist:
+            if unicodedata.normalize("NFKC", name) != name:
+                # the compiler would bind a different name
+                raise ValueError("variable name {!r} is not a normalized identifier".format(name))
         alist.append("**__dummy_kwargs")
         return "lambda {}: ({})".format(", ".join(alist), self.py_expr())
 
-- 
2.43.0


From e1bc17d07d9f4afcf99e70e2e10dc7cd19f76051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 20/20] fix: an all-different constraint about no variables
 does not break the search

---
 src/satisfy/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index f8cd7c7..ab17618 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -136,7 +136,7 @@ class Solver(object):
         group_sizes = {}
         for groupid, c_vars in groups.items():
             group_bounds[groupid] = sum(var_bounds[var_name] for var_name in c_vars)
-            group_sizes[groupid] = max(var_sizes[var_name] for var_name in c_vars)
+            group_sizes[groupid] = max((var_sizes[var_name] for var_name in c_vars), default=0)
         return ModelInfo(
             variables=pure_variables,
             var_constraints=var_constraints,
-- 
2.43.0

