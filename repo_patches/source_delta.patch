From b817960b90e4316a96956281c4fa3d26932b7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 01/93] fix: is_initially_increasing ignored the direction
 after equal leading values

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..6db6f61 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -72,8 +72,8 @@ def is_initially_increasing(x):
     # until x[i+1]!=x[i]
     if x[1] != x[0]:
         return x[1] > x[0]
-    x = np.asarray(x)
-    return np.where(np.diff(x) != 0)[0][0] > 0
+    dx = np.diff(np.asarray(x))
+    return dx[dx != 0][0] > 0
 
 
 #used info from http://stackoverflow.com/questions/4983258/python-how-to-check-list-monotonicity
-- 
2.43.0


From 36a17e2f7ac81083d3871320d4550bdb144fff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 02/93] fix: adding a scalar to a PolyLine altered the PolyLine
 itself

---
 geotecha/piecewise/piecewise_linear_1d.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 6db6f61..dda952a 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2468,8 +2468,6 @@ class PolyLine(object):
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
 
-        mp = {operator.add: operator.iadd, operator.sub: operator.isub}
-        iop = mp[op]
 
         if isinstance(other, PolyLine):
 
@@ -2552,7 +2550,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
@@ -2561,8 +2559,7 @@ class PolyLine(object):
         except TypeError:
             print("Unsupported operand type(s) for +: 'PolyLine' and "
                 "'{}'".format(other.__class__.__name__))
-#            sys.exit(0)
-        return a
+            raise
 
 
 def polyline_make_x_common(*p_lines):
-- 
2.43.0


From c09dd63bfdddd04710fc42a16dc86d57c84b8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 03/93] fix: steps smaller than 1e-5 were lost when combining
 PolyLines

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index dda952a..e4e23da 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2541,7 +2541,7 @@ class PolyLine(object):
                 y = op(y1, y2)
                 y_ = op(y1_, y2_)
                 pnts.append([x, y])
-                if abs(y - y_)> (self.atol + self.rtol * abs(y_)):
+                if y != y_:
                     pnts.append([x, y_])
 
                 i= np.nonzero(ind)[0][-1]+1
@@ -2636,7 +2636,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
                 y1_= y1
             pnts[k].append([x,y1])
-            if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
+            if y1 != y1_:
                 pnts[k].append([x, y1_])
 
         i = np.nonzero(ind)[0][-1]+1
-- 
2.43.0


From d5aa0c2c66fc99af3ca271eb67e82e9539d04ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/93] fix: force_strictly_increasing altered the caller's
 array and truncated integers

---
 geotecha/piecewise/piecewise_linear_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index e4e23da..ec1a048 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -285,6 +285,7 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
         d = 1
         dx = np.arange(1, len(steps) + 1) * f
 
+    x = np.array(x, dtype=float)
     x[steps + d] = x[steps + d] + dx
     return x, y
 
-- 
2.43.0


From b91a03d5fd56964c2ff111ba953da950f91689ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/93] fix: force_strictly_increasing had no effect on steps
 at large x

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index ec1a048..ae32dd6 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -286,6 +286,8 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
         dx = np.arange(1, len(steps) + 1) * f
 
     x = np.array(x, dtype=float)
+    # eps is relative for abs(x) > 1, otherwise it would be lost to rounding
+    dx = dx * np.maximum(1, np.abs(x[steps + d]))
     x[steps + d] = x[steps + d] + dx
     return x, y
 
-- 
2.43.0


From d192ac2fa82359383b357bfa0a603b899c709c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/93] fix: single omega_phase tuple was not wrapped in a list
 when superposing loads

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index ae32dd6..c986497 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2074,7 +2074,7 @@ def pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_betwe
         b = [b]
     if omega_phase is None:
         omega_phase = [None] * len(a)
-    if not isinstance(b, list):
+    if not isinstance(omega_phase, list):
         omega_phase = [omega_phase]
 
     if len(a)!=len(b):
-- 
2.43.0


From e8883bcf8003ee620844655a5e4681841ba0b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/93] fix: subdividing on a log scale altered the caller's
 arrays

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index c986497..d1057e9 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2711,8 +2711,8 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
     """
 
 
-    x = np.asarray(x, dtype=float)
-    y = np.asarray(y, dtype=float)
+    x = np.array(x, dtype=float)
+    y = np.array(y, dtype=float)
 
 
     if len(x)!=len(y):
@@ -2833,7 +2833,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
     """
 
 
-    x = np.asarray(x, dtype=float)
+    x = np.array(x, dtype=float)
 
 
 
-- 
2.43.0


From d1ed0e2d94d1412e0d4915d30f90893333dbb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 08/93] fix: layer_coords passed a float number of points to
 linspace

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index d1057e9..7c5b06c 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2919,7 +2919,7 @@ def layer_coords(h, segs, min_segs=1):
     z2 = np.cumsum(h)
     z1 = z2 - h
     dx = np.sum(h) / segs
-    num = [max(height//dx, min_segs) for height in h]
+    num = [int(max(height//dx, min_segs)) for height in h]
 
     zlist = [np.linspace(z1_, z2_, num_, endpoint=False) for (z1_, z2_, num_) in zip(z1, z2, num)]
     zlist.append([z2[-1]])
-- 
2.43.0


From 727cf4b2e5f28a5f7b1584c4f9e35db4427303d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/93] fix: negative values on a log scale raised TypeError
 while building the message

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7c5b06c..d122b8d 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2722,13 +2722,13 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x=' + str(x))
         x = np.log10(x)
     if logy:
         y[np.abs(y) <= (atol + rtol * np.abs(y))] = logyzero
         if np.any(y<0):
             raise ValueError('When logy=True cannot have negative '
-                                'y values, y=' + x)
+                                'y values, y=' + str(y))
         y = np.log10(y)
 
 
@@ -2841,7 +2841,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x=' + str(x))
         x = np.log10(x)
 
 
-- 
2.43.0


From 3327062b2eb5785c5ea1d68459db971369106d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 10/93] fix: PolyLines with different breakpoints could not be
 combined (ragged array)

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index d122b8d..1818f75 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2529,7 +2529,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2538,7 +2538,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2636,7 +2636,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if y1 != y1_:
-- 
2.43.0


From 682a10a75a9329b2127660cc4b30f1adfde6fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 11/93] fix: repr of a PolyLine could not recreate the PolyLine

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 1818f75..1c1e84d 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2401,7 +2401,9 @@ class PolyLine(object):
 #                                    repr(self.xy))
     def __repr__(self):
         """A string repr of the PolyLine that will recreate the PolyLine"""
-        return "PolyLine({})".format(repr(self.xy))
+        with np.printoptions(threshold=sys.maxsize, floatmode='unique'):
+            return "PolyLine({}{})".format(self._prefix_for_numpy_array_repr,
+                                           np.array_repr(self.xy))
 
     def __add__(self, other):
         return self._add_substract(other, op=operator.add)
-- 
2.43.0


From 5ddf57ce7eab867ee2fbef66c7df66aa0e4f6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 12/93] fix: repeated points broke the classification of
 constant and step segments

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 1c1e84d..9484a8e 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -372,7 +372,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) != 0) & (np.diff(y) == 0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -400,7 +400,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) == 0) & (np.diff(y) != 0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From 768e474e636f78d6262d55d57cb00c1efc9cb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 13/93] fix: every literal was rejected by SyntaxChecker
 (Constant nodes not whitelisted on python >= 3.8)

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..1ca590b 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From 5a7fcc7f5959fac4825be03c145f428c9bacc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 14/93] fix: assigning to a name let the text use it as an
 attribute or builtin (also in later texts), comprehensions and lambdas were
 rejected

---
 geotecha/inputoutput/inputoutput.py | 65 ++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1ca590b..ce6b874 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -160,6 +160,7 @@ class SyntaxChecker(ast.NodeVisitor):
         self.allowed_node_types = dict()
         self.allowed_attributes = set()
         self.safe_names = {'True': True, 'False': False, 'None': None}#dict()
+        self.stored_names = set() #names assigned to in the text being checked
         self.print_each_node = False
         for v in allow:
             s = 'allow_{0}'.format(v)
@@ -170,6 +171,20 @@ class SyntaxChecker(ast.NodeVisitor):
             "'{0}'. i.e. '{1}' is not a valid member "
             "of the allow list".format(s,v))
 
+    def visit(self, node):
+        """Visit a node, forgetting stored names at the start of each text"""
+
+        if isinstance(node, ast.mod):
+            self.stored_names = set()
+        return ast.NodeVisitor.visit(self, node)
+
+    def _store_name(self, name):
+        """Allow `name` to be used from here on in the text"""
+
+        if name.startswith('__'):
+            raise SyntaxError("cannot use {} as name!".format(name))
+        self.stored_names.add(name)
+
     def visit_Call(self, node):
         """Custom visit a 'Call' node"""
 
@@ -185,6 +200,50 @@ class SyntaxChecker(ast.NodeVisitor):
             ast.NodeVisitor.generic_visit(self, node)
 
 
+    def _visit_fields_in_order(self, node, order):
+        """Visit fields in `order` so that names are stored before being used"""
+
+        if type(node).__name__ not in self.allowed_node_types:
+            raise SyntaxError("{} is not allowed!".format(type(node).__name__))
+        for field in order:
+            value = getattr(node, field)
+            for v in value if isinstance(value, list) else [value]:
+                self.visit(v)
+
+    def visit_Assign(self, node):
+        """Custom visit an 'Assign' node, value before targets"""
+        self._visit_fields_in_order(node, ['value', 'targets'])
+
+    def visit_For(self, node):
+        """Custom visit a 'For' node, iterable before target"""
+        self._visit_fields_in_order(node, ['iter', 'target', 'body', 'orelse'])
+
+    def visit_comprehension(self, node):
+        """Custom visit a 'comprehension' node, iterable before target"""
+        self._visit_fields_in_order(node, ['iter', 'target', 'ifs'])
+
+    def visit_ListComp(self, node):
+        """Custom visit a 'ListComp' node, generators before element"""
+        self._visit_fields_in_order(node, ['generators', 'elt'])
+
+    visit_SetComp = visit_ListComp
+    visit_GeneratorExp = visit_ListComp
+
+    def visit_DictComp(self, node):
+        """Custom visit a 'DictComp' node, generators before key and value"""
+        self._visit_fields_in_order(node, ['generators', 'key', 'value'])
+
+    def visit_FunctionDef(self, node):
+        """Custom visit a 'FunctionDef' node"""
+        if node.name.startswith('__'):
+            raise SyntaxError("cannot use {} as name!".format(node.name))
+        self.generic_visit(node)
+
+    def visit_arg(self, node):
+        """Custom visit an 'arg' node of a function or lambda"""
+        self._store_name(node.arg)
+        self.generic_visit(node)
+
     def visit_Name(self, node):
         """Custom visit a 'Name' node"""
 
@@ -192,9 +251,9 @@ class SyntaxChecker(ast.NodeVisitor):
             print('NAME: ', ast.dump(node))
 
         if type(node.ctx).__name__=='Store':
-            self.allowed_attributes.add(node.id)
+            self._store_name(node.id)
         elif type(node.ctx).__name__=='Load':
-            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes:
+            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.stored_names:
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
@@ -625,6 +684,8 @@ def make_module_from_text(reader, syntax_checker=None):
     tree = ast.parse(reader, mode='exec')
     syntax_checker.visit(tree)
     compiled = compile(tree, '<string>', "exec")
+    #only what is explicitly allowed can be reached by name
+    mymodule.__dict__['__builtins__'] = {}
     mymodule.__dict__.update(syntax_checker.allowed_functions)
     exec(compiled, mymodule.__dict__)
 
-- 
2.43.0


From 643d49c909bb1d001633148c6fa66e4a8699331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 15/93] fix: make_module_from_text rejected the open files and
 StringIO it documents

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index ce6b874..468b2ef 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -673,6 +673,9 @@ def make_module_from_text(reader, syntax_checker=None):
 
     mymodule = imp.new_module('mymodule') #may need to randomise the name; not sure
 
+    if hasattr(reader, 'read'):
+        reader = reader.read()
+
     if syntax_checker is None:
         exec(reader, mymodule.__dict__)
         return mymodule
-- 
2.43.0


From 0100003a9ffca41179b15f485eff15e06cb1f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 16/93] fix: force_strictly_increasing moved steps at large x
 by more than the eps asked for (amends b91a03d)

---
 geotecha/piecewise/piecewise_linear_1d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 9484a8e..2dff4e1 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -277,17 +277,17 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
     steps = np.where(np.diff(x) == 0)[0]
 
     if keep_end_points:
-        f = -1 * eps
+        f = -1
         d = 0
         dx = np.arange(len(steps), 0, -1) * f
     else:
-        f = 1 * eps
+        f = 1
         d = 1
         dx = np.arange(1, len(steps) + 1) * f
 
     x = np.array(x, dtype=float)
-    # eps is relative for abs(x) > 1, otherwise it would be lost to rounding
-    dx = dx * np.maximum(1, np.abs(x[steps + d]))
+    # a shift smaller than the resolution of x would be lost to rounding
+    dx = dx * np.maximum(eps, 4 * np.spacing(np.abs(x[steps + d])))
     x[steps + d] = x[steps + d] + dx
     return x, y
 
-- 
2.43.0


From 855d64878d8b7ceb1f4dc8de2dff49576a915d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 17/93] fix: saved input text: quotes/newlines in strings,
 nested arrays, long arrays, precision, empty arrays, and print settings left
 altered after an error

---
 geotecha/inputoutput/inputoutput.py | 82 +++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 468b2ef..f39e310 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1623,39 +1623,75 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     """
 
-    def f(v):
-        if isinstance(v, str):
-            return "'"
-        else:
-            return ""
-
-    if not numpy_array_prefix is None:
-        a = PrefixNumpyArrayString(numpy_array_prefix)
-    else:
-        a = PrefixNumpyArrayString('')
-    a.turn_on()
-
-
+    def line(v):
+        return '{} = {}'.format(v, _text_to_recreate(getattr(obj, v, None),
+                                                     numpy_array_prefix or ''))
 
     writer = ""
     if none_at_bottom:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if not getattr(obj, v, None) is None])
+        writer+='\n'.join([line(v) for v in attributes
+                           if not getattr(obj, v, None) is None])
         writer+='\n\n\n'
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if getattr(obj, v, None) is None])
+        writer+='\n'.join([line(v) for v in attributes
+                           if getattr(obj, v, None) is None])
     else:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes])
+        writer+='\n'.join([line(v) for v in attributes])
 
     writer+='\n'
-    a.turn_off()
     return writer
 
 
+def _text_to_recreate(v, prefix):
+    """Text that gives `v` when executed, whatever the print options are
+
+    Parameters
+    ----------
+    v : object
+        Value to express as text.
+    prefix : string
+        Prefix for the 'array' of numpy arrays.
+
+    Returns
+    -------
+    out : str
+        Text
+
+    """
+
+    def f(x):
+        return _text_to_recreate(x, prefix)
+
+    if type(v) is np.ndarray:
+        values = v.tolist()
+        if v.dtype == object or v.dtype.kind in 'SUV':
+            data = f(values)
+        else:
+            with np.printoptions(precision=17, floatmode='unique',
+                                 suppress=False, threshold=sys.maxsize,
+                                 linewidth=75, sign='-', formatter=None,
+                                 nanstr="float('nan')", infstr="float('inf')"):
+                data = np.array2string(v, separator=', ',
+                                       prefix=prefix + 'array(')
+        if v.size == 0:
+            return "{}array([], dtype='{}').reshape({})".format(prefix, v.dtype, v.shape)
+        if v.dtype == object or np.array(values).dtype != v.dtype:
+            data += ", dtype='{}'".format(v.dtype)
+        return '{}array({})'.format(prefix, data)
+    elif isinstance(v, PolyLine):
+        return 'PolyLine({})'.format(f(v.xy))
+    elif type(v) is list:
+        return '[{}]'.format(', '.join([f(x) for x in v]))
+    elif type(v) is tuple:
+        return '({}{})'.format(', '.join([f(x) for x in v]), ',' * (len(v) == 1))
+    elif type(v) is dict:
+        return '{{{}}}'.format(', '.join(['{}: {}'.format(f(k), f(x))
+                                          for k, x in v.items()]))
+    elif isinstance(v, float) and not np.isfinite(v):
+        return "float('{}')".format(float(v))
+    else:
+        return repr(v)
+
+
 
 class PrefixNumpyArrayString(object):
     """When printing a numpy array string prefix 'array'
-- 
2.43.0


From aebde680993fea48cfce753ef2f8162a5d91e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 18/93] fix: objects shared their mutable default values and
 class level attribute lists

---
 geotecha/inputoutput/inputoutput.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index f39e310..915568d 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -28,6 +28,7 @@ except ImportError:
     import builtins as __builtin__
 import sys
 import ast
+import copy
 import imp
 import textwrap
 import inspect
@@ -816,7 +817,11 @@ def copy_attributes_between_objects(from_object,
 
 
     for v in attributes:
-            to_object.__setattr__(v, from_object.__dict__.get(v, defaults.get(v, not_found_value)))
+        if v in from_object.__dict__:
+            to_object.__setattr__(v, from_object.__dict__[v])
+        else:
+            # each object has its own copy of the default
+            to_object.__setattr__(v, copy.deepcopy(defaults.get(v, not_found_value)))
 
     return
 
@@ -1098,7 +1103,8 @@ def initialize_objects_attributes(obj,
     """
 
     for v in attributes:
-        obj.__setattr__(v, defaults.get(v, not_found_value))
+        # each object has its own copy of the default
+        obj.__setattr__(v, copy.deepcopy(defaults.get(v, not_found_value)))
     return
 
 def code_for_explicit_attribute_initialization(attributes=[],
@@ -1399,8 +1405,8 @@ class InputFileLoaderCheckerSaver(object):
         attribute_defaults = getattr(self, '_attribute_defaults', dict())
 
 
-        [self._attributes.append(v) for v in common_attributes if
-                v not in self._attributes]
+        self._attributes = (list(self._attributes) +
+                [v for v in common_attributes if v not in self._attributes])
 
         self._attribute_defaults = copy_dict(common_attribute_defaults,
                                         attribute_defaults)
-- 
2.43.0


From 6b0ecc5084340b7bf8ffa316f9ac7ea136a21db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 19/93] fix: checks failed with unrelated errors for an empty
 list of PolyLines or an array as first attribute

---
 geotecha/inputoutput/inputoutput.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 915568d..13e37ea 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -920,6 +920,8 @@ def check_attribute_PolyLines_have_same_x_limits(obj, attributes=[]):
         for v in sublist:
             if not g(v) is None:
                 if isinstance(g(v), list):
+                    if len(g(v)) == 0:
+                        continue
                     xcheck = np.array([g(v)[0].x[0], g(v)[0].x[-1]])
                     xstr = v
                     break
@@ -1053,7 +1055,7 @@ def force_attribute_same_len_if_none(obj, same_len_attributes=[], value=None):
 
     for group in same_len_attributes:
         a1 =getattr(obj, group[0])
-        if a1!=None:
+        if not a1 is None:
             for v in group[1:]:
                 if getattr(obj, v) is None:
                     setattr(obj, v, [value] * len(a1))
-- 
2.43.0


From 3f52a73eac2712225f7cffc3b6f2ae64b9751364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 20/93] fix: kwref given in a speccon1d_vrw input was ignored
 and not saved

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..621c8e8 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -510,7 +510,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
     def _setup(self):
 
         self._attributes = (
-            'H drn dT neig mvref kvref khref etref dTh dTv dTw '
+            'H drn dT neig mvref kvref khref kwref etref dTh dTv dTw '
             'mv kh kv kw et '
             'surcharge_vs_depth surcharge_vs_time '
             'top_vs_time bot_vs_time '
-- 
2.43.0


From 17543cfdc3e35f833799b4658ba011dd250860e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 21/93] fix: settlement files of NogamiAndLi2003 and
 SchiffmanAndStein1970 held average pore pressures

---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..8ff8583 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -743,7 +743,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..739f022 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -419,7 +419,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 1cfe389f3dece5236cc7d4358928702ebfcab2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 22/93] fix: next_output_stem used the prefix as a regular
 expression, so existing output was not seen

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 13e37ea..85d1d59 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1797,7 +1797,7 @@ def next_output_stem(prefix, path=None, start=1, inc=1, zfill=3,
         cwd = path
 
 
-    pattern = re.compile(prefix + "(?P<x>\d+).*")
+    pattern = re.compile(re.escape(prefix) + r"(?P<x>\d+).*")
 
     nums = []
     for nm in os.listdir(cwd):
-- 
2.43.0


From dc46f130c74e080faceb9d820429b482f60f53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 23/93] fix: a single figure could not be saved

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 85d1d59..fa9142b 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1476,7 +1476,7 @@ class InputFileLoaderCheckerSaver(object):
 #        create_directory = getattr(self, 'create_directory', True)
 
 
-        for i,fig in enumerate(self._figures):
+        for i,fig in enumerate(figures):
             if len(fig.get_label()) > 0:
                 figname = fig.get_label()
             else:
-- 
2.43.0


From 45e416b0ad0d43c8f48b1318113bf6ac63eaff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 24/93] fix: save_grid_data_to_file emptied the data dicts so
 they could not be saved again, and could not create nested folders

---
 geotecha/inputoutput/inputoutput.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index fa9142b..7e2bce2 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1930,7 +1930,7 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
     if directory is None:
         directory = os.path.curdir
     if not os.path.isdir(directory):
-        os.mkdir(directory)
+        os.makedirs(directory)
 
 
     if create_directory:
@@ -1942,13 +1942,14 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
 
 
     for d in data_dicts:
+        d = dict(d) # leave the caller's dict alone
         data = d.pop('data', None)
         name = d.pop('name',"")
         row_labels = d.pop('row_labels', None)
         row_labels_label = d.pop('row_labels_label', 'item')
         column_labels = d.pop('column_labels', None)
         header = d.pop('header', None)
-        df_kwargs = d.pop('df_kwargs',{})
+        df_kwargs = dict(d.pop('df_kwargs',{}))
 
         if data is None:
             continue
-- 
2.43.0


From 141c95b2da7e395fee927f2d5b6be62142681693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 25/93] fix: running an analysis twice overwrote the files of
 the first run although overwrite was False

---
 geotecha/consolidation/nogamiandli2003.py       | 1 +
 geotecha/consolidation/schiffmanandstein1970.py | 1 +
 geotecha/speccon/speccon1d.py                   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 8ff8583..73a9c6d 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -678,6 +678,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
 
         self.check_input_attributes()
+        self._file_stem = None # each run has its own output
         self.make_output()
 
         if getattr(self, 'save_data_to_file', False):
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 739f022..6f05e0e 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -359,6 +359,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         """make_output, produce files and plots"""
 
 #        self.check_input_attributes()
+        self._file_stem = None # each run has its own output
         self.make_output()
 
         if getattr(self, 'save_data_to_file', False):
diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 9cf48ea..084db90 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -59,6 +59,7 @@ class Speccon1d(inputoutput.InputFileLoaderCheckerSaver):
 
         """
         self.check_input_attributes()
+        self._file_stem = None # each run has its own output
         self.make_time_independent_arrays()
         self.make_time_dependent_arrays()
         self.make_output()
-- 
2.43.0


From 3c2d2ec8c502820c3a1dfa8478522a91828e4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 26/93] fix: plots failed with current matplotlib
 (add_subplot('111'), Legend.draggable, plt.AutoLocator)

---
 geotecha/beam_on_foundation/dingetal2012.py   |   4 +-
 geotecha/beam_on_foundation/specbeam.py       | 116 +++++++++---------
 geotecha/consolidation/dengetal2013and2014.py |   8 +-
 geotecha/consolidation/luetal2010.py          |   2 +-
 geotecha/consolidation/nogamiandli2003.py     |   2 +-
 .../consolidation/schiffmanandstein1970.py    |   2 +-
 geotecha/consolidation/shanetal2012.py        |   6 +-
 geotecha/consolidation/xieandleo2004.py       |  10 +-
 geotecha/consolidation/zhuandyin2012.py       |   6 +-
 geotecha/constitutive_models/swcc.py          |   4 +-
 .../constitutive_models/void_ratio_stress.py  |   2 +-
 geotecha/mathematics/hankel.py                |   2 +-
 geotecha/plotting/one_d.py                    |   9 +-
 .../speccon/speccon1d_unsat_interactive.py    |  12 +-
 14 files changed, 93 insertions(+), 92 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 09a7b20..b0cce9d 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -432,7 +432,7 @@ def dingetal_figure_8():
         f.write(ftime + os.linesep)                
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -481,7 +481,7 @@ def dingetal_figure_8():
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
         
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
           
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..f94507d 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1256,7 +1256,7 @@ class SpecBeam(object):
             ax.set_ylabel("w")
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         return ax
@@ -1842,7 +1842,7 @@ class MovingPointLoads(object):
         ax.set_ylabel("magnitude")
         leg = ax.legend(title ="$i,\\omega,\\phi$",
                         labelspacing=0)
-        leg.draggable(0)
+        leg.set_draggable(False)
 
         return ax
 
@@ -2298,7 +2298,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
         f.write(ftime + os.linesep)
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2353,7 +2353,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -2527,7 +2527,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
 
 
         fig = plt.figure(figsize=(10,6))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2544,7 +2544,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
                 color='red', marker='s', ms=4, ls=':')
 
         leg = ax.legend(loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
 
         plt.show()
 
@@ -2810,7 +2810,7 @@ def FIGURE_verify_against_DingEtAl2012_fig8(v_nterms=(50,75,150,200), saveas=Non
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in v_nterms:
@@ -2909,7 +2909,7 @@ def FIGURE_verify_against_DingEtAl2012_fig8(v_nterms=(50,75,150,200), saveas=Non
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -2932,7 +2932,7 @@ def FIGURE_convergence_step_change(v_nterms=(50,75,150,200),saveas=None):
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in v_nterms:
@@ -3022,7 +3022,7 @@ def FIGURE_convergence_step_change(v_nterms=(50,75,150,200),saveas=None):
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -3045,7 +3045,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in velocities_norm:
@@ -3154,7 +3154,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3163,7 +3163,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -3194,7 +3194,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         if alphas is None:
             alphas = np.linspace(1e-5, 3, 100)
@@ -3367,7 +3367,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3400,7 +3400,7 @@ def FIGURE_DAF_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100,force
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         alphas = np.linspace(1e-5, 3, 10)
@@ -3519,7 +3519,7 @@ def FIGURE_DAF_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100,force
 #                        handlelength=2,
 #                        fontsize=8
 #                        )
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3553,10 +3553,10 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         alphas = [0.0001, 0.4, 0.9]
         t_lengths = np.linspace(0,25.0,6)
@@ -3703,7 +3703,7 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3735,13 +3735,13 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -3883,7 +3883,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -3910,7 +3910,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3944,13 +3944,13 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -4092,7 +4092,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4119,7 +4119,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4155,13 +4155,13 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -4320,7 +4320,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4347,7 +4347,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4498,7 +4498,7 @@ def esveld_fig6p18():
             DAF[i] = mx
         ax.plot(alpha, DAF, label="$\\beta=" + str(bet) + "$")
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     ax.set_ylim([0,4])
     ax.set_xlim([0,3])
     ax.grid()
@@ -6750,12 +6750,12 @@ def case_study_PaixaoEtAl2014(
 
 
         fig2 = plt.figure(figsize=(8,8))
-        ax3 = fig2.add_subplot("111")
+        ax3 = fig2.add_subplot(111)
         #fig2 = plt.figure(figsize=(3.54,3.54))
-        #ax2 = fig2.add_subplot("111")
+        #ax2 = fig2.add_subplot(111)
 
         #fig3 = plt.figure(figsize=(3.54,3.54))
-        #ax3 = fig3.add_subplot("111")
+        #ax3 = fig3.add_subplot(111)
 
 
         #t_lengths = np.linspace(25,0,6)
@@ -7024,13 +7024,13 @@ def case_study_PaixaoEtAl2014(
 #                        handlelength=2,
 #                        fontsize=8
 #                        )
-#        leg.draggable()
+#        leg.set_draggable(True)
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
         ax.set_xlim(50, -5)
         leg = ax.legend(fontsize=8,
                         loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
         fig.subplots_adjust(top=0.95, bottom=0.13, left=0.19, right=0.9)
         ####################
         #Kplot
@@ -7048,12 +7048,12 @@ def case_study_PaixaoEtAl2014(
 
             leg = axs[i].legend(fontsize=8,
                     loc='lower left')
-            leg.draggable()
+            leg.set_draggable(True)
 
         leg = ax2.legend(fontsize=8,
                         loc='upper left',
                         numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
         #displacemetn vs tiem at points plot
         ###################
@@ -7068,7 +7068,7 @@ def case_study_PaixaoEtAl2014(
                         handlelength=2,
                         fontsize=8
                         )
-#        leg.draggable()
+#        leg.set_draggable(True)
         ax3.xaxis.labelpad = -1
         ax3.yaxis.labelpad = 0
 
@@ -7340,7 +7340,7 @@ def transition_DAF1_at_specific_alp(saveas=None,
         elapsed_time = (end_time1 - start_time1); print("Run time={}".format(str(timedelta(seconds=elapsed_time))))
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     leg = ax.legend(
 #                    title="$\\beta$",
 #                    loc="upper center",
@@ -7645,7 +7645,7 @@ def transition_zones1(
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5 = plt.figure(figsize=(3.54, 3.54))
-    ax5 = fig5.add_subplot('111')
+    ax5 = fig5.add_subplot(111)
 
 
     pdict = OrderedDict(
@@ -7937,7 +7937,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -7960,7 +7960,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                     loc="center left",)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$Time (s)$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -7972,7 +7972,7 @@ def transition_zones1(
                 numpoints=1,
                 loc="lower right",)
 
-    leg.draggable()
+    leg.set_draggable(True)
     fig5.subplots_adjust(top=0.95, bottom=0.13, left=0.15, right=0.95)
     if not saveas is None:
 
@@ -8099,7 +8099,7 @@ def transition_zones2(animateme=False,
 
 
     fig6 = plt.figure(figsize=(3.54,3.54))
-    ax6 = fig6.add_subplot('111')
+    ax6 = fig6.add_subplot(111)
 
     pdict = OrderedDict(
                 E = 6.998*1e9, #Pa
@@ -8407,7 +8407,7 @@ def transition_zones2(animateme=False,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -8427,7 +8427,7 @@ def transition_zones2(animateme=False,
                     handlelength=2,
                     fontsize=8,
                     numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$time$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -8438,7 +8438,7 @@ def transition_zones2(animateme=False,
                 fontsize=8,
                 numpoints=1)
 
-    leg.draggable()
+    leg.set_draggable(True)
 
 
     for i, alp in enumerate(alphas):
@@ -8501,7 +8501,7 @@ def transition_zones2(animateme=False,
                      handletextpad=0.1,
                      borderpad=0.2,
                      columnspacing=0.2)
-    leg.draggable()
+    leg.set_draggable(True)
 #        for k, Lt_Lcs in enumerate(Lt_Lcs):
     fig6.subplots_adjust(top=0.98, bottom=0.15, left=0.18, right=0.98)
 
@@ -8817,7 +8817,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax.xaxis.labelpad = -1
     ax.yaxis.labelpad = 0
@@ -8975,7 +8975,7 @@ def specbeam_vs_analytical_single_static_load():
     ax.set_title('Single static load at beam midpoint')
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
 
     mytimer.finish(0)
     plt.show()
@@ -9550,7 +9550,7 @@ if __name__ == "__main__":
             f.write(ftime + os.linesep)
 
             fig=plt.figure()
-            ax = fig.add_subplot("111")
+            ax = fig.add_subplot(111)
             ax.set_xlabel("time, s")
             ax.set_ylabel("w, m")
             ax.set_xlim(3.5, 4.5)
@@ -9600,7 +9600,7 @@ if __name__ == "__main__":
                 f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
             leg = ax.legend()
-            leg.draggable()
+            leg.set_draggable(True)
 
             end_time0 = time.time()
             elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 0f5107c..089da9d 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -371,7 +371,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -456,7 +456,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -519,7 +519,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -671,7 +671,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None', markersize=7)
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index ec9215e..6515481 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -238,7 +238,7 @@ if __name__ == '__main__':
         ax.set_xlim(0,1)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
     fig=plt.figure()
     ax = fig.add_subplot(1,1,1)
diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 73a9c6d..4719014 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -1013,7 +1013,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         """
 
         fig = plt.figure(figsize=(40, 8))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         for i in range(self.nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 6f05e0e..04634e1 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -535,7 +535,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             y[i]=self._characteristic_eqn(x[i])
 #        plt.gcf().clear()
         fig = plt.figure(figsize=(30,5))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x ,y,'-', marker='.', markersize=3)
         ax.plot(self._beta0, np.zeros_like(self._beta0),'ro', markersize=6)
         ax.set_ylabel('det(A)')
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 9733f67..6d53f06 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -566,12 +566,12 @@ if __name__ == '__main__':
         ax.grid()
         ax.set_title(title)
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
 
     fig = plt.figure()
-    ax=fig.add_subplot('111')
+    ax=fig.add_subplot(111)
     ax.plot(t, porw[len(z)//2], 'bs', ls='-', ms=3,label='water')
     ax.plot(t, pora[len(z)//2], 'g*', ls='-', ms=3,label='air')
     ax.set_xlabel('Time')
@@ -581,7 +581,7 @@ if __name__ == '__main__':
     ax.grid()
     ax.set_title(title)
     leg = plt.legend(loc=3 )
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index b6faeec..09e72c3 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -978,7 +978,7 @@ class XieAndLeo2004(object):
         ax.set_xscale('log')
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         #u vs depth
         ax = fig.add_subplot(2,4,2)
@@ -1005,7 +1005,7 @@ class XieAndLeo2004(object):
                          ncol=len(t))
 
 
-        leg.draggable()
+        leg.set_draggable(True)
 
         #total pore pressure vs depth
         ax = fig.add_subplot(2,4,6)
@@ -1191,7 +1191,7 @@ def xie_and_leo_2004_figure_4(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1248,7 +1248,7 @@ def xie_and_leo_2004_figure_5(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1344,7 +1344,7 @@ def xie_and_leo_2004_figure_6(ax=None):
 
 
     leg = ax.legend(lines, labels,loc=1, labelspacing=0.0, fontsize=12)
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index 04f2b37..c379670 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -170,7 +170,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = Zmu(x, nu, nu, b)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -185,7 +185,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = drn1root(x, nu, nu, b, p, n)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -346,7 +346,7 @@ if __name__ == '__main__':
 #        print('kv', repr(kv))
 #        print('mv', repr(mv))
         fig=plt.figure()
-        ax= fig.add_subplot('111')
+        ax= fig.add_subplot(111)
         ax.plot(kv, x, label='kv', ls='-')
         ax.plot(mv, x, label='mv', ls='-')
         ax.legend()
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index ed8d9d6..56ab512 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -223,7 +223,7 @@ class SWCC_FredlundAndXing1994(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
@@ -595,7 +595,7 @@ class SWCC_PhamAndFredlund2008(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..413b1d3 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -2083,5 +2083,5 @@ if __name__ == '__main__':
         plt.plot(estress, e, label='step', marker='o', ms=2)
         plt.gca().set_xscale('log')
         leg = plt.gca().legend()
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
\ No newline at end of file
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 63f36f6..68c3de5 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -239,7 +239,7 @@ class HankelTransform(object):
         y = integrand(x, *self.args)
 
         fig = plt.figure()
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x,y, '-')
         ax.plot(zeros, np.zeros_like(zeros), 'ro', ms=5)
 #        ax.plot(x, x*jn(self.order, r*x), label='rJn(r*s)')
diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..ad77c6d 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -24,6 +24,7 @@ from __future__ import division, print_function
 
 import numpy as np
 import matplotlib as mpl
+import matplotlib.ticker
 import matplotlib.pyplot as plt
 import matplotlib.gridspec as gridspec
 import brewer2mpl
@@ -1443,7 +1444,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1587,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1710,7 +1711,7 @@ def plot_single_material_vs_depth(z_x, xlabels, H = 1.0, RLzero=None,
         ax1[-1].xaxis.tick_top()
 
         ax1[-1].xaxis.set_major_locator( plt.MaxNLocator(4))
-        ax1[-1].xaxis.set_minor_locator( plt.AutoLocator())
+        ax1[-1].xaxis.set_minor_locator(mpl.ticker.AutoLocator())
         cur_xlim = ax1[-1].get_xlim()
 
         ax1[-1].set_xlim([0, cur_xlim[1]])
@@ -1962,7 +1963,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index 141d476..1459f87 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -211,7 +211,7 @@ figure_ext='.png'
     if 1:
         #only use this if there is one z interval
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.set[0], 'ro', ls='-', label='combined')
         ax.plot(a.tvals, a.setw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.seta[0], 'g*', ls='-', label='air')
@@ -222,10 +222,10 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.avpw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.avpa[0], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
@@ -234,11 +234,11 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.porw[len(a.ppress_z)//2], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.pora[len(a.ppress_z)//2], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
@@ -247,7 +247,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
 
 
-- 
2.43.0


From 13f11288d5b5db646290c6cc163123a38119034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 27/93] fix: pleasing_defaults, and with it every spectral
 analysis plot, failed with current matplotlib (axes.color_cycle)

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index ad77c6d..7c0e08f 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -791,7 +791,7 @@ def pleasing_defaults():
     # Another ColorBrewer scale. This one has nice "traditional" colors like
     # reds and blues
     set1 = brewer2mpl.get_map('Set1', 'qualitative', 9).mpl_colors
-    mpl.rcParams['axes.color_cycle'] = set2
+    mpl.rcParams['axes.prop_cycle'] = mpl.rcsetup.cycler(color=set2)
 
     # Set some commonly used colors
     almost_black = '#262626'
-- 
2.43.0


From 5211ca1aa52906e70cdfe68851f3d92a4d3b27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 28/93] fix: scanning a directory skipped input files named
 inputoutput.py and processed the running script

---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 7e2bce2..384c3e3 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -2163,7 +2163,8 @@ class GenericInputFileArgParser(object):
                     'valid directory: {1}'.format(i, d))
 
                 [filenames.append(os.path.join(os.path.abspath(d), v)) for v in
-                    fnmatch.filter(os.listdir(d), ns.pattern) if v!=os.path.basename(__file__)]
+                    fnmatch.filter(os.listdir(d), ns.pattern)
+                    if os.path.join(os.path.abspath(d), v) != os.path.abspath(sys.argv[0])]
 
             if len(filenames)==0:
                 raise IOError("no files that match '{0}' can be found in the "
-- 
2.43.0


From cd333188c0464e9cdfb49fdd310e785392d3beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 29/93] fix: hms_string gave 60.00 seconds

---
 geotecha/inputoutput/inputoutput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 384c3e3..7d520b8 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1980,6 +1980,7 @@ def hms_string(sec_elapsed):
 
     """
 
+    sec_elapsed = round(sec_elapsed, 2) # else 59.999 would give '60.00'
     h = int(sec_elapsed / (60 * 60))
     m = int((sec_elapsed % (60 * 60)) / 60)
     s = sec_elapsed % 60.
-- 
2.43.0


From 9e6bc171719453dc4d3a18391bf2da3a4e8d35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 30/93] fix: large results timed out although finished,
 lingering or dead workers and unpicklable outcomes gave assertion errors or
 blocked, SystemExit lost, keyword arguments called func or self failed,
 workers ignoring SIGTERM survived

---
 geotecha/inputoutput/timeout.py | 59 +++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 1d20f5e..3f70bae 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -69,7 +69,11 @@ idea though.
 
 
 
+import functools
 import multiprocessing
+import multiprocessing.connection
+import os
+import signal
 import time
 import logging
 #logger = multiprocessing.log_to_stderr()
@@ -82,38 +86,67 @@ class TimeoutException(Exception):
 
 class RunableProcessing(multiprocessing.Process):
     def __init__(self, func, *args, **kwargs):
-        self.queue = multiprocessing.Queue(maxsize=1)
+        self._receiver, self._sender = multiprocessing.Pipe(duplex=False)
         args = (func,) + args
         multiprocessing.Process.__init__(self, target=self.run_func, args=args, kwargs=kwargs)
 
+    def start(self):
+        multiprocessing.Process.start(self)
+        # only the worker holds the sending end now
+        self._sender.close()
+
     def run_func(self, func, *args, **kwargs):
         try:
-            result = func(*args, **kwargs)
-            self.queue.put((True, result))
-        except Exception as e:
-            self.queue.put((False, e))
+            outcome = (True, func(*args, **kwargs))
+        except BaseException as e:
+            outcome = (False, e)
+        try:
+            self._sender.send(outcome)
+        except (EnvironmentError):
+            pass # nobody is waiting any more
+        except Exception as e: # the outcome cannot be sent, tell why
+            self._sender.send((False, e))
+
+    def wait(self, seconds):
+        """Wait for an outcome, or the end of the worker"""
+        return bool(multiprocessing.connection.wait(
+                    [self._receiver, self.sentinel], seconds))
+
+    def kill_worker(self):
+        self.terminate()
+        self.join(1)
+        if self.is_alive():
+            os.kill(self.pid, signal.SIGKILL)
+            self.join()
 
     def done(self):
-        return self.queue.full()
+        return self._receiver.poll()
 
     def result(self):
-        return self.queue.get()
+        return self._receiver.recv()
 
 
 def timeout(seconds, force_kill=True):
     def wrapper(function):
         def inner(*args, **kwargs):
             now = time.time()
-            proc = RunableProcessing(function, *args, **kwargs)
+            proc = RunableProcessing(functools.partial(function, *args, **kwargs))
             proc.start()
-            proc.join(seconds)
-            if proc.is_alive():
+            if not proc.wait(seconds):
                 if force_kill:
-                    proc.terminate()
+                    proc.kill_worker()
                 runtime = int(time.time() - now)
                 raise TimeoutException('timed out after {0} seconds'.format(runtime))
-            assert proc.done()
-            success, result = proc.result()
+            try:
+                if not proc.done():
+                    proc.join() # it is ending
+                if not proc.done():
+                    raise EOFError
+                success, result = proc.result()
+            except EOFError:
+                proc.join()
+                raise RuntimeError('worker ended without an outcome, '
+                                   'exit code {0}'.format(proc.exitcode))
             if success:
                 return result
             else:
-- 
2.43.0


From 33d0fcb50907c91432ef3f846e88555211100ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 31/93] fix: integrals of steps failed for integer load times
 or depths (Integers to negative integer powers)

---
 geotecha/speccon/integrals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index b590d99..610348b 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -2612,8 +2612,8 @@ def dim1sin_D_aDb_linear(m, at, ab, bt, bb, zt, zb, implementation='vectorized')
     ab = np.asarray(ab)
     bt = np.asarray(bt)
     bb = np.asarray(bb)
-    zt = np.asarray(zt)
-    zb = np.asarray(zb)
+    zt = np.asarray(zt, dtype=float)
+    zb = np.asarray(zb, dtype=float)
 
     neig = len(m)
 
@@ -3027,7 +3027,7 @@ def EDload_linear(loadtim, loadmag, eigs, tvals, dT=1.0, implementation='vectori
         is not differentiated with repect to time.
 
     """
-    loadtim = np.asarray(loadtim)
+    loadtim = np.asarray(loadtim, dtype=float)
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
-- 
2.43.0


From 23e6800c9be6e75a4e6701a9b9eae5b4e34abbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 32/93] fix: well pore pressure at the time of a step in a
 boundary pressure used the value before the step

---
 geotecha/speccon/speccon1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 084db90..8179f89 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -2135,7 +2135,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for top_vs_t, om_ph in zip(top_vs_time, top_omega_phase):
-                E = pwise.pinterp_x_y(top_vs_t, tvals)
+                E = pwise.pinterp_x_y(top_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
@@ -2149,7 +2149,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for bot_vs_t, om_ph in zip(bot_vs_time, bot_omega_phase):
-                E = pwise.pinterp_x_y(bot_vs_t, tvals)
+                E = pwise.pinterp_x_y(bot_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
-- 
2.43.0


From 21aa55251f3978d796b6382945ad685251ef7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 33/93] fix: repeated eigenvalues came out complex and the
 analysis failed with a casting error

---
 geotecha/speccon/speccon1d_vr.py  | 5 +++++
 geotecha/speccon/speccon1d_vrw.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 207475b..d4f6e64 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -26,6 +26,7 @@ from __future__ import division, print_function
 import geotecha.plotting.one_d #import MarkersDashesColors as MarkersDashesColors
 import time
 import numpy as np
+import scipy.linalg
 import matplotlib
 import matplotlib.pyplot as plt
 
@@ -812,6 +813,10 @@ class Speccon1dVR(speccon1d.Speccon1d):
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
         self.eigs, self.v = np.linalg.eig(Igam_psi)
+        if np.iscomplexobj(self.eigs):
+            # rounding splits repeated eigenvalues into complex pairs, the
+            # matrices are symmetric so the eigenvalues are real
+            self.eigs, self.v = scipy.linalg.eigh(self.psi, self.gam)
 
         self.Igamv = np.linalg.inv(np.dot(self.gam, self.v))
         return
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 621c8e8..75ab367 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -25,6 +25,7 @@ from __future__ import division, print_function
 import geotecha.plotting.one_d #import MarkersDashesColors as MarkersDashesColors
 import time
 import numpy as np
+import scipy.linalg
 import matplotlib
 import matplotlib.pyplot as plt
 
@@ -856,6 +857,10 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
         self.eigs, self.v = np.linalg.eig(Igam_psi)
+        if np.iscomplexobj(self.eigs):
+            # rounding splits repeated eigenvalues into complex pairs, the
+            # matrices are symmetric so the eigenvalues are real
+            self.eigs, self.v = scipy.linalg.eigh(self.psi, self.gam)
 
         self.v = np.asarray(self.v)
         self.Igamv = np.linalg.inv(np.dot(self.gam, self.v))
-- 
2.43.0


From c60bc3d478ed8960b6fdc32abe1d388d0351e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 34/93] fix: absolute cutoff of 1e-8 on gam and psi discarded
 small but meaningful properties

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 geotecha/speccon/speccon1d_vr.py    | 4 ++--
 geotecha/speccon/speccon1d_vrc.py   | 4 ++--
 geotecha/speccon/speccon1d_vrw.py   | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..11fa4ba 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -821,7 +821,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                                                   + gam_sn)
 
 
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        self.gam[np.abs(self.gam)<1e-8 * min(1.0, np.max(np.abs(self.gam)))] = 0.0
 
 
         return
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index d4f6e64..0c46cd9 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -747,7 +747,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
             self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam) < 1e-8] = 0.0
+        self.gam[np.abs(self.gam) < 1e-8 * min(1.0, np.max(np.abs(self.gam)))] = 0.0
         return
 
     def _make_psi(self):
@@ -785,7 +785,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
                 np.sin(self.m[:, np.newaxis] * zfixed) *
                 np.sin(self.m[np.newaxis, :] * zfixed))
 
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        self.psi[np.abs(self.psi) < 1e-8 * min(1.0, np.max(np.abs(self.psi)))]=0.0
         return
 
     def _make_eigs_and_v(self):
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..8023d44 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -797,7 +797,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
                         self.m, self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        self.gam[np.abs(self.gam)<1e-8 * min(1.0, np.max(np.abs(self.gam)))] = 0.0
 
         return
 
@@ -896,7 +896,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        self.psi[np.abs(self.psi) < 1e-8] = 0.0
+        self.psi[np.abs(self.psi) < 1e-8 * min(1.0, np.max(np.abs(self.psi)))] = 0.0
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
         self.eigs, self.v = np.linalg.eig(Igam_psi)
         self.v = np.asarray(self.v)
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 75ab367..530e9a9 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -776,7 +776,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
 
         self.gam = integ.pdim1sin_af_linear(self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8]=0.0
+        self.gam[np.abs(self.gam)<1e-8 * min(1.0, np.max(np.abs(self.gam)))]=0.0
         return
 
     def _make_psi_w(self):
@@ -852,7 +852,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         self.Ipsi_w = np.linalg.inv(self.psi_w)
         self.psi_s_Ipsi_w = np.dot(self.psi_s, self.Ipsi_w)
         self.psi -= np.dot(self.psi_s_Ipsi_w, self.psi_s)
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        self.psi[np.abs(self.psi) < 1e-8 * min(1.0, np.max(np.abs(self.psi)))]=0.0
 
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
-- 
2.43.0


From 7812501c6b5b4fab5d6a81dde8453d2b41593a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 35/93] fix: unsaturated air settlement: the pore water part
 was subtracted from the water settlement

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 11fa4ba..a3c9a45 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1244,7 +1244,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                      self.atop_vs_time, abot_vs_time,
                      self.atop_omega_phase, self.abot_omega_phase)
         # seta uw part
-        self.setw -= speccon1d.dim1sin_integrate_af(self.m,
+        self.seta -= speccon1d.dim1sin_integrate_af(self.m,
                      self.settlement_z_pairs,
                      self.tvals[self.settlement_z_pairs_tval_indexes],
                      self.v_E_Igamv_the[:self.neig ,self.settlement_z_pairs_tval_indexes],
-- 
2.43.0


From e0aa653343dfb27314d1c12fa227d65c084705ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 36/93] fix: unsaturated analysis ignored the boundary
 pressures when all four were given, air diffusion of boundary pressures
 depended on dTw

---
 geotecha/speccon/speccon1d_unsat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index a3c9a45..040a331 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -917,7 +917,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         if sum(v is None for v in[self.atop_vs_time,
                                   self.abot_vs_time,
                                   self.wtop_vs_time,
-                                  self.wbot_vs_time])!=0:
+                                  self.wbot_vs_time])!=4:
             self._make_E_Igamv_the_BC()
             self.E_Igamv_the += self.E_Igamv_the_BC
 
@@ -1107,7 +1107,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                 theta_zero_indexes=topzero,
                 implementation=self.implementation))/ (self.mvref * self.ua_)
         #dTa * d/dZ(Da * du/dZ) component
-        if self.dTw!=0:
+        if self.dTa!=0:
             self.E_Igamv_the_BC -= (self.dTa *
                 speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(self.drn,
                     self.m_block, self.eigs, self.tvals, self.Igamv, self.Da,
-- 
2.43.0


From 08c304b64497c06e341361830002940deab45ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 37/93] fix: stone column soil and column pore pressures were
 wrong with boundary pressures (sign, kvc term, dT)

---
 geotecha/speccon/speccon1d_vrc.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 8023d44..7297e1e 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1035,7 +1035,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                 self.E_Igamv_the_BC += (self.dTvc *
                     speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(
                         self.drn, self.m, self.eigs, self.tvals,
-                        self.Igamv.dot(np.identity(self.neig, dtype=float)-G),
+                        self.Igamv.dot(G),
                         self.kvc, self.top_vs_time,
                         bot_vs_time, self.top_omega_phase,
                         self.bot_omega_phase, self.dT,
@@ -1077,20 +1077,20 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.pors += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.porc = speccon1d.dim1sin_f(self.m, self.ppress_z,
@@ -1099,20 +1099,20 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.porc += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
         return
 
 
@@ -1150,20 +1150,20 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avps += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.avpc = speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
@@ -1172,20 +1172,20 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avpc += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
 
         return
-- 
2.43.0


From 1f7f8727d0bf2ee8fd8c681b9a700c0b81fd6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 38/93] fix: well pore pressure ignored H for a bottom gradient
 and depended on dT

---
 geotecha/speccon/speccon1d_vrw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 530e9a9..56329a5 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1099,7 +1099,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                             self.v_E_Igamv_the[:, self.ppress_z_tval_indexes])
         self.porwell = speccon1d.dim1sin_f(self.m, self.ppress_z, tvals,
                                v_E_Igamv_the, self.drn,
-                               self.top_vs_time, self.bot_vs_time,
+                               self.top_vs_time, bot_vs_time,
                                self.top_omega_phase, self.bot_omega_phase)
 
 
@@ -1111,7 +1111,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         #TODO: not entirely sure about dTw.  I think it is needed for the
         # theta cv part.
-        self.porwell += self.dTw * speccon1d.dim1sin_f(self.m, self.ppress_z,
+        self.porwell += self.dTw / self.dT * speccon1d.dim1sin_f(self.m, self.ppress_z,
                                             tvals, v_E_Igamv_the, self.drn)
         return
 
-- 
2.43.0


From 0d2e77ba3add2b7b75139f983f69e0c9deb6fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 39/93] fix: time limit counted from after the worker started,
 a worker ending at the limit was accepted (amends 9e6bc17)

---
 geotecha/inputoutput/timeout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 3f70bae..2d6dcf2 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -132,7 +132,10 @@ def timeout(seconds, force_kill=True):
             now = time.time()
             proc = RunableProcessing(functools.partial(function, *args, **kwargs))
             proc.start()
-            if not proc.wait(seconds):
+            remaining = seconds
+            if not seconds is None: # the time limit includes starting
+                remaining = max(0, seconds - (time.time() - now))
+            if not proc.wait(remaining):
                 if force_kill:
                     proc.kill_worker()
                 runtime = int(time.time() - now)
-- 
2.43.0


From 4f93ba8cc32046ea0b6955f2423cbf4326c0eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 40/93] fix: Schiffman and Stein solution failed or was wrong
 for impeding boundaries, impervious tops, thin profiles and loads that step

---
 .../consolidation/schiffmanandstein1970.py    | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 04634e1..f5a5600 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -246,10 +246,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.atop = 1
             self.btop = 0
         elif self.bctop == 3:
-            self.atop = h[0]
-            self.btop = ktop * h[0] / (kv[0] * htop)
+            self.atop = self.h[0]
+            self.btop = self.ktop * self.h[0] / (self.kv[0] * self.htop)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.foramt(self.bctop))
+            raise ValueError('bctop must be 0, 1, or 3. you have bctop = {}'.format(self.bctop))
 
         if self.bcbot == 0:
             self.abot = 0
@@ -258,10 +258,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.abot = 1
             self.bbot = 0
         elif self.bcbot == 3:
-            self.abot = h[-1]
-            self.bbot = kbot * h[-1] / (kv[-1] * hbot)
+            self.abot = self.h[-1]
+            self.bbot = self.kbot * self.h[-1] / (self.kv[-1] * self.hbot)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
+            raise ValueError('bcbot must be 0, 1, or 3. you have bcbot = {}'.format(self.bcbot))
 
         self.BC = np.zeros((2 * self.nlayers, 2* self.nlayers), dtype=float)
 
@@ -446,7 +446,9 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         H = self.zlayer[-1]
 
-        x0 = 0.1 / H**2
+        # depth in terms of beta0 (beta[i] * h[i] summed over the layers)
+        He = np.sum(self.h * np.sqrt(self.cv[0] / self.cv))
+        x0 = 0.1 / max(H**2, He)
         self._beta0 = np.empty(self.n, dtype=float)
 
         self._beta0[:] = find_n_roots(self._characteristic_eqn, n=self.n,
@@ -552,18 +554,17 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         self._beta = np.zeros((self.n, self.nlayers), dtype=float)
 
-        self._Cm[:, -1] = 1.0
         for i, beta in enumerate(self._beta0):
             self._beta[i, :] = self._make_BC(beta)
             self.BC[np.abs(self.BC)<1e-10]=0
             if self._debug and i==0:
                 print('BC for beta0')
                 print(self.BC)
-            b = -self.BC[:-1, -1]
-            a = self.BC[:-1, :-1]
-            x = np.linalg.solve(a, b)
+            # null space of BC; scaling with Cm=1 in the last layer is not
+            # possible in general, e.g. Cm=0 for an impervious top
+            x = np.linalg.svd(self.BC)[2][-1]
             self._Bm[i, :] = x[::2]
-            self._Cm[i, :-1] = x[1::2]
+            self._Cm[i, :] = x[1::2]
 
     def _Tm_integrations(self):
         """symbolic integration of the Tm coefficient
@@ -728,7 +729,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         for j, t in enumerate(self.t):
             settle=0
             avp = 0
-            q = pwise.pinterp_x_y(self.surcharge_vs_time, t)[0]
+            q = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)[0]
             settle = np.sum(self.mv * self.h) * q
 
 
-- 
2.43.0


From 25273cfca8bc73305cf11ac5ee9f06ef27c14a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 41/93] fix: Nogami and Li: settlement at a load step used the
 load before the step

---
 geotecha/consolidation/nogamiandli2003.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 4719014..e81ba2f 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -984,7 +984,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     alp = self._alp[i, j]
                     Tm = self._calc_Tm(alp, t)
 
-                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t)
+                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)
                     for layer, h in enumerate(self.h):
 #                        layer = z_in_layer[k]
 #                        zlay = z - (self.zlayer[layer] - self.h[layer])
-- 
2.43.0


From a95a3aa0ca2cc63da0d7a449abf5acbdd3d08c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 42/93] fix: Tang and Onitsuka: load steps, scalar and integer
 depths and times gave wrong or no results

---
 geotecha/consolidation/tangandonitsuka2000.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index d478aae..51e99c8 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -161,13 +161,13 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
 
-    z= np.asarray(z)
-    t = np.asarray(t)
+    z= np.atleast_1d(np.asarray(z, dtype=float))
+    t = np.atleast_1d(t)
 
     if tpor is None:
         tpor = t
     else:
-        tpor = np.asarray(tpor)
+        tpor = np.atleast_1d(tpor)
 
 
 
@@ -233,7 +233,7 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
     #settle
-    load = pwise.pinterp_x_y(surcharge_vs_time, t)
+    load = pwise.pinterp_x_y(surcharge_vs_time, t, choose_max=True)
     settle = H * mv * (load - avp)
 
     return por, avp, settle
-- 
2.43.0


From 065c0a7b7e1704808436fcc37e8e92de8f02cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 43/93] fix: Zhu and Yin: q=-1 divided by zero; stray print

---
 geotecha/consolidation/zhuandyin2012.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index c379670..ae6f000 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -261,7 +261,6 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 
             Cm = numer/denom
         else:
-            print('got here')
             numer = (2 - np.pi * etam * b**(1+nu) * Zmu(etam, 1 + nu, nu, b))**2
             denom = etam**2 * ((b * np.pi * etam * Zmu(etam, 1 + nu, nu, b))**2-4)
 
@@ -275,12 +274,16 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
     doc = np.sum(Cm*Tm,axis=1)
 
     if drn==0:
-        numer = 4*(1+q)
+        numer = 4
 #        numer_settle = 4
     elif drn==1:
-        numer = 16*(1+q)
+        numer = 16
 #        numer_settle = 16
-    denom = (2 - n) * ((1+alpha)**(1 + q) - 1)
+    if 1 + q == 0:
+        mv_integral = math.log(1 + alpha)
+    else:
+        mv_integral = ((1+alpha)**(1 + q) - 1) / (1 + q)
+    denom = (2 - n) * mv_integral
 #    denom_settle = (2 - n)
 
 #    settle = mv0*ui*(1 - (H/alpha*numer_settle / denom_settle) * doc)
@@ -289,7 +292,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
     doc*= -fr
     doc += 1
 
-    settle = doc * ui* mv0*((1+alpha)**(1 + q) - 1)/(1+q)*H/alpha
+    settle = doc * ui* mv0*mv_integral*H/alpha
 
 #    print(",".join(['{:.3g}']*4).format((1 - p) / (2 - n), nu, t[0], doc[0]))
     return por, doc, settle
-- 
2.43.0


From 671262a643e183e8462557071b46240159204b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 44/93] fix: smear zone resistance and pressure raised or gave
 NaN at coincident parameters (s equal to n, parabolic A equal to B,
 zero-width first segment)

---
 geotecha/consolidation/smear_zones.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 4a80d35..5e4bfa9 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -515,7 +515,7 @@ def mu_linear(n, s, kap):
         raise ValueError('kap must be greater than 0. You have kap = '
                 '{}'.format(', '.join([str(v) for v in np.atleast_1d(kap)])))
 
-    if np.any(s>=n):
+    if np.any(s>n):
         raise ValueError('s must be less than n. You have s = '
                 '{} and n = {}'.format(
                 ', '.join([str(v) for v in np.atleast_1d(s)]),
@@ -745,6 +745,12 @@ def mu_parabolic(n, s, kap):
     mu[ideal] = mu_ideal(n[ideal])
     mu[~ideal] = mu_p(n[~ideal], s[~ideal], kap[~ideal])
 
+    # A==B is a removable singularity; use average of kap values either side
+    A_eq_B = np.isclose(kap - 1, (s - 1)**2 / (2 * s - 1)) & ~ideal
+    dk = 1e-4 * (kap[A_eq_B] - 1)
+    mu[A_eq_B] = (mu_p(n[A_eq_B], s[A_eq_B], kap[A_eq_B] + dk) +
+                  mu_p(n[A_eq_B], s[A_eq_B], kap[A_eq_B] - dk)) / 2
+
 
     if is_array:
         return mu
@@ -2155,7 +2161,11 @@ def u_parabolic(n, s, kap, si, uavg=1, uw=0, muw=0):
     if np.isclose(s, 1) or np.isclose(kap, 1):
         return u_ideal(n, si, uavg, uw, muw)
 
-
+    if np.isclose(kap - 1, (s - 1)**2 / (2 * s - 1)):
+        # A==B is a removable singularity; use average of kap values either side
+        dk = 1e-4 * (kap - 1)
+        return (u_parabolic(n, s, kap + dk, si, uavg, uw, muw) +
+                u_parabolic(n, s, kap - dk, si, uavg, uw, muw)) / 2
 
 
     mu = mu_parabolic(n, s, kap)
@@ -2514,7 +2524,9 @@ def u_piecewise_linear(s, kap, si, uavg=1, uw=0, muw=0, n=None, kap_m=None):
 
 
         #phi
-        if np.isclose(kap[i-1]/kap[i], 1.0):
+        if np.isclose(s[i-1], s[i]):
+            phi = 0
+        elif np.isclose(kap[i-1]/kap[i], 1.0):
             phi = log(si[ii]/s[i-1]) - (si[ii]**2 - s[i-1]**2)/(2 * n**2)
         elif np.isclose(kap[i-1]/kap[i], s[i]/s[i-1]):
             phi = (si[ii]-s[i-1]) * (n**2 - s[i-1]*si[ii]) / (si[ii] * n**2)
-- 
2.43.0


From f088211509b810361e06fef8de15fa3593b3ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 45/93] fix: back calculated spacing could be negative
 (unbracketed root search); more than 21 terms of g with array n failed

---
 geotecha/consolidation/smear_zones.py | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 5e4bfa9..3273f01 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -2735,7 +2735,7 @@ def back_calc_drain_spacing_from_eta(eta, pattern, mu_function, rw, s, kap, muw=
             eta_ = drain_eta(re, mu_function, n, s, kap, muw=muw)
         return eta_ - eta
 
-    from scipy.optimize import fsolve
+    from scipy.optimize import brentq, fsolve
 
 
     if not mu_function in [mu_piecewise_constant, mu_piecewise_linear]:
@@ -2746,10 +2746,27 @@ def back_calc_drain_spacing_from_eta(eta, pattern, mu_function, rw, s, kap, muw=
             raise ValueError('for mu_function={}, you cannot have multiple '
                 'values for kap. kap={}'.format(mu_function.__name__, kap))
 
+    if not 0 < eta < np.inf:
+        raise ValueError('eta must be greater than zero and finite.  You have eta={}'.format(eta))
+
+    def f(sp):
+        sp = np.ravel(sp)[0]
+        return float(np.ravel(calc_eta(sp, eta, rw, s, kap, mu_function, pattern, muw))[0])
+
     x0 = rw * np.max(s) / 0.5 * 2 # this ensures guess is beyond smear zone
-    calc_eta(x0, eta, rw, s, kap, mu_function, pattern, muw )
-    sp = fsolve(calc_eta, x0,
-                args=(eta, rw, s, kap, mu_function, pattern, muw))
+    # eta decreases with spacing, so a bracket of the root is one where eta
+    # is too big at sp1 and too small at sp2.
+    sp1, sp2 = x0, x0
+    while f(sp2) > 0:
+        sp2 *= 2
+    if f(sp1) < 0 and mu_function in [mu_ideal, mu_overlapping_linear]:
+        sp1 = rw / re_from_drain_spacing(1.0, pattern) * (1 + 1e-4)
+    if f(sp1) >= 0:
+        sp = np.atleast_1d(brentq(f, sp1, sp2, xtol=1e-12 * sp1, rtol=1e-12))
+    else:
+        sp = fsolve(f, x0)
+        if abs(f(sp[0])) > 1e-6 * eta:
+            raise ValueError('No drain spacing found for eta={}'.format(eta))
 
     re = re_from_drain_spacing(sp[0], pattern)
     n = re/rw
@@ -2898,7 +2915,7 @@ def _g(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term5 = (r_rw / re_rw)**(2 * j)
             g += term2 / term3 / term4 * term5
@@ -3066,7 +3083,7 @@ def _gbar(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term4a = (2 * j + 3) * nflow - 1
             term5 = (r_rw/re_rw)**(2*j)
-- 
2.43.0


From c6cbb4ae1c12f5acdfccb4c549bf01c0fc888e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 46/93] fix: stress-void ratio laws failed or took the wrong
 slope at or outside the ends of their range (CcCr plotting, piecewise av)

---
 geotecha/constitutive_models/void_ratio_stress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 413b1d3..00d51b2 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -346,7 +346,8 @@ class CcCrSoilModel(OneDimensionalVoidRatioEffectiveStress):
         x = np.linspace(xmin, xmax, npts)
         pstress = kwargs.get('pstress', x)
         i = np.searchsorted(x, pstress)
-        x[i] = pstress
+        if xmin <= np.min(pstress) and np.max(pstress) <= xmax:
+            x[i] = pstress
         y = self.e_from_stress(x, pstress=pstress)
 
         return x, y
@@ -969,7 +970,7 @@ class PwiseLinearSoilModel(OneDimensionalVoidRatioEffectiveStress):
             ea = self.ea[self.siga_slice]
 
         # interval at preconsolidatio stress
-        i = np.searchsorted(siga, max_past)
+        i = np.clip(np.searchsorted(siga, max_past), 1, len(siga) - 1)
         Cc = (ea[i - 1] - ea[i]) / (siga[i] - siga[i - 1])
         # void ratio at preconsolidation pressure
         e = ea[i-1] - Cc * (max_past - siga[i - 1])
-- 
2.43.0


From 1507f9e65714ed31ca2e5cac8e177a70a654976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 47/93] fix: creep model lost accuracy for constant stress,
 altered its own history and gave nan or stale answers after a previous rate
 calculation

---
 .../constitutive_models/void_ratio_stress.py  | 78 ++++++++++---------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 00d51b2..c3487f8 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -25,7 +25,6 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib
 import functools
-from scipy.optimize import fixed_point
 from scipy.integrate import odeint
 import geotecha.piecewise.piecewise_linear_1d as pwise
 
@@ -1521,6 +1520,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             self._es = np.atleast_1d(self._es)
             self._estress = np.atleast_1d(self._estress)
             self._estress[:] = estress0
+            self._igral = 0
 
             return e0, estress0, pstress0, t0
         else:
@@ -1586,7 +1586,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             estress0 = self.estress0
 
             self._inc_from_stress(estress, dt)
-            self._igral += self._inc
+            self._igral = self._igral + self._inc
             self._estress[:] = estress
 
 
@@ -1633,34 +1633,16 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         self._inc[:] = dt
         self._inc /= self._alpha + 1
-        self._inc *= self.estress0
         self._inc /= self.t0
-        self._inc /= (estress - self._estress)
+        self._inc *= (self._estress / self.estress0) ** self._alpha
 
-        self._inc *= ((estress / self.estress0) ** (self._alpha + 1)
-                      - (self._estress / self.estress0) ** (self._alpha + 1))
-
-        nans = np.isnan(self._inc)
-
-        # Following expression gives errors when t0, estress0 or _estress are
-        # not arrays so I did it differently (may be slower):
-        # self._inc[nans] = dt / self.t0[nans] * (self._estress[nans] / self.estress0[nans]) ** (self._alpha + 1)
-        if np.isscalar(self._estress):
-            self._inc[nans] = self._estress
-        else:
-            self._inc[nans] = self._estress[nans]
-
-        if np.isscalar(self.estress0):
-            self._inc[nans] /= self.estress0
-        else:
-            self._inc[nans] /= self.estress0[nans]
-
-        np.power(self._inc[nans],(self._alpha + 1),out=self._inc[nans])
-
-        if np.isscalar(self.t0):
-            self._inc[nans] /= self.t0
-        else:
-            self._inc[nans] /= self.t0[nans]
+        # relative change in stress; the average of stress**alpha over the
+        # increment tends to its value at the start as d tends to zero.
+        d = (estress - self._estress) / self._estress
+        same = (d == 0)
+        d = np.where(same, 1.0, d)
+        self._inc *= np.where(same, self._alpha + 1,
+                              np.expm1((self._alpha + 1) * np.log1p(d)) / d)
 
         return self._inc
 
@@ -1723,13 +1705,29 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             return self._es
 #        fn(0)
 #        self._es *= 0.95
-        fixed_point(fn, self._estress, xtol=1e-3, maxiter=500)
+        # Newton's method on log(estress); fn(estress) == estress at the root.
+        estress = self._estress.copy()
+        for i in range(500):
+            f = np.log(fn(estress) / estress)
+            d = estress - self._estress
+            near = np.abs(d) < 1e-4 * self._estress
+            rate = dt / self.t0 * (estress / self.estress0) ** self._alpha
+            slope = np.where(near, 0.5 * self._alpha * rate / estress,
+                             (rate - self._inc) / np.where(near, 1.0, d))
+            f /= 1 + (self.psi / self.kap * estress * slope /
+                      (1 + self._inc + self._igral))
+            estress *= np.exp(np.minimum(f, 1.0))
+            if np.all(np.abs(f) < 1e-12):
+                break
+        else:
+            raise RuntimeError("stress_from_e did not converge.")
+        fn(estress)
 
         #update the properties at end of dt time increment
-        self._igral += self._inc
+        self._igral = self._igral + self._inc
         self._estress[:] = self._es
 
-        return  self._es
+        return  self._es.copy()
 
 
 #    def e_and_stress_for_plotting(self, **kwargs):
@@ -1871,6 +1869,8 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         """
 
         igral0 = self._igral # remember _igral value before CRSN simulation
+        estress_ = self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -1901,7 +1901,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 """
 
                 erate = np.interp(tt, tvals, edot)
-                evalue = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, 0, tt)
+                evalue = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, tvals[0], tt)
 
                 return (-x / self.kap * (
                     erate
@@ -1910,9 +1910,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                     ))
 
 
-            estress = odeint(func, self.estress0, tvals_)[:,0]
+            estress = odeint(func, self.estress0, tvals_, tcrit=tvals_[-1:])[:,0]
             edot_ = np.interp(tvals_, tvals, edot)
-            e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.zeros_like(tvals_), tvals_)
+            e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.full_like(tvals_, tvals[0]), tvals_)
 
         else:
             e = np.zeros_like(tvals_)
@@ -1929,6 +1929,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 estress[i + 1] = self.stress_from_e(e[i+1], dt=dt_)
 
         self._igral = igral0 # reset _igral to value before CRSN
+        self._estress[:] = estress_
 
         return tvals_, estress, e, edot_
 
@@ -1983,6 +1984,8 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         """
 
         igral0 = self._igral # remember _igral value before CRSS simulation
+        estress_ = self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -2013,16 +2016,16 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 """
 
                 estressrate = np.interp(tt, tvals, estressdot)
-                estressvalue = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, 0, tt)
+                estressvalue = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, tvals[0], tt)
 
                 return (-self.kap * estressrate/estressvalue
                         -self.psi/self.ta * np.exp((x-self.ea)/self.psi)
                         *(estressvalue / self.siga)**(self.lam / self.psi))
 
 
-            e = odeint(func, self.e0, tvals_)[:,0]
+            e = odeint(func, self.e0, tvals_, tcrit=tvals_[-1:])[:,0]
             estressdot_ = np.interp(tvals_, tvals, estressdot)
-            estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.zeros_like(tvals_), tvals_)
+            estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.full_like(tvals_, tvals[0]), tvals_)
 
         else:
             e = np.zeros_like(tvals_)
@@ -2039,6 +2042,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 e[i + 1] = self.e_from_stress(estress[i+1], dt=dt_)
 
         self._igral = igral0 # reset _igral to value before CRSS
+        self._estress[:] = estress_
 
         return tvals_, estress, e, estressdot_
 
-- 
2.43.0


From f0461d8325e9d3e799293e0d20da4280d94eb442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 48/93] fix: flow law failed for some parameter triples
 (k_linear typo, diverging iteration, zero i0) and constant permeability could
 not be plotted

---
 .../velocity_hydraulic_gradient.py                 | 14 +++++++++++---
 .../constitutive_models/void_ratio_permeability.py |  5 +++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index a641235..9ce5153 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -24,6 +24,7 @@ from numpy import (isscalar, asarray)
 import matplotlib.pyplot as plt
 import matplotlib
 import scipy.optimize
+import scipy.special
 from collections import OrderedDict
 
 from geotecha.mathematics import root_finding
@@ -418,7 +419,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.n = 1
                 self.iL = 0
                 self.i0 = 0
-                self.k_linear = kstar
+                self.klinear = kstar
             else:
                 self.kstar = kstar
                 self.n = n
@@ -485,7 +486,14 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 # note as at 20151106 scipy.optimize.fixed_point may not
                 # converge for this function because convergence acceleration
                 # is used.  Use my modified version instead:
-                self.n = root_finding.fixed_point_no_accel(fn,
+                # That only converges when n*log(iL)>1, otherwise use the
+                # closed form from n * iL**(n-1) = klinear/kstar.
+                if 0 <= np.log(iL) < 3:
+                    u = klinear / kstar * iL * np.log(iL)
+                    self.n = (klinear / kstar if iL == 1 else
+                              scipy.special.lambertw(u).real / np.log(iL))
+                else:
+                    self.n = root_finding.fixed_point_no_accel(fn,
                                                            1.00001,
                                                            args=(klinear, kstar, iL))
 
@@ -552,7 +560,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.klinear = klinear
                 self.kstar = klinear / (self.n * self.iL**(self.n - 1))
         elif len([v for v in (iL, i0, klinear) if not v is None]) == 3:
-            self.n = iL / (iL - i0)
+            self.n = 1 if i0 == 0 else iL / (iL - i0)
             self.iL = iL
             self.i0 = i0
             self.klinear = klinear
diff --git a/geotecha/constitutive_models/void_ratio_permeability.py b/geotecha/constitutive_models/void_ratio_permeability.py
index 87d7440..cbeccab 100644
--- a/geotecha/constitutive_models/void_ratio_permeability.py
+++ b/geotecha/constitutive_models/void_ratio_permeability.py
@@ -230,8 +230,9 @@ class ConstantPermeabilityModel(PermeabilityVoidRatioRelationship):
         npts = kwargs.get('npts', 100)
         xmin, xmax = kwargs.get('xmin', 1.0), kwargs.get('xmax', 100)
 
-        x = np.linspace(xmin, xmax, npts)
-        y = self.e_from_k(x)
+        # any void ratio has the same permeability
+        y = np.linspace(xmin, xmax, npts)
+        x = self.k_from_e(y)
         return x, y
 
 
-- 
2.43.0


From f32d188d04cacd1f596b93b0f10947aa723cc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 49/93] fix: reference saturation looked up off its grid
 (interpreted) or past its end (compiled), and a pore at its residual content
 divided by zero

---
 geotecha/constitutive_models/epus.py      |  6 +++---
 geotecha/constitutive_models/epus_ext.f95 | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b1a5900..366ed71 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -514,7 +514,7 @@ class EPUS(object):
         if Airentryvalue >= (10 * SimpleSWCC.a) ** (1 / SimpleSWCC.b):
             return 1
         temp2 = (SimpleSWCC.wsat * Gs - Ccs * log10(Airentryvalue) - SimpleSWCC.wr * Gs)
-        if temp2 < 0:
+        if temp2 <= 0:
             return 1
 
         temp1 = (Ccs - Css) * log10(MaxSumStress) + Css * log10(Waterentryvalue + Stress) - Ccs * log10(Airentryvalue)
@@ -812,9 +812,9 @@ class EPUS(object):
         MinSuction = self.MinSuction
 
         if curvetype == 1:
-            return self.Srdry[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srdry[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
         if curvetype == 3:
-            return self.Srwet[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srwet[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
 #'A-88
 
     def _Calresults_scalar(self):
diff --git a/geotecha/constitutive_models/epus_ext.f95 b/geotecha/constitutive_models/epus_ext.f95
index 7f8152c..33f0180 100644
--- a/geotecha/constitutive_models/epus_ext.f95
+++ b/geotecha/constitutive_models/epus_ext.f95
@@ -468,7 +468,7 @@
           END IF
           temp2 = (wsat * Gs - Ccs * Log10(Airentryvalue) &
               - wr * Gs)
-          IF (temp2 < zero) THEN
+          IF (temp2 <= zero) THEN
             ChangeWetSuction = one
             RETURN
           END IF
@@ -786,12 +786,12 @@
           !'curvetype=1: drying; = 2: scanning; =3: wetting
 
           If (curvetype .EQ. 1) Then
-            RfSr_value = Srdry(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srdry(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
           If (curvetype .EQ. 3) Then
-            RfSr_value = Srwet(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srwet(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
         !'A-88
 
-- 
2.43.0


From 101eac522cf5a8e41aa0b226524d64704e5b0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 50/93] fix: interpreted unsaturated path: drained pores kept
 shrinking and wetting used the saturation before the step, unlike the
 compiled one

---
 geotecha/constitutive_models/epus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 366ed71..e29db02 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -594,7 +594,7 @@ class EPUS(object):
                     if Stress + ss_new > f.YieldSt[i]:
                         f.YieldSt[i] = Stress + ss_new
 
-                f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
+                    f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
 
             else:
                 # Do not care about the pore that is already dried
@@ -635,6 +635,8 @@ class EPUS(object):
             self.Curveon = 3
             self.RefSr = RfSr_value(3, ss_new)
 
+        RefSr = self.RefSr # the curve above may have moved it
+
         for i in range(f.Npoint):
             s = 10 ** f.WEV[i]
             if not f.Filled[i]:     # Check if the pore group is filled with water
-- 
2.43.0


From caf1aabaa70827ae713dcf15b666c03293b6591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 51/93] fix: unsaturated stress path without names could not be
 made

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index e29db02..8b5cbff 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1263,12 +1263,12 @@ class StressPath(object):
             else:
                 if self.ist[i]:
                     name = ("Step #{:s}, stress change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
 
                 else:
                     name = ("Step #{:s}, suction change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
                 self.name.append(name)
 
-- 
2.43.0


From ff33cee6a328286ab6fe8035b0b3efa0bd3b1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 52/93] fix: combining one stage aliased it, and
 compression_indexes altered the profile it was given

---
 geotecha/constitutive_models/epus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 8b5cbff..17eca1c 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1357,7 +1357,7 @@ class DataResults(object):
     def __radd__(self, other):
 
         if other == 0:
-            return self
+            return DataResults(0) + self
         else:
             return self.__add__(other)
 
@@ -1822,8 +1822,8 @@ class EpusProfile(object):
         self.dsig = dsig
         self.dpsi = dpsi
 
-        profile_backup = deepcopy(self.profile)
-
+        profile_backup = self.profile
+        self.profile = deepcopy(profile_backup)
 
         #dsig
         for i in range(self.profile.npts):
-- 
2.43.0


From fa701abd9f8ad081518dccf3bbbbaa50e814211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:27 +0000
Subject: [PATCH 53/93] fix: unsaturated profile ignored its point refinements
 and accepted an unconverged stress

---
 geotecha/constitutive_models/epus.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 17eca1c..b18279f 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1667,8 +1667,8 @@ class EpusProfile(object):
                                       self.npp_refine):
 
             self._nz = int(fnz * self.nz)
-            self._Npoint = int(fnz * self.Npoint)
-            self._npp = int(fnz * self.npp)
+            self._Npoint = int(fNpoint * self.Npoint)
+            self._npp = int(fnpp * self.npp)
 
 
             new_profile = self._blank_profile(nz=self._nz)
@@ -1698,9 +1698,7 @@ class EpusProfile(object):
                 if np.allclose(old_stress, self.profile.st,
                                atol=self.atol, rtol=self.rtol):
                     break
-
-
-            if j>=self.max_iter:
+            else:
                 raise ValueError("Maximum iterations reached while nz={}".format(self._nz))
             self.niter.append(j+1)
 
-- 
2.43.0


From 2ecb71db4c91003b47864e31a3826cba20c2f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 54/93] fix: a timed worker started by another thread kept a
 dead worker's pipes open, so its end went unnoticed

---
 geotecha/inputoutput/timeout.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 2d6dcf2..6f74b7a 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -74,6 +74,7 @@ import multiprocessing
 import multiprocessing.connection
 import os
 import signal
+import threading
 import time
 import logging
 #logger = multiprocessing.log_to_stderr()
@@ -84,6 +85,20 @@ class TimeoutException(Exception):
     pass
 
 
+# Held while a worker and its pipes are made so that no other worker inherits
+# them: a worker's end would go unnoticed while another process has its pipes.
+_starting = threading.RLock()
+
+
+def _renew_starting():
+    """A forked process does not have the thread that holds the lock"""
+    global _starting
+    _starting = threading.RLock()
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renew_starting)
+
+
 class RunableProcessing(multiprocessing.Process):
     def __init__(self, func, *args, **kwargs):
         self._receiver, self._sender = multiprocessing.Pipe(duplex=False)
@@ -130,8 +145,9 @@ def timeout(seconds, force_kill=True):
     def wrapper(function):
         def inner(*args, **kwargs):
             now = time.time()
-            proc = RunableProcessing(functools.partial(function, *args, **kwargs))
-            proc.start()
+            with _starting:
+                proc = RunableProcessing(functools.partial(function, *args, **kwargs))
+                proc.start()
             remaining = seconds
             if not seconds is None: # the time limit includes starting
                 remaining = max(0, seconds - (time.time() - now))
-- 
2.43.0


From 4034472a09c280a4d286e314cd624534ff0ac9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 55/93] fix: root search looped for ever when it met a root at
 a grid point, and could repeat, skip or invent roots

---
 geotecha/mathematics/root_finding.py | 39 +++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index c74598e..ed919f2 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -108,6 +108,8 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
 
     root_number = 0
     iter_count = 0
+    iter_same = 0
+    func_name = getattr(func, '__name__', repr(func))
 
     x00 = x0_zero #starting point for current root
     dx0 = dx_zero #starting increment for current root
@@ -115,7 +117,7 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
     y0 = func(x0, *args)
     if debug:
         print('Trying to find {0} roots of "{1}" starting at x0={2} '
-             'with dx={3}, p={4}.'.format(n, func.__name__, x0, dx, p))
+             'with dx={3}, p={4}.'.format(n, func_name, x0, dx, p))
         print('root_number, iter_count, x, y, comment')
         print(root_number, 0, x0, y0, 'start')
     while root_number < n:
@@ -129,13 +131,19 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
                             "".format(max_iter,
                                       root_number,
                                       n,
-                                      func.__name__,
+                                      func_name,
                                       x0_zero,
                                       dx_zero,
                                       p,
                                       [roots[v] for v in range(root_number)]))
         iter_count += 1
         x1 = x0 + dx
+        if x1 == x0:
+            raise ValueError("No room to search for root #{0} of {1} for the "
+                             "function '{2}' to the right of x={3}: is that "
+                             "point a root?  Roots already found are: {4}"
+                             "".format(root_number + 1, n, func_name, x0,
+                                       list(roots[:root_number])))
         y1 = func(x1, *args)
 
         if debug:
@@ -162,9 +170,20 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
             else:
                 xguess = x0 - y0 * (x1-x0)/(y1-y0)
 
-            xr, = scipy.optimize.fsolve(func, xguess, args, **fsolve_kwargs)
+            (xr,), info, ier, msg = scipy.optimize.fsolve(func, xguess, args, full_output=True, **fsolve_kwargs)
+
+            ymax = 0.1 * max([abs(y) for y in (y0, y1) if abs(y) < np.inf] or [0.0])
+            if ier != 1 or not x0 <= xr <= x1 or not abs(func(xr, *args)) <= ymax:
+                #fsolve has wandered off, the sign change is inside x0, x1
+                xr = scipy.optimize.brentq(func, x0, x1, args, xtol=1e-15)
+            if not abs(func(xr, *args)) <= ymax:
+                #sign changes across a jump: not a root
+                x0 = x1
+                y0 = y1
+                dx *= p
+                continue
 
-            if root_number==0:
+            if root_number > 0:
                 if np.allclose(xr, roots[root_number-1], atol=atol, rtol=rtol):
                     #found same root
                     if debug:
@@ -180,7 +199,7 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
                                 "".format(iter_same,
                                           root_number + 1,
                                           n,
-                                          func.__name__,
+                                          func_name,
                                           x0_zero,
                                           dx_zero,
                                           p,
@@ -198,8 +217,16 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
             dx0 = dx
             #move right
             if not np.allclose(xr, x1, atol=atol, rtol=rtol):
+                x1_, y1_ = x1, y1
                 x1 = xr+(x1-xr) * 0.1
                 y1 = func(x1, *args)
+                if y1 * y1_ <= 0.0:
+                    #not yet past the root
+                    x1, y1 = x1_, y1_
+            if y1 == 0.0:
+                #interval ends on the root
+                x1 = x1 + dx * 0.1
+                y1 = func(x1, *args)
             x00 = x1
 
             #reset iters for next root
@@ -287,7 +314,7 @@ def fixed_point_no_accel(func, x0, args=(), xtol=1e-8, maxiter=500):
 #            p = where(d == 0, p2, p0 - (p1 - p0)*(p1 - p0) / d)
             p = p1
             relerr = np.where(p0 == 0, p, (p-p0)/p0)
-            if all(abs(relerr) < xtol):
+            if np.all(abs(relerr) < xtol):
                 return p
             p0 = p
     else:
-- 
2.43.0


From 32519e8abafc15a898cfb0ad3d6fd051d3c5e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 56/93] fix: quadrature over intervals could not run on current
 numpy; series acceleration ruined converged sequences and whole numbers

---
 geotecha/mathematics/quadrature.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..f7dfd3e 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1170,6 +1170,8 @@ def shanks(seq, ind=0):
     """
 
     seq = np.atleast_1d(seq)
+    if not np.issubdtype(seq.dtype, np.inexact) and seq.dtype != object:
+        seq = seq.astype(float)
 
     if ind is None:
         return +seq[..., -1]
@@ -1177,14 +1179,19 @@ def shanks(seq, ind=0):
         ind = seq.shape[-1] + ind
     ind = max(ind, 0)
 
+    active = np.ones(seq.shape[:-1] + (1,), dtype=bool)
     for i in range(ind, seq.shape[-1] - 2, 2):
 
         denom = (seq[..., i + 2:] - 2 * seq[..., i + 1: -1] + seq[..., i:-2])
-        if np.any(denom==0):
+        #each sequence stops when it has nothing left to extrapolate
+        active = active & np.all(denom != 0, axis=-1, keepdims=True)
+        if not np.any(active):
             return +seq[..., -1]
-        seq[..., i + 2:] = (
-            (seq[..., i + 2:] * seq[..., i:-2] - seq[..., i + 1:-1]**2) /
-            denom)
+        #same as (a2 * a0 - a1**2) / denom but does not lose precision once
+        #the sequence has converged
+        change = ((seq[..., i + 2:] - seq[..., i + 1:-1])**2 /
+            np.where(active, denom, 1))
+        seq[..., i + 2:] -= np.where(active, change, 0)
     return +seq[...,-1]
 
 
@@ -1248,7 +1255,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1339,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
-- 
2.43.0


From d05039ef7c83e653573cac12f8dc4f0fd541f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 57/93] fix: Hankel transform between limits dropped what lies
 past its last zero

---
 geotecha/mathematics/hankel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 68c3de5..bda8dcc 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -173,6 +173,11 @@ class HankelTransform(object):
 
         zeros = self.jn_0s / s
 
+        if zeros[-1] < b < np.inf:
+            #the integral goes past the last of the `m` zeros
+            zeros = np.append(0.0, jn_zeros(self.order,
+                                            int(s * b / np.pi) + 2)) / s
+
         if not self.points is None:
             #zeros becomes both zeros and interesting points/singularities
             zeros = np.unique(list(zeros) +
-- 
2.43.0


From a2695a971b281a9c39b7135f62dcf8fd58218826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 58/93] fix: Fourier transform of imaginary and complex
 functions had wrong sign, dropped the real part or ignored the odd flag

---
 geotecha/mathematics/fourier.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index aa91207..cb5328e 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -463,11 +463,11 @@ class FourierTransform(object):
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
                 # real transform result [0, inf]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
 
                 return igral, err
 
@@ -505,12 +505,12 @@ class FourierTransform(object):
 
 
         if self.imag_part_even:
-            igral, err = [2.j * self.inv_const * v for v in
-                        cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+            ig, er = [2.j * self.inv_const * v for v in
+                        cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
-        elif self.real_part_odd:
-            igral, err = [2 * self.inv_const * self.inv_sign * v for v in
-                        sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+        elif self.imag_part_odd:
+            ig, er = [2 * self.inv_const * self.inv_sign * v for v in
+                        sine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
         else:
             #imag part of function exhibits no symmetry
-- 
2.43.0


From c350e37827b2cad789fbf4055a9068db8d5ad581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 59/93] fix: vectorized transforms altered the array a function
 returned, and refused constants

---
 geotecha/mathematics/fourier.py | 5 ++---
 geotecha/mathematics/hankel.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index cb5328e..a4480ad 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -618,7 +618,7 @@ def vcosine_transform(f, s, args=(), m=20, ng=20, shanks_ind=None):
     xijk = bma * xk_ + bpa # xj_ are in [-1, 1] so need to transform to [a, b]
 
     fijk = f(xijk, *args)
-    fijk *= np.cos(si * xijk)
+    fijk = fijk * np.cos(si * xijk)
 #    fijk *= xijk
 
     igral = bma[:,:,0] * np.sum(fijk * wk, axis=2)
@@ -734,8 +734,7 @@ def v2dcosine_transform(f, s1, s2, args=(), m=20, ng=20, shanks_ind=None):
     xlmn = bmalm * xn_ + bpalm
 
     fijklmn=f(xijk, xlmn, *args)
-    fijklmn*=np.cos(si*xijk)
-    fijklmn*=np.cos(sl*xlmn)
+    fijklmn = fijklmn * (np.cos(si*xijk) * np.cos(sl*xlmn))
 
     fijklmn*=wk
     fijklmn*=wn
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index bda8dcc..37e73b1 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -356,7 +356,7 @@ def vhankel_transform(f, r, args=(), order=0, m=20, ng=20, shanks_ind=None):
     xijk = bma * xk_ + bpa # xj_ are in [-1, 1] so need to transform to [a, b]
 
     fijk = f(xijk, *args)
-    fijk *= jn(order, ri * xijk)
+    fijk = fijk * jn(order, ri * xijk)
     fijk *= xijk
 
     igral = bma[:,:,0] * np.sum(fijk * wk, axis=2)
-- 
2.43.0


From 376b43c791dd0912abb8372bb2018695b166e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 60/93] fix: transforms of several variables took no options
 other than a list on old python only

---
 geotecha/mathematics/multi_transform.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 5afff1e..ae4222e 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -29,7 +29,6 @@ from numpy.testing import assert_allclose
 from geotecha.mathematics.laplace import Talbot
 from geotecha.mathematics.hankel import HankelTransform
 from geotecha.mathematics.fourier import FourierTransform
-import collections
 
 
 
@@ -143,12 +142,12 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
     if args is None:
         args = ()
     if opts is None:
-        opts = [dict([])] * depth
+        opts = dict([])
 
     if isinstance(opts, dict):
-        opts = [opts] * depth
+        opts = [_OptFunc(opts)] * depth
     else:
-        opts = [opt if isinstance(opt, collections.Callable) else
+        opts = [opt if callable(opt) else
                 _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
-- 
2.43.0


From defef4b524ad20e47d0cc5efce4febdba683d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 61/93] fix: repeated inverse Laplace transform lost the
 imaginary part of the inner one

---
 geotecha/mathematics/laplace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/laplace.py b/geotecha/mathematics/laplace.py
index be691b4..a3714b2 100644
--- a/geotecha/mathematics/laplace.py
+++ b/geotecha/mathematics/laplace.py
@@ -156,10 +156,15 @@ class Talbot(object):
 
         inv_laplace *= h / (2j * np.pi)
 
+        if not any(np.iscomplexobj(a) for a in args):
+            #(with complex args, say the variable of an outer inverse
+            #transform, the inverse itself is complex)
+            inv_laplace = inv_laplace.real
+
         if len(inv_laplace)==1:
-            return inv_laplace[0].real
+            return inv_laplace[0]
         else:
-            return inv_laplace.real
+            return inv_laplace
 
 if __name__ == '__main__':
     import nose
-- 
2.43.0


From dc0823e21fa0149aa86b0d88c93ad3f839c665e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 62/93] fix: area of a polygon listed clockwise was not a
 number

---
 geotecha/mathematics/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 2627763..a914321 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -236,10 +236,9 @@ def polygon_area(pts):
     x, y, z = xyz_from_pts(pts,True)
     n, d = eqn_of_plane(pts)
 
-    i = np.argmax(n) #project polygon onto plane that is perpendicular to this direction, then integrate the area
+    i = np.argmax(np.abs(n)) #project polygon onto plane that is perpendicular to this direction, then integrate the area
 
-    j = list(range(3))
-    j.pop(i) #remaining directions
+    j = [(i + 1) % 3, (i + 2) % 3] #remaining directions, in cyclic order
     e = (x, y, z)
     def if1dxdy(x, y):
         """integrate f=1 over polygon of x,y points"""
-- 
2.43.0


From 22828548bd4750946afa5d536344fccc9f064a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 63/93] fix: centroid of a polygon parallel to a coordinate
 plane was wrong, and round-off in its normal ruined moments and volumes

---
 geotecha/mathematics/geometry.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index a914321..0db5b47 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -287,22 +287,23 @@ def polygon_centroid(pts):
 
     calcd = [False,False,False]
 
+    small = 1e-6 #cannot project on a plane perpendicular to the polygon
 
-    if n[0]!=0:#project on yz plane
+    if abs(n[0])>small:#project on yz plane
         if not calcd[1]:
             yc = ifxdxdy(y, z)/ (n[0] * a)
             calcd[1]= True
         if not calcd[2]:
             zc = ifydxdy(y, z)/ (n[0] * a)
             calcd[2]= True
-    if n[1]!=0: #project on zx plane
+    if abs(n[1])>small: #project on zx plane
         if not calcd[2]:
             zc = ifxdxdy(z, x)/ (n[1] * a)
             calcd[2]= True
         if not calcd[0]:
             xc = ifydxdy(z, x)/ (n[1] * a)
             calcd[0]= True
-    if n[2]!=0: #project on xy plane
+    if abs(n[2])>small: #project on xy plane
         if not calcd[0]:
             xc = ifxdxdy(x, y)/ (n[2] * a)
             calcd[0]= True
@@ -310,7 +311,11 @@ def polygon_centroid(pts):
             yc = ifydxdy(x, y)/ (n[2] * a)
             calcd[1]= True
 
-    return np.array([xc, yc, zc])
+    c = np.array([xc, yc, zc])
+    if not all(calcd): #polygon is perpendicular to an axis
+        i = calcd.index(False)
+        c[i] -= (np.dot(n, c) + d) / n[i]
+    return c
 
 
 def polygon_2nd_moment_of_area(pts):
@@ -358,22 +363,23 @@ def polygon_2nd_moment_of_area(pts):
 
     calcd = [False, False, False]
 
+    small = 1e-6 #cannot project on a plane perpendicular to the polygon
 
-    if n[0]!=0:#project on yz plane
+    if abs(n[0])>small:#project on yz plane
         if not calcd[1]:
             iyy = ifx2dxdy(y, z, yc)/ (n[0] * a)
             calcd[1]= True
         if not calcd[2]:
             izz = ify2dxdy(y, z, zc)/ (n[0] * a)
             calcd[2]= True
-    if n[1]!=0: #project on zx plane
+    if abs(n[1])>small: #project on zx plane
         if not calcd[2]:
             izz = ifx2dxdy(z, x, zc)/ (n[1] * a)
             calcd[2]= True
         if not calcd[0]:
             ixx = ify2dxdy(z, x, xc)/ (n[1] * a)
             calcd[0]= True
-    if n[2]!=0: #project on xy plane
+    if abs(n[2])>small: #project on xy plane
         if not calcd[0]:
             ixx = ifx2dxdy(x, y, xc)/ (n[2] * a)
             calcd[0]= True
@@ -410,7 +416,8 @@ def polyhedron_volume(faces):
         pts = np.asarray(pts)
         x, y, z = xyz_from_pts(pts,True)
         (n1,n2,n3),d = eqn_of_plane(pts)
-        if n1==0:
+        if abs(n1)<1e-6: #(nearly) parallel to x axis
+            v += n1 * polygon_area(pts) * polygon_centroid(pts)[0]
             continue
         #generate code with integrate_f_over_polyhedra_code(1)
         v += np.sum((-z[:-1] + z[1:])*((-2*d*y[:-1] - n2*y[:-1]**2 -
-- 
2.43.0


From 997780b12fac0e7fd0b77d1e3a70c60630bb4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:32 +0000
Subject: [PATCH 64/93] fix: row_major_order_reverse_map failed with current
 numpy (indexing with a list of slices)

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 7c0e08f..ddec765 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -979,7 +979,7 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
 
     pos=np.arange(np.product(shape)).reshape(shape)
-    a=[slice(None,None,i) for i in index_steps]
+    a = tuple([slice(None, None, i) for i in index_steps])
     pos[...]=pos[a]
 
     if transpose:
-- 
2.43.0


From 90112ce9373270c84a4a5db58aae7adc2fe8105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:32 +0000
Subject: [PATCH 65/93] fix: plot_data_in_grid ignored its sharex and sharey
 arguments

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index ddec765..f45907f 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1139,7 +1139,7 @@ def plot_data_in_grid(fig, data, gs,
         else:
             shy=ax[sharey[i]]
 
-        ax.append(fig.add_subplot(gs[j]))
+        ax.append(fig.add_subplot(gs[j], sharex=shx, sharey=shy))
 
         for j, xy_etc in enumerate(subplot_data):
             #xy_etc is a single [x,y,dict] to send to plt.plot, or plt.plot_type
-- 
2.43.0


From d00b1554227fa664fd4ecb267d9ff623c30a24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 66/93] fix: plot_generic_loads without trange failed for loads
 given as (times, values) or None

---
 geotecha/plotting/one_d.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index f45907f..ea01900 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1325,14 +1325,17 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
     #determine tmax, tmin
     if trange is None:
+        all_t = []
         for i, (triples, name, ylabel)  in enumerate(zip(load_triples, load_names, ylabels)):
             for j, (vs_time, vs_depth, omega_phase) in enumerate(triples):
-                if i==0 and j==0:
-                    tmin = np.min(vs_time.x)
-                    tmax = np.max(vs_time.x)
+                if vs_time is None:
+                    continue
+                if isinstance(vs_time, PolyLine):
+                    t_ = vs_time.x
                 else:
-                    tmin = min(tmin, np.min(vs_time.x))
-                    tmax = max(tmax, np.max(vs_time.x))
+                    t_ = vs_time[0]
+                all_t.extend([np.min(t_), np.max(t_)])
+        tmin, tmax = (min(all_t), max(all_t)) if all_t else (0.0, 1.0)
     else:
         tmin, tmax = trange
 
-- 
2.43.0


From 807f48d2499c1b2c9a5c75eddb7b851701aeaaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 67/93] fix: plot_generic_loads failed for a negative or zero
 angular frequency

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index ea01900..a69b229 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1373,7 +1373,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
             if not omega_phase is None:
                 omega, phase = omega_phase
-                dx = min(dx, 1/(omega/(2*np.pi))/40)
+                dx = min(dx, 1/(abs(omega)/(2*np.pi))/40) if omega else dx
 
 
 #                print(dx, omega)
-- 
2.43.0


From e7f8b1302bb99b66b90bcf9ca7289c74481088cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 68/93] fix: load plots showed depth upside down for an even
 number of load types (the shared depth axis was turned over once per load
 type)

---
 geotecha/plotting/one_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index a69b229..c8734f0 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1455,7 +1455,8 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
             ax2[-1].set_xlabel(xlabel2)
 
         if RLzero is None:
-            ax2[-1].invert_yaxis()
+            if i == 0: # the depth axes are shared; only turn them over once
+                ax2[-1].invert_yaxis()
             ylabel = prop_dict.get('depth_axis_label', 'Depth, z')
         else:
             ylabel = prop_dict.get('depth_axis_label', 'RL')
-- 
2.43.0


From 2cdfc9f38ca7937ecc29eb9a3a0ed521bfb3d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 69/93] fix: plotting reseeded the global random number
 generator

---
 geotecha/plotting/one_d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index c8734f0..25f310d 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1775,12 +1775,16 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
 
     if isinstance(markevery, int):
         if random_start:
+            state = random.getstate()
             if not seed is None:
                 random.seed(seed)
             [apply_dict_to_object(line, d)
             for line, d in
                 zip(lines,[{'markevery': (random.randint(0, markevery),
                                           markevery)} for v in lines])]
+            if not seed is None:
+                # leave the global generator as it was found
+                random.setstate(state)
         else:
             [apply_dict_to_object(line, d)
             for line, d in zip(lines,[{'markevery': markevery} for
@@ -1794,12 +1798,16 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
             # all the markevery code it in to my own matplotlib.lines file.
 
             if random_start:
+                state = random.getstate()
                 if not seed is None:
                     random.seed(seed)
                 [apply_dict_to_object(line, d)
                 for line, d in
                     zip(lines,[{'markevery': (random.random()*markevery,
                                               markevery)} for v in lines])]
+                if not seed is None:
+                    # leave the global generator as it was found
+                    random.setstate(state)
             else:
                 [apply_dict_to_object(line, d)
                     for line, d in zip(lines,[{'markevery': markevery} for
-- 
2.43.0


From d1c93b6aa3b30fb8caadacac385674e05eeac570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 70/93] fix: plot_vs_depth (and the pore pressure plots of the
 spectral programs) failed or plotted wrong depths when depths are a list

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 25f310d..be8bcfd 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1920,7 +1920,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
 
 
-    z = transformations.depth_to_reduced_level(z, H, RLzero)
+    z = transformations.depth_to_reduced_level(np.asarray(z), H, RLzero)
 
     fig = plt.figure(**fig_prop)
     plt.plot(x, z)
-- 
2.43.0


From cd26dbf97a13da86279b2287d5b647c2ba313592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 71/93] fix: plots of a program used up its plot_properties so
 plotting again ignored them

---
 geotecha/consolidation/nogamiandli2003.py      |  6 +++---
 .../consolidation/schiffmanandstein1970.py     |  6 +++---
 geotecha/speccon/speccon1d_unsat.py            | 18 +++++++++---------
 geotecha/speccon/speccon1d_vr.py               | 10 +++++-----
 geotecha/speccon/speccon1d_vrc.py              | 18 +++++++++---------
 geotecha/speccon/speccon1d_vrw.py              | 12 ++++++------
 6 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index e81ba2f..9fc56ca 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -806,7 +806,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'+extra
 
@@ -827,7 +827,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'+extra
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -846,7 +846,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'+extra
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index f5a5600..799cd18 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -313,7 +313,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -330,7 +330,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -346,7 +346,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 040a331..bad2cdc 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1285,7 +1285,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porw_prop = self.plot_properties.pop('porw', dict())
+        porw_prop = dict(self.plot_properties.get('porw', {}))
         if not 'xlabel' in porw_prop:
             porw_prop['xlabel'] = 'Pore water pressure'
 
@@ -1302,7 +1302,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        pora_prop = self.plot_properties.pop('pora', dict())
+        pora_prop = dict(self.plot_properties.get('pora', {}))
         if not 'xlabel' in pora_prop:
             pora_prop['xlabel'] = 'Pore air pressure'
 
@@ -1325,7 +1325,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpw_prop = self.plot_properties.pop('avpw', dict())
+        avpw_prop = dict(self.plot_properties.get('avpw', {}))
         if not 'ylabel' in avpw_prop:
             avpw_prop['ylabel'] = 'Average pore water pressure'
         fig_avpw = geotecha.plotting.one_d.plot_vs_time(t, self.avpw.T,
@@ -1344,7 +1344,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpa_prop = self.plot_properties.pop('avpa', dict())
+        avpa_prop = dict(self.plot_properties.get('avpa', {}))
         if not 'ylabel' in avpa_prop:
             avpa_prop['ylabel'] = 'Average pore air pressure'
         fig_avpa = geotecha.plotting.one_d.plot_vs_time(t, self.avpa.T,
@@ -1363,7 +1363,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1383,7 +1383,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('setw', dict())
+        set_prop = dict(self.plot_properties.get('setw', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Water settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.setw.T,
@@ -1403,7 +1403,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('seta', dict())
+        set_prop = dict(self.plot_properties.get('seta', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Air settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.seta.T,
@@ -1489,7 +1489,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1526,7 +1526,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 0c46cd9..d0badc5 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -1212,7 +1212,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1234,7 +1234,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1252,7 +1252,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1312,7 +1312,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
     def _plot_materials(self):
         """Prepare material property plots"""
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1338,7 +1338,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
     def _plot_loads(self):
         """Prepare plots of loading."""
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 7297e1e..ed30dde 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1239,7 +1239,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('pors', dict())
+        por_prop = dict(self.plot_properties.get('pors', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Soil pore pressure'
 
@@ -1256,7 +1256,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porc_prop = self.plot_properties.pop('porc', dict())
+        porc_prop = dict(self.plot_properties.get('porc', {}))
         if not 'xlabel' in porc_prop:
             porc_prop['xlabel'] = 'Column pore pressure'
 
@@ -1274,7 +1274,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1296,7 +1296,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1314,7 +1314,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avps', dict())
+        avp_prop = dict(self.plot_properties.get('avps', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average soil pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avps.T,
@@ -1332,7 +1332,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avpc', dict())
+        avp_prop = dict(self.plot_properties.get('avpc', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average column pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avpc.T,
@@ -1350,7 +1350,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1434,7 +1434,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1467,7 +1467,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 56329a5..33981d2 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1181,7 +1181,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('porwell', dict())
+        por_prop = dict(self.plot_properties.get('porwell', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Drain Pore pressure'
 
@@ -1200,7 +1200,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1222,7 +1222,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1240,7 +1240,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1306,7 +1306,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1336,7 +1336,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
-- 
2.43.0


From 9a4ccaf46dcb89a70b7cb93e34a2cb3a2f43b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 72/93] fix: Eload_coslinear failed for complex eigenvalues
 (damped beams)

---
 geotecha/speccon/integrals.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index 610348b..284ab6a 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -3210,8 +3210,11 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
         sin = math.sin
         cos = math.cos
         exp = math.exp
+        if np.iscomplexobj(eigs):
+            #math.exp does not accept complex numbers
+            exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=np.result_type(eigs, float))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3756,7 +3759,8 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
                         2*omega**2*loadtim[k + 1]/(dT*eig) + 2*omega**2*loadtim[k]/(dT*eig) -
                         omega**4*loadtim[k + 1]/(dT**3*eig**3) +
                         omega**4*loadtim[k]/(dT**3*eig**3))**(-1)*loadmag[k]/(dT**2*eig**2))/(dT*eig))
-    elif implementation == 'fortran':
+    elif implementation == 'fortran' and not np.iscomplexobj(eigs):
+        #note that eload_coslinear is for real eigs only.
         #note than all fortran subroutines are lowercase.
         if MUST_TRY_FORTRAN:
             from geotecha.speccon.ext_integrals import eload_coslinear as fn
@@ -3771,7 +3775,7 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=np.result_type(eigs, float))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
-- 
2.43.0


From daa0caf736ddbaf63ba73b65249fdac203ed49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 73/93] fix: reverse_curve_transition with integer x truncated
 the transition to integers

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index f94507d..66a1877 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -9015,7 +9015,7 @@ def reverse_curve_transition(x, x1, y1, x2, y2):
     """
 
     x = np.atleast_1d(x)
-    y = np.empty_like(x)
+    y = np.empty(x.shape, dtype=float)
 
     if y1 == y2:
         #no transition --> horizontal line
-- 
2.43.0


From 9d0517c2cfbff04e6a3b86ffdebdec3b702d7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 74/93] fix: tanhtran ignored the transition centre a

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 66a1877..d1f2c3e 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8540,7 +8540,7 @@ def tanhtran(x, a, b):
     tanhtranib : get smoothing factor from speccific x,y
 
     """
-    return 0.5+0.5*np.tanh((x-0.5)/b)
+    return 0.5+0.5*np.tanh((x-a)/b)
 
 
 def tanhtrani(y, a, b):
-- 
2.43.0


From c99152cf218949b0500c9377d3d2d349e8f962ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 75/93] fix: MovingPointLoads positions: point_loads_on_beam
 and the PolyLine plot ignored t0, wrong x0 for v<0, and each call overwrote
 the arrays returned before

---
 geotecha/beam_on_foundation/specbeam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index d1f2c3e..1e75446 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1696,14 +1696,14 @@ class MovingPointLoads(object):
         """
 
         if self.v >= 0:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.x0)
+            xnow = self.axle_positions(t=t, v0=self.v, t0=self.t0, x0=self.x0)
         else:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.L)
+            xnow = self.axle_positions(t=t, v0=self.v, t0=self.t0, x0=self.L + self.x0)
 
         self.pnow[:] = self.p
 
         self.pnow[((t< self.start_time) | (t>self.end_time))] = 0
-        return self.xnow, self.pnow
+        return xnow, self.pnow.copy()
 
 
     def convert_to_specbeam(self, v=None, L=None, t0=None, x0=None):
@@ -1824,7 +1824,7 @@ class MovingPointLoads(object):
 
         """
 
-        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=0, x0=x0)
+        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
 
         if ax is None:
             fig, ax = plt.subplots()
@@ -1874,7 +1874,7 @@ class MovingPointLoads(object):
 
         self.xnow+= x0 + v0*(t-t0)
 
-        return self.xnow
+        return self.xnow.copy()
 
     def plotme(self, ax=None,t=0, v0=0, t0=0, x0=0, xlim=None, ylim=None):
         """Plot the load at time t
-- 
2.43.0


From 65c1bc4f9b1d6b657ffc8c1ba299327e8db7b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 76/93] fix: animateme(norm=False) drew the stationary loads
 from normalised values

---
 geotecha/beam_on_foundation/specbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 1e75446..ebac2a2 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1312,9 +1312,9 @@ class SpecBeam(object):
             if self.has_moving_loads:
                 moving_loads = self.moving_loads
             if self.has_stationary_loads:
-                stationary_loads_x = self.stationary_loads_x_norm
-                stationary_loads_vs_t = self.stationary_loads_vs_t_norm
-                stationary_loads_omega_phase = self.stationary_loads_omega_phase_norm
+                stationary_loads_x = self.stationary_loads_x
+                stationary_loads_vs_t = self.stationary_loads_vs_t
+                stationary_loads_omega_phase = self.stationary_loads_omega_phase
             ax.set_xlabel("x")
             ax.set_ylabel("w")
             ax2.set_ylabel("Fz")
-- 
2.43.0


From 01fbd90b28bb5ad951181592ca4395e2c702432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 77/93] fix: infinite beam deflections larger than one kept a
 spurious imaginary part

---
 geotecha/beam_on_foundation/specbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index ebac2a2..36d71fb 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1127,7 +1127,8 @@ class SpecBeam(object):
         self.defl_norm = np.atleast_2d(self.defl_norm)
 
         #check if complex part is small
-        if np.allclose(np.imag(self.defl_norm),0,atol=1e-12):
+        if np.allclose(np.imag(self.defl_norm), 0,
+                       atol=1e-12 * max(1, np.max(np.abs(self.defl_norm)))):
             self.defl_norm = np.real(self.defl_norm)
         else:
             raise ValueError('Imaginary parts of self.defl are > 1e-12')
-- 
2.43.0


From 391f624fa19f8c3044886e4abf54446e20a30d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 78/93] fix: phase of normalised stationary loads was scaled as
 if a load magnitude; nquad=None and the k3 of a varying nonlinear foundation
 were mishandled

---
 geotecha/beam_on_foundation/specbeam.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 36d71fb..327f744 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -598,7 +598,7 @@ class SpecBeam(object):
                 else:
                     #only omega is effected, phase remains unchanged
                     self.stationary_loads_omega_phase_norm = (
-                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1]/ (self.E * self.A))
+                        [(v[0] * self.L / np.sqrt(self.E / self.rho), v[1])
                             if not v is None else None for v in self.stationary_loads_omega_phase])
 
 
@@ -752,9 +752,6 @@ class SpecBeam(object):
 
 #TODO: this is where the moving loads need to go
 #            self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
-            if tnow>0:
-                np.random.rand()
-
             if self.has_moving_loads:
                 for mvl in self.moving_loads_norm:
                     mvl_x, mvl_p = mvl.point_loads_on_beam(t=tnow)
@@ -771,14 +768,13 @@ class SpecBeam(object):
                     else:
                         omega,phase = omega_phase
                         self.vsvdot[self.nterms + i] += self.BC_coeff * mag*np.sin(x*self.beta[i])*np.cos(omega*tnow+phase)
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
 
 
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.k3barj * self.phi(self.xj, self.beta[i]))
             else:
-                raise ValueError("Haven't checked this yet")
                 # scipy
 #                print("yquad = {:12.2g}".format(y))
                 y, err = integrate.quad(self.w_cubed_wi, 0, 1, args=(q,i))
@@ -793,7 +789,8 @@ class SpecBeam(object):
     def w_cubed_wi(self, x, q, i):
         """Non-linear cube term for numerical integration"""
 
-        return self.w(q, x)**3 * self.phi(x, self.beta[i])
+        k3 = pwise.pinterp_x_y(self.k3bar, x)[0]
+        return k3 * self.w(q, x)**3 * self.phi(x, self.beta[i])
 
 
     def calulate_qk(self, t=None, t_norm=None, **odeint_kwargs):
@@ -856,7 +853,8 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k1bar, self.xj)
+        if not self.nquad is None:
+            self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
@@ -890,7 +888,7 @@ class SpecBeam(object):
 
         x_norm = np.atleast_1d(x_norm)
 
-        v = np.zeros((len(x_norm), len(self.tvals_norm[tslice])))
+        v = np.zeros((len(x_norm), len(self.qsol[tslice])))
 
         for i, xx in enumerate(x_norm):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
-- 
2.43.0


From 64443b8dc957792ae241d4d256ed79743f3716f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 79/93] fix: moving_loads ignored their own L and x0

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 327f744..8710f52 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -545,13 +545,16 @@ class SpecBeam(object):
                                                        offset=offv,
                                                        v=vv,
                                                        t0=t0v,
-                                                       L=self.L)
-                                        for xv,pv,offv,vv,t0v in
+                                                       L=Lv,
+                                                       x0=x0v)
+                                        for xv,pv,offv,vv,t0v,Lv,x0v in
                                         zip(self.moving_loads_x,
                                             self.moving_loads_Fz,
                                             self.moving_loads_offset,
                                             self.moving_loads_v,
-                                            self.moving_loads_t0)]
+                                            self.moving_loads_t0,
+                                            self.moving_loads_L,
+                                            self.moving_loads_x0)]
 
 
 
-- 
2.43.0


From 2614a6336c8d5b3d62c609734ce3ccb5db340d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 80/93] fix: k3=0 alone was refused with use_analytical

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 8710f52..8c4a867 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -443,7 +443,7 @@ class SpecBeam(object):
             self.k3_norm=0
 
         if (((self.BC.upper() in ["CC","FF"]) or
-            (sum([v==0 for v in [self.k3, self.k3_norm]]) != 2))
+            any([not v is None and v != 0 for v in [self.k3, self.k3_norm]]))
             and self.use_analytical):
             raise ValueError ("If use_analytical=True, cannot have BC='CC, BC='FF', or either k3!=None or k3_norm!=None")
 
-- 
2.43.0


From 251e3fa53886893c84860456a8dcc64868488c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 81/93] fix: numerical SpecBeam solution depended on the output
 times: not at rest at t=0 and loads stepped over

---
 geotecha/beam_on_foundation/specbeam.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 8c4a867..4620f5a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -827,11 +827,27 @@ class SpecBeam(object):
 
         self.time_independant_matrices()
 
+        # the beam is at rest at t=0 whether or not that is an output time
+        t_out = np.atleast_1d(self.t_norm)
+        t_ode = np.insert(t_out, 0, 0.0) if t_out[0] > 0 else t_out
+
+        # steps longer than this could pass right over a load
+        durations = []
+        if self.has_moving_loads:
+            durations += [mvl.L / abs(mvl.v) for mvl in self.moving_loads_norm]
+        if self.has_stationary_loads:
+            for mag_vs_time in self.stationary_loads_vs_t_norm:
+                dt = np.diff(mag_vs_time.x)
+                durations += list(dt[dt > 0])
+        if durations:
+            odeint_kwargs.setdefault('hmax', min(durations) / 20)
+        odeint_kwargs.setdefault('mxstep', 1000000)
+
         self.qsol = odeint(self.vectorfield,
                       vsv0,
-                      self.t_norm,
+                      t_ode,
                       args=(),
-                      **odeint_kwargs)
+                      **odeint_kwargs)[-len(t_out):]
 
     def time_independant_matrices(self):
         """Make all time independent matrices"""
-- 
2.43.0


From 5b9f9016faa20bb124545361d670c579074f0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 82/93] fix: DingEtAl2012: quadrature points out of order for
 clamped and free beams, load kept acting past the beam end, response depended
 on output times, nquad=None failed, normalise_w=False returned normalised
 values

---
 geotecha/beam_on_foundation/dingetal2012.py | 28 ++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index b0cce9d..2bba8eb 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -211,11 +211,11 @@ class DingEtAl2012(object):
             self.beta = find_n_roots(_f, n=self.nterms, x0=0.001, dx=3.14159 / 10, p=1.1)
             
             if not self.nquad is None:
-                self.xj = 0.5*(1 - np.cos(np.pi * np.arange(self.nquad)/(self.nquad - 3)))
+                self.xj = 0.5*(1 - np.cos(np.pi * (np.arange(self.nquad) - 1)/(self.nquad - 3)))
                 self.xj[0] = 0
                 self.xj[1] = 0.0001
-                self.xj[-2] = 0.0001
-                self.xj[-1] = 0
+                self.xj[-2] = 1 - 0.0001
+                self.xj[-1] = 1
             
             self.BC_coeff = 1 # Coefficeint to multiply Fz(vt) and k3*Integral terms by
             if self.BC == "CC":
@@ -316,10 +316,12 @@ class DingEtAl2012(object):
 
             self.vsvdot[self.nterms + i] -= (self.k1_norm + self.kf**2 * self.beta[i]**4) * q[i]
 
-            self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
+            # there is no load once it is past the ends of the beam
+            if 0 <= self.v_norm * tnow <= 1:
+                self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.phi(self.xj, self.beta[i]))
@@ -368,11 +370,19 @@ class DingEtAl2012(object):
         
         vsv0 = np.zeros(2*self.nterms) # initial conditions
 
+        # the beam is at rest at t=0 whether or not that is an output time
+        t_out = np.atleast_1d(self.t_norm)
+        t_ode = np.insert(t_out, 0, 0.0) if t_out[0] > 0 else t_out
+
+        # longer steps could pass right over the load
+        odeint_kwargs.setdefault('hmax', 1 / abs(self.v_norm) / 20 if self.v_norm else 0.0)
+        odeint_kwargs.setdefault('mxstep', 1000000)
+
         self.qsol = odeint(self.vectorfield,
                       vsv0,
-                      self.t_norm,
+                      t_ode,
                       args=(),
-                      **odeint_kwargs)
+                      **odeint_kwargs)[-len(t_out):]
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
@@ -406,13 +416,13 @@ class DingEtAl2012(object):
 
         x_norm = np.atleast_1d(x_norm)
         
-        v = np.zeros((len(x_norm), len(self.t_norm[tslice])))
+        v = np.zeros((len(x_norm), len(self.qsol[tslice])))
 
         for i, xx in enumerate(x_norm):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
                 v[i, j] = self.w(qq, xx)
         
-        if not normalise_w is None:
+        if not normalise_w:
             v *= self.L
             
         if len(x_norm)==1:
-- 
2.43.0


From ec0c54f953c64811c5135d02c9623cdf3d0c9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 83/93] fix: luetal2010 divided by zero when kv=kvc (its
 defaults)

---
 geotecha/consolidation/luetal2010.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index 6515481..464b25e 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -129,14 +129,12 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
 
     betm = betm_numer / betm_denom
 
+    # pors-porc is proportional to how fast pore water leaves the soil other
+    # than vertically.  (kv=kvc is fine in this form)
     C = re**2 * mu0 / 2 / kh
     C += rc**2 * (n**2 - 1)/ 8 / khc
-    C *= gamw * ((n**2 - 1)*kvc + kv) * mvs
-    C /= (n**2 - 1 + Y) * (kvc - kv)
-
-    D = re**2 * mu0 / 2 / kh
-    D += rc**2 * (n**2 - 1)/ 8 / khc
-    D *= kv * kvc / (kvc - kv)
+    D = C * kv
+    C *= gamw * mvs * n**2 / (n**2 - 1 + Y)
 
     minus1 = np.ones_like(M)
     minus1[1::2] = -1
@@ -146,11 +144,10 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
             np.sin(M[None, None, :] * z[:, None, None]/H) *
             np.exp(-betm[None, None, :] * t[None, :, None]))
 
-    pors = por * (1 + (C * H**2 * betm[None, None, :] - D * M[None, None, :]**2) /
-            (H**2 * (n**2 - 1)))
+    pors = por * ((n**2 + C * betm[None, None, :]) /
+            (n**2 + D * M[None, None, :]**2 / H**2))
 
-    porc = por * (1 - C * betm[None, None, :]
-                    + D * M[None, None, :]**2 / H**2)
+    porc = n**2 * por - (n**2 - 1) * pors
 
     por = np.sum(por, axis=2)
     pors = np.sum(pors, axis=2)
-- 
2.43.0


From 42055f53b5380802d5265b1ff387e5565e80df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 84/93] fix: cosenzaandkorosak2014 ignored L, kv, mv, gamw and
 tpor, and pore pressures and degree of consolidation did not agree (wrong
 eigenvalues, half the initial pressure)

---
 .../consolidation/cosenzaandkorosak2014.py    | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 8065f0c..f955921 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -99,8 +99,9 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Parameter in [1]_.
     tpor : float or 1d array/list of float
         Time values for pore pressure vs depth calcs.
+        Default tpor=None i.e. use `t`.
     L : float, optional
-        Drainage path length.  Default H = 1.
+        Drainage path length.  Default L = 1.
     kv : float, optional
         Vertical coefficient of permeability.  Default kv = 1.
     mv : float, optional
@@ -115,12 +116,10 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     Returns
     -------
     por : 2d array of float
-        Pore pressure at depth and time.  ppress is an array of size
-        (len(z), len(t)).
-    avp : 1d array of float
-        Average pore pressure between depth H and depth Z.
-    settlement : 1d array of float
-        Surface settlement at depth z.
+        Pore pressure at depth and time.  por is an array of size
+        (len(z), len(tpor)).
+    doc : 1d array of float
+        Degree of consolidation at times `t`.
 
     Notes
     -----
@@ -165,10 +164,10 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     if tpor is None:
         tpor=t
     else:
-        tpor = np.atleast_1d(t)
+        tpor = np.atleast_1d(tpor)
 
 
-    M = ((2 * np.arange(nterms) + 1) * np.pi)
+    M = ((2 * np.arange(nterms) + 1) / 2 * np.pi)
 
 #    an = 2 / M
 
@@ -184,10 +183,10 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     a = Talbot(F, n=24, shift=0.0)
 
     Bn = np.zeros((len(tpor), nterms), dtype=float)
-    for j, lam in enumerate(M):
-        Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
+    for j, lam in enumerate(lamda_n):
+        Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
-    if np.allclose(tpor, t): #reuse Bn for Doc
+    if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
@@ -196,13 +195,13 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     por = np.sum(An*Bn, axis=2)*ui
 
     #degree of consolidation
-    An = 2*2**2/M[np.newaxis, :]**2
-    if np.allclose(tpor, t):
+    An = 2/M[np.newaxis, :]**2
+    if np.array_equal(tpor, t):
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-        for j, lam in enumerate(M):
-            Bn[:, j] = np.array(a(t, args=(v, theta, M[j])), dtype=float)
+        for j, lam in enumerate(lamda_n):
+            Bn[:, j] = np.array(a(t, args=(v, theta, lam)), dtype=float)
 
     doc = 1 - np.sum(An*Bn, axis = 1)
 
-- 
2.43.0


From a862d9222cf9d3b31c6b689fd35c24cf19355849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 85/93] fix: shanetal2012 failed for scalar or list depths and
 times

---
 geotecha/consolidation/shanetal2012.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 6d53f06..0cb5be2 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -178,14 +178,15 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         Ditionary describing a loading function. Default f=None i.e. no load
         e.g.
         f = {'type': 'exp', 'q0': 100, 'b': 0.00005} is a load described by
-        q(t) = q0 * exp[-b * t].
+        q(t) = q0 * (1 - exp[-b * t]).
         f = {'type': 'sin', 'q0': 100, 'omega': 2*np.pi/1e8} is a load
         described by q(t) = q0 * sin(omega*t).
     f1, f2 : dict, optional
         dict describing loading function for uwtop and uatop.
         Default f1=f2==None i.e. no load.
     f3, f4 : dict, optional
-        dict describing loading function for uwbot and uabot.
+        dict describing loading function for uwbot and uabot (drn=0), or
+        for the gradient of uw and ua with depth at the bottom (drn=1).
         Default f3=f4==None i.e. no load.
 
 
@@ -230,6 +231,9 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         return (-(q0*(-omega*exp(eigs*M**2*t)+eigs*M**2*sin(omega*t)+
                 omega*cos(omega*t)))/(eigs**2*M**4+omega**2))
 
+    z = np.atleast_1d(z)
+    t = np.atleast_1d(t)
+
     permitted_loads = ['exp', 'sin']
     permitted_parameters={'exp': ['q0','b'],
                           'sin': ['q0', 'omega']}
-- 
2.43.0


From a53e5f0472baca9aeb2e635cf36ad9e4eb6fae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 86/93] fix: XieAndLeo2004 water velocities did not satisfy
 continuity (sign with an impermeable base, half the soil velocity with two
 drained faces)

---
 geotecha/consolidation/xieandleo2004.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 09e72c3..0f50a70 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -792,7 +792,8 @@ class XieAndLeo2004(object):
         f = np.cos(M * a) * np.exp(-M**2 * Tv)
         f = np.sum(f, axis=2)
         f *= 1 - np.exp(-mvl * qu)
-        f *= 2 * cv0 / H
+        # impermeable base so water moves up (negative) as soil moves down
+        f *= -2 * cv0 / H
         f /=e
 
         return f
@@ -837,7 +838,7 @@ class XieAndLeo2004(object):
         f2 = (1 + np.cos(2 * M * a)) * np.exp(-4 * M**2 * Tv)
         f2 = np.sum(f2, axis=2)
         f2 *= 1 - np.exp(-mvl * qu)
-        f2 *= 2 * cv0/H
+        f2 *= 4 * cv0/H
         f2 /=e
 
         return f1-f2
-- 
2.43.0


From 3fedac1e0709ec1a253fa0f9800f51148cd9373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 87/93] fix: XieAndLeo2004 effective_stress_* and
 total_stress_* used an undefined name

---
 geotecha/consolidation/xieandleo2004.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 0f50a70..fea65c4 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -495,7 +495,7 @@ class XieAndLeo2004(object):
         u = self.u_PTIB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -519,7 +519,7 @@ class XieAndLeo2004(object):
         u = self.u_PTPB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -546,7 +546,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
@@ -573,7 +573,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
-- 
2.43.0


From 2086be051b1c812b17aac408af6b0b71d4187de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 88/93] fix: dengetal2013/dengetal2014 gave nan at the top
 (z=0), where A2=A1 at the base and for A3=0 (the default), and None for A2<0

---
 geotecha/consolidation/dengetal2013and2014.py | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 089da9d..da87e10 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -24,6 +24,7 @@ from __future__ import print_function, division
 import numpy as np
 from matplotlib import pyplot as plt
 
+import scipy.special as special
 import geotecha.consolidation.smear_zones as smear_zones
 
 def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
@@ -98,7 +99,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     """
 
 
-    if A1 < 0:
+    if A1 <= 0:
         raise ValueError("A1 must be greater than 0.  "
                          "You have A1={}".format(A1))
     if A2 > A1:
@@ -130,9 +131,9 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         por = ui * np.exp(-8 * Th[None, :] / mus[:, None])
         return por
 
-    if A3 == 0 and A2 > 0:
+    if A3 == 0 and A2 != 0:
         # qw varies with depth
-        mu1 = A2 * z / H + (A1 - A2)*np.log(1 - A2 / A1 * z / H)
+        mu1 = A2 * z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
         mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
         mu1 += mu0
         por = ui * np.exp(-8 * Th[None, :] / mu1[:, None])
@@ -141,18 +142,19 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     if A3 > 0 and A2 == 0:
         # qw varies with time
         a3 = A3 * 4 * re**2 / ch
-        alp0 = qw0 * A1 * mu0 / (np.pi * kh * (2*H*z - z**2))
-        por = (ui * ((1+alp0[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp0[:, None])) ** (8/(a3 * mu0)))
+        # inverse of alpha0, so that z=0 (alpha0 is infinite) can be used
+        ialp0 = (np.pi * kh * (2*H*z - z**2)) / (qw0 * A1 * mu0)
+        por = (ui * ((ialp0[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ialp0[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
-    if A3 > 0 and A2 > 0:
+    if A3 > 0 and A2 != 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
-        alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-        alp /= A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
-        por = (ui * ((1+alp[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp[:, None])) ** (8/(a3 * mu0)))
+        ialp = A2* z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
+        ialp /= mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
+        por = (ui * ((ialp[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ialp[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
 
@@ -252,16 +254,18 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     G0 = np.pi * kh * H**2 / 4 / qw0
     M = ((2 * np.arange(nterms) + 1) / 2 * np.pi)
     C0 = M**2*mu0/8/G0 * n**2/ (n**2-1)
-    alp0 = qw0 * mu0 / (np.pi * kh * (2*H*z - z**2))
-
     Th = Th[np.newaxis, :, np.newaxis]
 
     M = M[np.newaxis, np.newaxis, :]
     C0 = C0[np.newaxis, np.newaxis, :]
     Z = (z / H)[:, np.newaxis, np.newaxis]
 
-    por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
-          (1 + C0))**(8 / (a3 * mu0)))
+    if A3 == 0:
+        # constant well resistance
+        por = 2 / M * np.sin(M * Z) * np.exp(-8 * Th / (mu0 * (1 + 1 / C0)))
+    else:
+        por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
+              (1 + C0))**(8 / (a3 * mu0)))
     por = ui * np.sum(por, axis=2)
 
     return por
-- 
2.43.0


From dee738b50ec32d28994071da734659bc17bc4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 89/93] fix: the generated between-routines lacked their 'def'
 and could not be loaded

---
 geotecha/speccon/integrals_generate_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/integrals_generate_code.py b/geotecha/speccon/integrals_generate_code.py
index bd30156..b9b27c6 100644
--- a/geotecha/speccon/integrals_generate_code.py
+++ b/geotecha/speccon/integrals_generate_code.py
@@ -3080,7 +3080,7 @@ def dim1sin_a_linear_between():
     z2_only = z2_only.subs(v.map_to_add_index)
 
 
-    text = """dim1sin_a_linear_between(m, at, ab, zt, zb, z):
+    text = """def dim1sin_a_linear_between(m, at, ab, zt, zb, z):
     #import numpy as np #import this globally
     #import math #import this globally
 
@@ -3287,7 +3287,7 @@ def dim1_ab_linear_between():
 #    return A"""
 
 
-    text = """integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
+    text = """def integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
                                                                y1a, y2a,
                                                                x1b, x2b,
                                                                y1b, y2b,
-- 
2.43.0


From 2e8331624acc52d8bf34d6cb83bd26fce7388ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:02 +0000
Subject: [PATCH 90/93] fix: SpecBeam with force_calc=False returned saved
 deflections of other times or positions than those asked for

---
 geotecha/beam_on_foundation/specbeam.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 4620f5a..0fe0811 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1232,6 +1232,12 @@ class SpecBeam(object):
             x_norm = a[:, 1]
             defl_norm = a[:, 2:]
 
+            for saved, wanted in [(t_norm, self.tvals_norm),
+                                  (x_norm, self.xvals_norm)]:
+                if (len(saved) != np.size(wanted) or
+                        not np.allclose(saved, wanted)):
+                    return False
+
             self.defl_norm = defl_norm
 
             if not self.L is None:
-- 
2.43.0


From 5cc61da1a541d4fba0f5def7cefd8843d4a35143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:46 +0000
Subject: [PATCH 91/93] fix: generated initialisation code did not quote
 strings with quotes, backslashes or newlines

---
 geotecha/inputoutput/inputoutput.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 7d520b8..51a8a62 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1151,7 +1151,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
         for v in attributes:
             v2 = defaults.get(v, not_found_value)
             if isinstance(v2, str):
-                v2 = "'{0}'".format(v2)
+                v2 = repr(v2)
 
             out+='{0} = {1}\n'.format('.'.join([object_name,v]), v2)
     else:
@@ -1159,7 +1159,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
             if v in list(defaults.keys()):
                 v2 = not_found_value
                 if isinstance(v2, str):
-                    v2 = "'{0}'".format(v2)
+                    v2 = repr(v2)
                 out+='{0} = {1}.get({2}, {3})\n'.format('.'.join([object_name, v]),
                     '.'.join([object_name, defaults_name]),
                      "'{}'".format(v),
@@ -1167,7 +1167,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
             else:
                 v2 = not_found_value
                 if isinstance(v2, str):
-                    v2 = "'{0}'".format(v2)
+                    v2 = repr(v2)
                 out+='{0} = {1}\n'.format('.'.join([object_name,v]), v2)
     return out
 
-- 
2.43.0


From 10600a07b5e166574b0418fa30f47b2424d60589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:26 +0000
Subject: [PATCH 92/93] fix: HankelTransform.plot_integrand failed for
 functions without a __name__

---
 geotecha/mathematics/hankel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 37e73b1..f3c6f99 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -248,7 +248,7 @@ class HankelTransform(object):
         ax.plot(x,y, '-')
         ax.plot(zeros, np.zeros_like(zeros), 'ro', ms=5)
 #        ax.plot(x, x*jn(self.order, r*x), label='rJn(r*s)')
-        ax.set_title('$rf(r)J_\\nu(sr)\\,dr)$ at s={:.3g}, f(r) is {}(r, *{})'.format(s, self.func.__name__, self.args))
+        ax.set_title('$rf(r)J_\\nu(sr)\\,dr)$ at s={:.3g}, f(r) is {}(r, *{})'.format(s, getattr(self.func, '__name__', repr(self.func)), self.args))
         ax.set_xlabel('x')
         ax.set_ylabel('y')
         ax.grid()
-- 
2.43.0


From 8386a52bb918e22863970d1bfc2094406ce3a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:05 +0000
Subject: [PATCH 93/93] fix: mu_linear lost all precision for permeability
 ratios close to one

---
 geotecha/consolidation/smear_zones.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 3273f01..1454a82 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -548,6 +548,18 @@ def mu_linear(n, s, kap):
     mu[s_eq_kap] = mu_s_eq_kap(n[s_eq_kap], s[s_eq_kap])
     mu[s_neq_kap] = mu_s_neq_kap(n[s_neq_kap], s[s_neq_kap], kap[s_neq_kap])
 
+    # the closed form loses all precision as kap tends to 1 (terms of order
+    # (kap - 1)**-4 cancel); interpolate across kap=1 from values either side
+    dk = np.minimum(0.01, 0.1 * (s - 1))
+    near = s_neq_kap & (np.abs(kap - 1) < dk)
+    if np.any(near):
+        n_, s_, dk = n[near], s[near], dk[near]
+        below = mu_s_neq_kap(n_, s_, 1 - dk)
+        above = mu_s_neq_kap(n_, s_, 1 + dk)
+        at = mu_ideal(n_)
+        x = (kap[near] - 1) / dk
+        mu[near] = at + x * ((above - below) / 2 + x * ((above + below) / 2 - at))
+
     if is_array:
         return mu
     else:
-- 
2.43.0

