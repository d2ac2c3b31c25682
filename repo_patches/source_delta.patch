From 1a755d434a41c0908caf1dc7d30e6a03ea9e376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 01/80] fix: SGA mutation loops forever when the only spatial
 axis is not named x

Tree.mutate re-drew the leaf under a derivative until it differed from the
current one, but with a single derivative axis there is no other choice; only
an axis literally called 'x' had an exit.
---
 kd/model/sga/sgapde/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..2f3b602 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -121,6 +121,8 @@ class Tree: #对应于pde中的一个term
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
+                            if parent.name in {'d', 'd^2'} and len(context.den) == 1 and node[0] == context.den[0, 0]: # 只有一个可求导的轴时没有其他选择，否则会死循环
+                                break
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
                                     var=node[2], full=node, child_num=int(node[1]), child_st=None)
-- 
2.43.0


From 554a6265d310effe5e3bb5a831f11a694ce476bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 02/80] fix: SGA safe division modifies the divisor array in
 place

The guard added eta to the caller's array: terminals (fields, coordinates)
drifted with every evaluation, integer arrays raised UFuncTypeError and
read-only coordinate grids raised ValueError.
---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..71c1d13 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta
         return up / down
         
     def get_device(self):
-- 
2.43.0


From a26b40451b0083ad030918567c0ea31fa431230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 03/80] fix: SGA fit aborts when a candidate term underflows

A non-zero term whose norm underflows to 0 was scaled by 1/0 in STRidge, so
lstsq received inf/nan and the whole search died with LinAlgError.
---
 kd/model/sga/sgapde/PDE_find.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index 14c0843..e4c37cf 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -166,7 +166,9 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     if normalize != 0:
         Mreg = np.zeros((d, 1))
         for i in range(0, d):
-            Mreg[i] = 1.0 / (np.linalg.norm(X0[:, i], normalize))
+            norm = np.linalg.norm(X0[:, i], normalize)
+            # A column whose norm underflows to zero cannot be normalized; keep it as is.
+            Mreg[i] = 1.0 / norm if norm > np.finfo(float).tiny else 1.0
             X[:, i] = Mreg[i] * X0[:, i]
     else:
         X = X0
-- 
2.43.0


From f65bb1f5f7b703b97ddc695588f0733253a5b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 04/80] fix: KD_SGA with an explicit target_field or lhs_axis
 cannot fit an N-D dataset

The adapter's own value was only popped when the estimator had none, so
SolverConfig received the keyword twice and raised TypeError.
---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..4d3aa0c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        adapter_target_field = solver_kwargs.pop("target_field", None)
+        adapter_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or adapter_target_field or "u"
+        final_lhs_axis = self.lhs_axis or adapter_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 3e25925d2db88a5eb1aa866622069ef849d2b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 05/80] fix: SGA silently drops param_fields of x/t/usol
 datasets

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 0e441062cac7dc2f07ec8db70ebfbe719629b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 06/80] fix: SGA reports every equation as u_t = ... u whatever
 the target field and LHS axis

For target_field='v' or lhs_axis='y' the fitted quantity is v_y and the default
term is v, but both were labelled u_t and u.
---
 kd/model/sga/sgapde/context.py  | 2 +-
 kd/model/sga/sgapde/equation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..941ae12 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1053,7 +1053,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..1176f68 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -40,7 +40,9 @@ class SGAEquationDetails:
 def _infer_lhs_label(config) -> str:
     raw = getattr(config, 'left_side', None)
     if not raw:
-        return 'u_t'
+        field = getattr(config, 'target_field', None) or 'u'
+        axis = getattr(config, 'lhs_axis', None) or 't'
+        return f'{field}_{axis}'
     if isinstance(raw, str) and '=' in raw:
         return raw.split('=', 1)[1].strip() or 'u_t'
     return 'u_t'
-- 
2.43.0


From f49e6d6022d400fc9442d90a8b36db1d1db19f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 07/80] fix: SGA LaTeX misplaces derivatives and powers of
 compound terms

d(u*v, x) was printed as u*v_{x}, (a+b)*(c+d) squared lost its grouping, powers
of powers gave a double superscript and derivatives of leaves such as v_y a
double subscript. Operands that a subscript or power would not bind to as a
whole are now parenthesized, and derivative leaves get a braced subscript.
---
 kd/model/sga/sgapde/equation.py | 47 +++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 1176f68..cd2e9b8 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -264,7 +264,15 @@ def _render_leaf(name: str) -> str:
         'rho': '\\rho',
         'sigma': '\\sigma',
     }
-    return mapping.get(name, name)
+    if name in mapping:
+        return mapping[name]
+    base, sep, sub = name.partition('_')
+    if sep and base and sub and name.replace('_', '').isalnum():
+        # Derivative leaves such as 'v_y': brace the subscript so that further
+        # derivatives can merge into it and multi-letter axes stay together.
+        sub = sub.replace('_', '\\_')
+        return f"{mapping.get(base, base)}_{{{sub}}}"
+    return name
 
 
 def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscript") -> str:
@@ -287,14 +295,14 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var)
-            return merged if merged is not None else f"{operand}_{{{var}}}"
+            return merged if merged is not None else f"{_ensure_atom(operand)}_{{{var}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var + var)
-            return merged if merged is not None else f"{operand}_{{{var}{var}}}"
+            return merged if merged is not None else f"{_ensure_atom(operand)}_{{{var}{var}}}"
         return f"\\frac{{\\partial^{{2}} {operand}}}{{\\partial {var}^{{2}}}}"
     if not children:
         return name
@@ -334,15 +342,44 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
         return None
     existing_sub = operand[idx + 2:close]
     base = operand[:idx]
+    if not (_is_symbol(base) or _is_parenthesized(base)):
+        # The subscript belongs to the last factor only (e.g. u \cdot u_{x}).
+        return None
     return f"{base}_{{{existing_sub}{new_sub}}}"
 
 
+def _is_symbol(expr: str) -> bool:
+    return expr.lstrip('\\').isalnum()
+
+
+def _is_parenthesized(expr: str) -> bool:
+    """True when the first '(' closes at the very last character."""
+    if not (expr.startswith('(') and expr.endswith(')')):
+        return False
+    depth = 0
+    for i, ch in enumerate(expr):
+        if ch == '(':
+            depth += 1
+        elif ch == ')':
+            depth -= 1
+            if depth == 0:
+                return i == len(expr) - 1
+    return False
+
+
+def _ensure_atom(expr: str) -> str:
+    """Group an expression that a subscript would not bind to as a whole."""
+    if _is_symbol(expr) or _is_parenthesized(expr):
+        return expr
+    return f"({expr})"
+
+
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    if _is_parenthesized(expr):
         return expr
     if expr.startswith('\\frac'):
         return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
+    if any(ch in expr for ch in [' ', '+', '-', '^']):
         return f"({expr})"
     return expr
 
-- 
2.43.0


From c82421ef275274fad23af507443260161f550e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 08/80] fix: SGA delete_edges leaves parameter fields uncropped

---
 kd/model/sga/sgapde/context.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 941ae12..a91779b 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -419,6 +419,13 @@ class ProblemContext:
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
 
+        # Parameter fields are terminals on the same grid, so they are cropped with it.
+        param_fields = getattr(self.config, "param_fields", None)
+        if param_fields:
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer] for name, value in param_fields.items()
+            }
+
         # Rebuild the variable registry so fields/coords/axis_map/delta/coord_grids stay in sync.
         self.config.fields_data = new_fields
         self.config.coords_1d = new_coords_1d
-- 
2.43.0


From aa2d7733b07475a9e0899587f9b1f60ca0ecb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 09/80] fix: load_pde_dataset transposes a solution that is
 already (x, t) when nx == nt

---
 kd/dataset/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..7eb3ad1 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -744,7 +744,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape != (len(x_data), len(t_data)) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
-- 
2.43.0


From 379da019e8297bf41e266ffc08b636885674de55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 10/80] fix: PDEDataset.sample(method='spline') uses the
 removed interp2d and pairs values with the wrong points

---
 kd/dataset/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 7eb3ad1..22d382d 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -13,7 +13,7 @@ from pathlib import Path
 from importlib import resources
 from abc import ABC, abstractmethod
 from ._info import DatasetInfo
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 
 
 DATA_MODULE = "kd.dataset.data"
@@ -544,9 +544,9 @@ class PDEDataset(MetaData):
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, self.usol, kind='cubic')
-            usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
+            spline = RectBivariateSpline(self.x, self.t, self.usol)
+            usol_new = spline(x_new, t_new)
+            x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
             sampled_usol = usol_new.flatten()
 
-- 
2.43.0


From a3ee7799eb1ae3dd7175d77b9435437698355594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 11/80] fix: PDEDataset.sample rejects the documented ratio 1.0

---
 kd/dataset/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 22d382d..5ae383d 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -508,7 +508,7 @@ class PDEDataset(MetaData):
         """
         Samples a subset of the data points using different sampling methods.
 
-        :param n_samples: Number of samples to draw. If < 1, treated as a ratio.
+        :param n_samples: Number of samples to draw. A float in (0, 1] is a ratio.
         :param method: Sampling method to use ('random', 'uniform', 'spline').
         :return: A tuple (sampled_points, sampled_usol), where:
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
@@ -516,8 +516,8 @@ class PDEDataset(MetaData):
         """
         total_points = len(self.x) * len(self.t)
         
-        # Convert ratio to absolute count if n_samples is a float < 1
-        if isinstance(n_samples, float) and 0 < n_samples < 1:
+        # Convert ratio to absolute count if n_samples is a float in (0, 1]
+        if isinstance(n_samples, float) and 0 < n_samples <= 1:
             n_samples = int(total_points * n_samples)
 
         if n_samples > total_points:
-- 
2.43.0


From e488cf5f118c9d58fb003d4362e6878bda016f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 12/80] fix: PDEDataset.get_derivative ignores the grid spacing

---
 kd/dataset/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 5ae383d..ce3c852 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -597,9 +597,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self.usol, axis=0)
+            return np.gradient(self.usol, self.x, axis=0)
         elif axis == 't':
-            return np.gradient(self.usol, axis=1)
+            return np.gradient(self.usol, self.t, axis=1)
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
-- 
2.43.0


From 002e68405aeee985fcb50b19f08711032b6825a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 13/80] fix: PDEDataset.get_range drops points on the upper end
 of the range

---
 kd/dataset/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index ce3c852..be544d6 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -611,8 +611,8 @@ class PDEDataset(MetaData):
         :param t_range: Tuple representing the range of t values (min_t, max_t).
         :return: A dictionary containing subsets of x, t, and usol.
         """
-        x_start, x_end = np.searchsorted(self.x, [x_range[0], x_range[1]])
-        t_start, t_end = np.searchsorted(self.t, [t_range[0], t_range[1]])
+        x_start, x_end = np.searchsorted(self.x, x_range[0]), np.searchsorted(self.x, x_range[1], side='right')
+        t_start, t_end = np.searchsorted(self.t, t_range[0]), np.searchsorted(self.t, t_range[1], side='right')
 
         return {'x': self.x[x_start:x_end], 
                 't': self.t[t_start:t_end], 
-- 
2.43.0


From 7709122c345c4c84519f4c6a05ecf53179046953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 14/80] fix: PDEDataset accessors and KD_DLGA pair values with
 the wrong coordinates on ['t', 'x'] grids

---
 kd/dataset/_base.py | 28 +++++++++++++++++++---------
 kd/model/kd_dlga.py |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index be544d6..176602e 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -486,6 +486,12 @@ class PDEDataset(MetaData):
         self.t = coords_1d.get("t")
         self.usol = fields_data[target_field]
 
+    def solution_xt(self) -> np.ndarray:
+        """Returns `usol` with x along the first axis and t along the second."""
+        if self.axis_order == ['t', 'x']:
+            return self.usol.T
+        return self.usol
+
     def get_datapoint(self, x_id: int, t_id: int) -> Tuple[float, float, float]:
         """
         Retrieves the (x, t) coordinates and the corresponding solution value.
@@ -496,7 +502,7 @@ class PDEDataset(MetaData):
         """
         if not (0 <= x_id < len(self.x)) or not (0 <= t_id < len(self.t)):
             raise IndexError("Index out of range.")
-        return self.x[x_id], self.t[t_id], self.usol[x_id, t_id]
+        return self.x[x_id], self.t[t_id], self.solution_xt()[x_id, t_id]
 
     def get_data(self) -> Dict[str, Any]:
         """
@@ -515,6 +521,7 @@ class PDEDataset(MetaData):
                 - sampled_usol is an array of shape (n,) with corresponding solution values
         """
         total_points = len(self.x) * len(self.t)
+        usol = self.solution_xt()
         
         # Convert ratio to absolute count if n_samples is a float in (0, 1]
         if isinstance(n_samples, float) and 0 < n_samples <= 1:
@@ -525,9 +532,9 @@ class PDEDataset(MetaData):
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-            x_samples, t_samples = np.unravel_index(indices, self.usol.shape)
+            x_samples, t_samples = np.unravel_index(indices, usol.shape)
             sampled_points = np.column_stack((self.x[x_samples], self.t[t_samples]))
-            sampled_usol = self.usol[x_samples, t_samples]
+            sampled_usol = usol[x_samples, t_samples]
 
         elif method == 'uniform':
             grid_size = int(np.sqrt(n_samples))
@@ -538,13 +545,13 @@ class PDEDataset(MetaData):
                 self.x[x_samples.flatten()],
                 self.t[t_samples.flatten()]
             ))
-            sampled_usol = self.usol[x_samples.flatten(), t_samples.flatten()]
+            sampled_usol = usol[x_samples.flatten(), t_samples.flatten()]
 
         elif method == 'spline':
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = RectBivariateSpline(self.x, self.t, self.usol)
+            spline = RectBivariateSpline(self.x, self.t, usol)
             usol_new = spline(x_new, t_new)
             x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
@@ -589,6 +596,9 @@ class PDEDataset(MetaData):
         """ Retrieves the domain definition. """
         return self.domain
 
+    def _axis_index(self, axis: str, default: int) -> int:
+        return self.axis_order.index(axis) if self.axis_order else default
+
     def get_derivative(self, axis: str = 'x') -> np.ndarray:
         """
         Computes the derivative of `usol` along the spatial or temporal axis.
@@ -597,9 +607,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self.usol, self.x, axis=0)
+            return np.gradient(self.usol, self.x, axis=self._axis_index('x', 0))
         elif axis == 't':
-            return np.gradient(self.usol, self.t, axis=1)
+            return np.gradient(self.usol, self.t, axis=self._axis_index('t', 1))
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
@@ -616,7 +626,7 @@ class PDEDataset(MetaData):
 
         return {'x': self.x[x_start:x_end], 
                 't': self.t[t_start:t_end], 
-                'usol': self.usol[x_start:x_end, t_start:t_end]}
+                'usol': self.solution_xt()[x_start:x_end, t_start:t_end]}
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
@@ -627,7 +637,7 @@ class PDEDataset(MetaData):
         Generates a heatmap visualization of the solution `usol` over (x, t) dimensions.
         """
         plt.figure(figsize=(8, 6))
-        plt.imshow(self.usol, aspect='auto', origin='lower',
+        plt.imshow(self.solution_xt(), aspect='auto', origin='lower',
                    extent=[self.t.min(), self.t.max(), self.x.min(), self.x.max()])
         plt.colorbar(label='Solution u(x, t)')
         plt.xlabel('Time (t)')
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..0b32ab7 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -308,7 +308,7 @@ class KD_DLGA(DLGA):
         if Xy_from == "mesh" or sample is None:
             # 使用完整网格上的所有点
             X = dataset.mesh()
-            y = dataset.usol.reshape(-1, 1)
+            y = dataset.solution_xt().reshape(-1, 1)
         else:
             # 通过 PDEDataset.sample 抽取训练点
             X, y = dataset.sample(n_samples=sample, method=sample_method)
-- 
2.43.0


From 8ffcce3578300b48cb91ae9eac57cf3c4919848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 15/80] fix: runner transposes an uploaded solution that is
 already (x, t) when nx == nt

---
 kd/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/runner.py b/kd/runner.py
index 5555677..8deb709 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -51,7 +51,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
-- 
2.43.0


From 7bd1deab51678f26372913c6836762eb591ab109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 16/80] fix: runner scrambles an uploaded .npy solution stored
 as (nt, nx)

---
 kd/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/runner.py b/kd/runner.py
index 8deb709..d6d33b5 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -61,6 +61,8 @@ def load_dataset(config):
             if not shape:
                 raise ValueError(".npy files require 'shape' in file_config, e.g. [100, 201]")
             nx, nt = shape
+            if data.shape != (nx, nt) and data.shape == (nt, nx):
+                data = data.T
             domain = file_config.get("domain")
             x_range = domain["x"] if domain and "x" in domain else (0, 1)
             t_range = domain["t"] if domain and "t" in domain else (0, 1)
-- 
2.43.0


From 3c75f6c01ba723c85bc287901efdc6076b878f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 17/80] fix: DLGA training shuffles the caller's arrays and
 scrambles the dataset in place

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..566d536 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -118,7 +118,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies: the caller's arrays may be views of its dataset
+        X, y = np.array(X), np.array(y)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From eb937aaa8a804b7234333dd11d0a79f147a14768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 18/80] fix: DLGA crossover uses the number of generations as
 the population size

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 566d536..6d4e6a7 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -325,7 +325,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
-- 
2.43.0


From d7020d94ff71f98e088bc99c6c88f1910e642fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 19/80] fix: DLGA LaTeX ignores the operator list and prints
 the wrong terms

---
 kd/viz/dlga_eq2latex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..464b9ce 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,10 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # names used by KD_DLGA's operator list and by the fitted left-hand side
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +174,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +182,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name,
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From e473c21dd207b84ab6baebb2384518e23204599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 20/80] fix: KD_DLGA silently drops unknown operators and
 shifts the gene indices

---
 kd/model/kd_dlga.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 0b32ab7..9815d67 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -15,7 +15,12 @@ class KD_DLGA(DLGA):
     with KD's dataset and visualization utilities.
     """
 
+    AVAILABLE_OPERATORS = ('u', 'u_x', 'u_t', 'u_xx', 'u_xxx', 'u_tt')
+
     def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
+        unknown = [op for op in operators if op not in self.AVAILABLE_OPERATORS]
+        if unknown:
+            raise ValueError(f"Unknown operators {unknown}. Available: {list(self.AVAILABLE_OPERATORS)}")
         self.user_operators = operators
         self.library_size = len(operators)
         self.verbose = verbose
-- 
2.43.0


From 416825eea2d5033aef49004a77ba0307536c4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 21/80] fix: DLGA selection keeps aliases of one individual
 when fitness values tie

---
 kd/model/dlga.py    | 4 ++--
 kd/model/kd_dlga.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 6d4e6a7..a664993 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -396,8 +396,8 @@ class DLGA(BaseGa):
             coef_list.append(coef)
             name_list.append(name)
         # Select best 50% individuals
-        re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
+        re1 = heapq.nsmallest(
+            int(size_pop / 2), range(len(fitness_list)), key=fitness_list.__getitem__
         )
 
         for index in re1:
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 9815d67..741cf3f 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -193,7 +193,7 @@ class KD_DLGA(DLGA):
         num_to_keep = int(size_pop / 2)
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
-        re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
+        re1 = heapq.nsmallest(num_to_keep, range(len(fitness_list)), key=fitness_list.__getitem__)
         for index in re1:
             new_Chrom.append(Chrom[index])
             new_fitness.append(fitness_list[index])
-- 
2.43.0


From c031bca163a19e693ea5cf69a3f6686bf22c10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 22/80] fix: DLGA validation error is wrong for one-dimensional
 targets

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index a664993..3cbd357 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -119,7 +119,7 @@ class DLGA(BaseGa):
             tuple: (trained network, best epoch)
         """
         # Shuffle copies: the caller's arrays may be views of its dataset
-        X, y = np.array(X), np.array(y)
+        X, y = np.array(X), np.array(y).reshape(-1, 1)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From 407daf966eb41cd26bc93cca580bd636821bb38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 23/80] fix: DLGA selection shrinks an odd population

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 3cbd357..b8f596d 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -406,7 +406,7 @@ class DLGA(BaseGa):
             new_coef.append(coef_list[index])
             new_name.append(name_list[index])
         # Fill the rest with new random individuals
-        for _ in range(int(size_pop / 2)):
+        for _ in range(size_pop - len(new_Chrom)):
             new = DLGA.random_genome(self)
             new_Chrom.append(new)
 
-- 
2.43.0


From 4d6550b79fb1b29b85acb7b631388c59aeae0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 24/80] fix: KD_Discover cannot be given a config_out
 dictionary

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From b42d444dfdebce16efa9d875cd0bd6d2c34b35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 25/80] fix: KD_Discover loses its priors the second time a
 model is set up

---
 kd/model/discover/dso/prior.py     | 2 ++
 kd/model/discover/state_manager.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..cd32267 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -41,6 +41,7 @@ def make_prior(library, config_prior):
         
     }
     # import pdb;pdb.set_trace()
+    config_prior = dict(config_prior)
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
@@ -57,6 +58,7 @@ def make_prior(library, config_prior):
         for single_prior_args in prior_args:
             # Attempt to build the Prior. Any Prior can fail if it references a
             # Token not in the Library.
+            single_prior_args = dict(single_prior_args)
             prior_is_enabled = single_prior_args.pop('on', False)
             if prior_is_enabled:
                 try:
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..7802ab3 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -71,6 +71,7 @@ def make_state_manager(config):
         config = {}
 
     # Use HierarchicalStateManager by default
+    config = dict(config)
     manager_type = config.pop("type", "hierarchical")
 
     manager_class = manager_dict[manager_type]
-- 
2.43.0


From f0588498acf3bc9f78765b739454518e5f48a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 26/80] fix: KD_Discover draws its controller weights before it
 is seeded

---
 kd/model/kd_discover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..148356b 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -118,6 +118,9 @@ class KD_Discover(BaseRL):
         """
         # Clear the cache and reset the compute graph
         Program.clear_cache()
+
+        # Seed before the controller draws its initial weights.
+        self.set_seeds(self.seed)
                 
         # initialize
         self.set_task()
-- 
2.43.0


From 95621bc9f27cb23bacf53f433bb8d2e299d4ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 27/80] fix: Discover samples with the RNN reset at every token

---
 kd/model/discover/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index 845a05e..3a27f4c 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -388,7 +388,7 @@ class Controller(object):
             
             (output, cell_state) = self.cell(next_input, state)
             time = time + 1
-            (finished, next_input, next_state, emit, loop_state) = self.loop_fn(time, \
+            (finished, next_input, state, emit, loop_state) = self.loop_fn(time, \
                 cell_output=output, cell_state=cell_state, loop_state=loop_state)
 
         actions_ta, obs_ta, priors_ta, next_obs, next_prior, next_lengths, next_finished =loop_state
-- 
2.43.0


From 0f9c1e7ee234e8e4c369aaaaec6e8dbde3a649c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 28/80] fix: KD_Discover nests its output path on every import

---
 kd/model/kd_discover.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 148356b..6c37e32 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -97,6 +97,7 @@ class KD_Discover(BaseRL):
         self.n_samples_per_batch = n_samples_per_batch
         self.operator = binary_operators + unary_operators
         self.out_path = out_path
+        self.out_file_ = None
          
         self.dataset = None
         self.seed = seed
@@ -148,10 +149,7 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_output_file(dataset)
         self.setup()
 
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
@@ -184,15 +182,21 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_output_file(resolved_name)
 
         self.setup()
         return self
 
+    def _set_output_file(self, dataset_name) -> None:
+        """Name the output file; an earlier dataset's file name is replaced."""
+        if self.out_path is None:
+            return
+        if self.out_path != self.out_file_:
+            self.out_dir_ = self.out_path
+        self.out_path = self.out_file_ = os.path.join(
+            self.out_dir_, f"discover_{dataset_name}_{self.seed}.csv"
+        )
+
     def make_outter_data(self, x, y, domains, data_type):
         """Create data handler for external data.
         
@@ -556,11 +560,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_output_file(resolved_name)
 
         self.setup()
         return self
@@ -664,7 +664,7 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
+            self.out_path = self.out_file_ = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From 237530a3ea9f1a93da185ce5e3c51b4d0e54eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 29/80] fix: KD_Discover models have no readable parameters

---
 kd/model/kd_discover.py            | 20 ++++++++++++++++++++
 kd/model/kd_discover_regression.py |  1 +
 2 files changed, 21 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 6c37e32..9491ae6 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -95,6 +95,8 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
+        self.binary_operators = binary_operators
+        self.unary_operators = unary_operators
         self.operator = binary_operators + unary_operators
         self.out_path = out_path
         self.out_file_ = None
@@ -103,8 +105,25 @@ class KD_Discover(BaseRL):
         self.seed = seed
         self.core_num = core_num
         self.base_config_file = "./discover/config/config_pde.json"
+        self.config_out = config_out
         self.set_config(config_out)
 
+    @classmethod
+    def _get_param_names(cls):
+        """Parameter names; subclasses forward theirs to this constructor."""
+        if cls.__init__ is KD_Discover.__init__:
+            return super()._get_param_names()
+        return KD_Discover._get_param_names()
+
+    def set_params(self, **params):
+        """Set parameters, refreshing what the constructor derives from them."""
+        super().set_params(**params)
+        if 'binary_operators' in params or 'unary_operators' in params:
+            self.operator = self.binary_operators + self.unary_operators
+        if 'config_out' in params:
+            self.set_config(self.config_out)
+        return self
+
     def setup(self):
         """Setup model components.
         
@@ -490,6 +509,7 @@ class KD_Discover_SPR(KD_Discover):
         """
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_pde_pinn.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.is_realtime = False
 
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..5b0aa5a 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -30,6 +30,7 @@ class KD_Discover_Regression(KD_Discover):
     def __init__(self, *args, config_out=None, **kwargs):
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_regression.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
-- 
2.43.0


From aabddd70da4504a1ec8f55de37ba197c5f3f76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 30/80] fix: Discover's controller is trained without the
 rewards

---
 kd/model/discover/config/config_pde.json        | 2 +-
 kd/model/discover/config/config_regression.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/config/config_pde.json b/kd/model/discover/config/config_pde.json
index 67d83d8..9222af0 100644
--- a/kd/model/discover/config/config_pde.json
+++ b/kd/model/discover/config/config_pde.json
@@ -146,7 +146,7 @@
          "pqt_k" : 10,
          "pqt_batch_size" : 1,
          "pqt_weight" : 0,
-         "pqt_use_pg" : false,
+         "pqt_use_pg" : true,
    
          // Whether to compute TensorBoard summaries.
          "summary" : true,
diff --git a/kd/model/discover/config/config_regression.json b/kd/model/discover/config/config_regression.json
index 65c3035..70f8a32 100644
--- a/kd/model/discover/config/config_regression.json
+++ b/kd/model/discover/config/config_regression.json
@@ -62,7 +62,7 @@
     "pqt_k": 10,
     "pqt_batch_size": 1,
     "pqt_weight": 0,
-    "pqt_use_pg": false,
+    "pqt_use_pg": true,
     "summary": true,
     "attention": false,
     "atten_len": 20
-- 
2.43.0


From 4ffdb8fd60fce7083db94a7c2951a05a6706d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 31/80] fix: Discover cannot observe the number of dangling
 nodes

---
 kd/model/discover/state_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 7802ab3..f6289d4 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -185,7 +185,7 @@ class HierarchicalStateManager(StateManager):
 
         # Dangling input is just the value of dangling
         if self.observe_dangling:
-            x = dangling.unsqueeze(-1)
+            x = torch.as_tensor(dangling, dtype=torch.float32).unsqueeze(-1)
             observations.append(x)
         input_ = torch.cat(observations, dim=-1)
         return input_
-- 
2.43.0


From db3652f7787a35b1bc710b3f35479dd897272c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 32/80] fix: kd.viz and the star import of kd recurse or fail

---
 kd/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index bb56d26..eeab540 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -8,7 +8,7 @@ __version__ = '1.0.0'
 
 __pkg_name__ = 'KD'
 
-from .dataset import load_burgers_equation, load_mat_file
+from .dataset import load_burgers_equation, load_kdv_equation, load_mat_file
 
 _submodules = [
     'dataset',
@@ -31,8 +31,8 @@ __all__ = _submodules + [
 
 def __getattr__(name: str):
     if name == "viz":
-        from . import viz as _viz
-        return _viz
+        from importlib import import_module
+        return import_module(".viz", __name__)
     if name in {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"}:
         from . import model as _model
         return getattr(_model, name)
-- 
2.43.0


From b56b93930400d1daeeb631791fdafc5205fd53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 33/80] fix: kd.dataset exports loaders that do not exist

---
 kd/dataset/__init__.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..10620f6 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -162,23 +162,5 @@ __all__ = [
     "load_pde_dataset",
     "list_available_datasets",  # 新增辅助函数
     "get_dataset_sym_true",  # 新增辅助函数
-    "Burgers_equation_shock",
-    "KdV_equation",
-    "KdV_equation_sine",
-    "Chaffee_Infante_equation",
-    "KG_equation",
-    "Allen_Cahn_equation",
-    "Convection_diffusion_equation_solution",
-    "Convection_diffusion_equation_simulation",
-    "Wave_equation",
-    "KS_equation",
-    "Beam_equation",
-    "Heat_equation",
-    "Heat_equation_sin",
-    "Diffusion_equation",
-    "Parametric_convection_diffusion",
-    "Parametric_Burgers_equation",
-    "Parametric_wave_equation",
-    "Burgers_2D",
     "load_regression",
 ]
-- 
2.43.0


From 1f58804face01f982825f7eabd7482f0ac93ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 34/80] fix: Discover's two-dimensional Laplacian operator
 cannot be evaluated

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d4cd645 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -192,7 +192,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From c684a431e159184fc4431da41295f7c9ee534cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 35/80] fix: Discover differentiates unevenly spaced spatial
 axes with one step

---
 kd/model/discover/adapter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..c0d5d92 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -96,6 +96,11 @@ class DiscoverRegularAdapter:
         for idx in range(u.shape[0]):
             ut[idx, :] = FiniteDiff(u[idx, :], delta_t)
 
+        # The spatial operators difference with a single grid step as well.
+        dx = np.diff(x)
+        if not np.allclose(dx, dx[:1], rtol=1e-3, atol=0.0):
+            raise ValueError("Spatial grid must be evenly spaced for finite-difference evaluation")
+
         x_column = x.reshape(-1, 1)
 
         if self.n_input_dim is not None and self.n_input_dim != 1:
@@ -194,6 +199,11 @@ class DiscoverRegularAdapter:
                     f"Spatial axis '{axis_name}' has zero spacing "
                     f"between consecutive points"
                 )
+            if not np.allclose(dx_vals, dx_vals[0], rtol=1e-3, atol=0.0):
+                raise ValueError(
+                    f"Spatial axis '{axis_name}' must be evenly spaced "
+                    "for finite-difference evaluation"
+                )
 
         # --- Validate and compute time derivative ---
         t_coord = coords_1d[lhs_axis]
-- 
2.43.0


From 283941c97113e1c3c7868e6e0000e5a07f598bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 36/80] fix: Discover overwrites the recorded number of
 dangling nodes

---
 kd/model/discover/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..75b3b69 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -124,7 +124,7 @@ class HierarchicalTask(Task):
 
     def get_next_obs(self, actions, obs):
 
-        dangling = obs[:, 3] # Shape of obs: (?, 4)
+        dangling = obs[:, 3].copy() # Shape of obs: (?, 4); obs is kept for training
         action = actions[:, -1] # Current action
         lib = self.library
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 5536fca4ecb8bb22eca8a0a8ea35ca417f87d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 37/80] fix: Discover multiplies N-D fields by coordinates
 along the wrong axis

---
 kd/model/discover/execute.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 6d77b0d..36dbdf9 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -1,16 +1,27 @@
 
 import array
+import numpy as np
 import torch.autograd as autograd
 import torch
 """
 evaluate PDE traversal through predefined operators and operands.
 """
+def _coordinate(x, u, k):
+    """Values of coordinate k; on an N-D grid (t, x1, x2, ...) at every grid point."""
+    coord = x[k]
+    shape = np.shape(u[0]) if u else ()
+    if len(shape) > 2 and k + 1 < len(shape) and np.size(coord) == shape[k + 1]:
+        along = [-1 if axis == k + 1 else 1 for axis in range(len(shape))]
+        coord = np.broadcast_to(np.reshape(coord, along), shape)
+    return coord
+
 def python_execute(traversal, u, x):
     """
     evaulate the preorder traversal with provided data based on numpy. Modified from dso.
     """
     apply_stack = []
     dim_flag = None
+    coord = None
     i = 0
     
     for node in traversal:
@@ -23,7 +34,7 @@ def python_execute(traversal, u, x):
             if token.input_var is not None:
                 # import pdb;pdb.set_trace()
 
-                intermediate_result =  x[token.input_var]
+                intermediate_result = coord = _coordinate(x, u, token.input_var)
                 dim_flag = token.input_var+1
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
@@ -33,6 +44,8 @@ def python_execute(traversal, u, x):
             else:
                 try:
                     if 'diff' in token.name or 'Diff' in token.name:
+                        if terminals[-1] is coord: # the operators take the axis itself
+                            terminals[-1] = x[dim_flag-1]
                         intermediate_result = token(*[*terminals,dim_flag])
                     elif token.name in ('lap', 'lap_3', 'lap_t'):
                         intermediate_result = token(*[*terminals, x])
-- 
2.43.0


From b75b8d3661a72ed3fb0a6017d38547909200c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 38/80] fix: Discover's descendant constraints end after the
 first child of a binary token

---
 kd/model/discover/dso/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..b6886bb 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,7 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        threshold = dangling - arity
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From 5ac04ed937f9b8c6d759b9623ce5d995d02aad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 39/80] fix: Discover writes neg, inv and tanh as products of
 letters

---
 kd/model/discover/stridge.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..cf737b7 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -161,10 +161,16 @@ class Node(object):
             # logabs(x) 对应 SymPy 的 log(Abs(x))
             return f"log(Abs({child_sympy_strings[0]}))"
 
+        elif base_op_name == "neg":
+            return f"Mul(-1, {child_sympy_strings[0]})"
+
+        elif base_op_name == "inv":
+            return f"Pow({child_sympy_strings[0]}, -1)"
+
         # 可以根据 Program.library 中定义的其他函数继续添加 elif 分支
         # 例如，如果库中有 "sin", "cos", "exp" 等标准数学函数:
         # SymPy 的 parse_expr 通常能直接识别小写的标准数学函数名。
-        elif base_op_name in ["sin", "cos", "tan", "exp", "log", "sqrt", "abs"]: # 等等
+        elif base_op_name in ["sin", "cos", "tan", "tanh", "exp", "log", "sqrt", "abs"]: # 等等
             if len(child_sympy_strings) == 1: # 假设这些都是一元函数
                 return f"{base_op_name}({child_sympy_strings[0]})"
             else: # 元数不匹配的防御性处理
-- 
2.43.0


From a261ba5d8e8069ced3aa8e8d80e17de4e89613a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 40/80] fix: Discover LaTeX misprints sums, factors,
 parameters, Laplacians and constants

A term that is a sum was printed without parentheses, numeric factors next to
the coefficient, parameters as products of letters (or not at all) and as
constants under a derivative, the Laplacian as a product of letters, a fitted
constant as an invalid program, and in Leibniz notation the derivative of a
product like the product of a derivative.
---
 kd/viz/discover_eq2latex.py | 177 ++++++++++++++++++++++++------------
 1 file changed, 121 insertions(+), 56 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..1e0cf32 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -1,5 +1,7 @@
+import keyword
 import logging
-from typing import Optional
+import re
+from typing import Optional, Sequence
 
 import sympy
 
@@ -28,30 +30,92 @@ _SYMBOL_DISPLAY = {
 # Function-based symbols for Leibniz mode (produces \partial instead of d)
 _x1, _x2, _x3 = sympy.symbols('x1 x2 x3')
 _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
-    'u1': sympy.Function('u1')(_x1, _x2, _x3),
+    'u1': sympy.Function('u1', real=True)(_x1, _x2, _x3),
     'x1': _x1, 'x2': _x2, 'x3': _x3,
     'c': sympy.Symbol('c'),
     'p1': sympy.Symbol('p1'), 'p2': sympy.Symbol('p2'), 'p3': sympy.Symbol('p3'),
 }
 
 
+class laplacian(sympy.Function):
+    """Unevaluated Laplacian, as written by ``Node.to_sympy_string``."""
+
+    def _latex(self, printer, exp=None):
+        operand = self.args[0]
+        body = printer.doprint(operand)
+        if not operand.is_Symbol and not isinstance(operand, sympy.Function):
+            body = "\\left(" + body + "\\right)"
+        body = r"\nabla^{2} " + body
+        return body if exp is None else "\\left(" + body + "\\right)^{" + exp + "}"
+
+
+def _leaf_names(node) -> set:
+    """Names of the operands (not the operators) below *node*."""
+    children = getattr(node, 'children', None)
+    if children:
+        return set().union(*(_leaf_names(child) for child in children))
+    name = getattr(node, 'val', None)
+    return {name} if isinstance(name, str) else set()
+
+
+def _parse_term(node, sympy_expr_str, symbols):
+    """Parse *node*'s SymPy string; every operand it names is a symbol."""
+    local = {'laplacian': laplacian, **symbols}
+    for name in _leaf_names(node):
+        if name in symbols or not name.isidentifier():
+            continue
+        alias = name
+        if keyword.iskeyword(name):
+            alias = name + '_'
+            sympy_expr_str = re.sub(rf'\b{name}\b', alias, sympy_expr_str)
+        local[alias] = sympy.Symbol(name)
+    return parse_expr(
+        sympy_expr_str,
+        local_dict=local,
+        transformations='all',  # allow a broad set of SymPy-compatible transformations
+    )
+
+
+class _LeibnizLatexPrinter(LatexPrinter):
+    """Leibniz notation in which a derivative applies to the next factor only."""
+
+    def _print_Derivative(self, expr):
+        operand = expr.expr
+        if operand.is_Mul:
+            shown = sympy.Symbol("\\left(" + self._print(operand) + "\\right)")
+            total = sum(count for _, count in expr.variable_count)
+            below = " ".join(
+                r"\partial " + (self._print(var) if count == 1 else f"{self._print(var)}^{{{self._print(count)}}}")
+                for var, count in reversed(expr.variable_count)
+            )
+            above = r"\partial" if total == 1 else rf"\partial^{{{self._print(total)}}}"
+            return rf"\frac{{{above}}}{{{below}}} {shown.name}"
+        return super()._print_Derivative(expr)
+
+
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
+    def __init__(self, settings=None, display=None):
+        super().__init__(settings)
+        self._display = {**_SYMBOL_DISPLAY, **(display or {})}
+
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
-            func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
+            func_name = self._print(func)
+            if "_" in func_name:  # already carries a subscript
+                func_name = "(" + func_name + ")"
         elif hasattr(func, 'func') and hasattr(func.func, 'name'):
             # Applied function like u1(x1, x2): func.func has .name
-            func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
+            func_name = self._display.get(func.func.name, func.func.name)
         else:
             # Compound expression (Pow, Mul, Add, etc.): render via printer
             func_name = "(" + self._print(func) + ")"
 
         subscript_parts = []
         for var, count in expr.variable_count:
-            var_name = _SYMBOL_DISPLAY.get(var.name, var.name)
+            var_name = self._display.get(var.name, var.name)
             subscript_parts.append(var_name * count)
 
         subscript = "".join(subscript_parts)
@@ -59,15 +123,14 @@ class _SubscriptLatexPrinter(LatexPrinter):
 
     def _print_Symbol(self, expr):
         name = expr.name
-        return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
+        return self._display.get(name, super()._print_Symbol(expr))
 
 
 # ---------------------------------------------------------------------------
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
+# Coordinates; every other symbol depends on them
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
@@ -98,30 +161,23 @@ def _expand_first_order_compound_derivatives(
     if not _is_first_order_compound_derivative(expr):
         return sympy.Integer(1), expr
 
-    # Symbol → Function substitution
-    sym_to_fn: dict = {}
+    # Every operand other than a coordinate is a field
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
-        sym = sympy.Symbol(name)
-        fn = sympy.Function(name)(*var_syms)
-        sym_to_fn[sym] = fn
-
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
+    sym_to_fn: dict = {
+        sym: sympy.Function(sym.name, real=True)(*var_syms)
+        for sym in expr.free_symbols
+        if sym.name not in _VAR_SYMBOL_NAMES
+    }
+    expr_fn = expr.xreplace(sym_to_fn)
+    if expr_fn.has(laplacian):
+        return sympy.Integer(1), expr
 
     expanded = expr_fn.doit()
+    if expanded.has(sympy.Subs):
+        return sympy.Integer(1), expr
 
     # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    expanded = expanded.xreplace({fn: sym for sym, fn in sym_to_fn.items()})
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
@@ -132,14 +188,23 @@ def _expand_first_order_compound_derivatives(
 # Node → LaTeX (with optional expansion)
 # ---------------------------------------------------------------------------
 
+def _print_expr(expr, notation, display=None) -> str:
+    if notation == "subscript":
+        return _SubscriptLatexPrinter(display=display).doprint(expr)
+    return _LeibnizLatexPrinter().doprint(expr)
+
+
 def _discover_term_node_to_latex_expanded(
     term_node_obj,
     local_sympy_symbols=None,
     *,
     notation: str = "subscript",
+    expand: bool = True,
+    display: Optional[dict] = None,
 ) -> tuple:
     """Like ``_discover_term_node_to_latex`` but also expands first-order
-    compound derivatives, returning ``(numeric_factor, latex_string)``.
+    compound derivatives (unless *expand* is false), returning
+    ``(numeric_factor, latex_string)``; a sum is returned in parentheses.
     """
     if local_sympy_symbols is None:
         if notation == "leibniz":
@@ -147,21 +212,18 @@ def _discover_term_node_to_latex_expanded(
         else:
             local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
 
-    sympy_expr_str = term_node_obj.to_sympy_string()
-    parsed = parse_expr(
-        sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
-    )
+    parsed = _parse_term(term_node_obj, term_node_obj.to_sympy_string(), local_sympy_symbols)
 
-    factor, expanded = _expand_first_order_compound_derivatives(parsed)
+    factor, body = sympy.Integer(1), parsed
+    if expand:
+        factor, body = _expand_first_order_compound_derivatives(parsed)
+    more, body = body.as_coeff_Mul()
 
-    if notation == "subscript":
-        latex_output = _SubscriptLatexPrinter().doprint(expanded)
-    else:
-        latex_output = sympy.latex(expanded)
+    latex_output = _print_expr(body, notation, display)
+    if body.is_Add:
+        latex_output = "\\left(" + latex_output + "\\right)"
 
-    return factor, latex_output
+    return factor * more, latex_output
 
 
 # Node -> LaTeX
@@ -180,19 +242,11 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if DEBUG_RENDERER_MODE:
              logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
 
-        parsed_sympy_expr = parse_expr(
-            sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
-        )
+        parsed_sympy_expr = _parse_term(term_node_obj, sympy_expr_str, local_sympy_symbols)
         if DEBUG_RENDERER_MODE:
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
-        if notation == "subscript":
-            latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
-        else:
-            latex_output = sympy.latex(parsed_sympy_expr)
-        return latex_output
+        return _print_expr(parsed_sympy_expr, notation)
     except Exception as e:
         import traceback
         error_repr = repr(term_node_obj) if term_node_obj else "None"
@@ -213,7 +267,8 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                             custom_deeprl_symbols=None,
                             lhs_axis: Optional[str] = None,
                             notation: str = "subscript",
-                            expand_derivatives: bool = True):
+                            expand_derivatives: bool = True,
+                            axis_names: Optional[Sequence[str]] = None):
     """
     Convert a Program object to a full LaTeX equation string.
 
@@ -222,6 +277,9 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     lhs_axis : str, optional
         Axis name for the LHS derivative (e.g. 't', 'x', 'y').
         Defaults to 't' → ``u_t``.
+    axis_names : sequence of str, optional
+        Names shown for x1, x2, ... in subscript notation.
+        Defaults to 'x', 'y', 'z'.
     """
     if notation not in _VALID_NOTATIONS:
         raise ValueError(f"notation must be one of {_VALID_NOTATIONS}, got {notation!r}")
@@ -239,7 +297,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
             hasattr(program_object.STRidge, 'terms') and \
             program_object.w is not None and \
             program_object.STRidge.terms is not None and \
-            len(program_object.w) == len(program_object.STRidge.terms)):
+            len(program_object.w) - len(program_object.STRidge.terms) in (0, 1)):
         if DEBUG_RENDERER_MODE:
             w_status = str(getattr(program_object, 'w', '<w attribute not found>'))
             terms_status = str(
@@ -275,20 +333,27 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     else:
         current_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
 
+    display = {f"x{k}": name for k, name in enumerate(axis_names or (), 1)}
+
     for i, coeff_val_from_w in enumerate(coefficients):
         # program.w 可能是一个普通列表或1D NumPy数组
         coeff_val = float(coeff_val_from_w)
-        term_node = term_nodes[i]
+        # One coefficient more than there are terms: the constant term.
+        term_node = term_nodes[i] if i < len(term_nodes) else None
 
         # Get base term LaTeX for this node.
-        if expand_derivatives:
-            factor, base_term_latex = _discover_term_node_to_latex_expanded(
+        try:
+            factor, base_term_latex = (1, "1") if term_node is None else _discover_term_node_to_latex_expanded(
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                expand=expand_derivatives,
+                display=display,
             )
             coeff_val *= float(factor)
-        else:
+        except Exception:
+            if expand_derivatives:
+                raise
             base_term_latex = _discover_term_node_to_latex(
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
-- 
2.43.0


From 57590b988d132cc30656a2b7259e024e7bd20543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 41/80] fix: Discover equations are drawn with fixed axis names
 and left-hand side

---
 kd/viz/_adapters/discover.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..2a939ed 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -218,7 +218,15 @@ class DiscoverVizAdapter:
 
         try:
             notation = ctx.options.get('notation', 'subscript')
-            latex = discover_program_to_latex(program, notation=notation)
+            dataset = getattr(model, 'dataset_', None)
+            axis_order = getattr(dataset, 'axis_order', None)
+            lhs_axis = getattr(dataset, 'lhs_axis', None)
+            latex = discover_program_to_latex(
+                program,
+                lhs_axis=lhs_axis,
+                notation=notation,
+                axis_names=[axis for axis in axis_order or () if axis != lhs_axis],
+            )
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
-- 
2.43.0


From 30f17b0def3b4234d21832aa095a6adec87334c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 42/80] fix: Discover's sparse data split ignores random_state

---
 kd/model/discover/adapter.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index c0d5d92..dc274a7 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -375,7 +375,7 @@ class DiscoverSparseAdapter:
         else:
             lb, ub = default_lb, default_ub
 
-        sparse.process_data((lb, ub))
+        self._process_sparse(sparse, (lb, ub))
 
         result = dict(sparse.get_data())
         if self.cut_quantile is not None:
@@ -530,7 +530,7 @@ class DiscoverSparseAdapter:
         sparse = LegacySparseData(xt, sampled_values)
         if self.colloc_num is not None:
             sparse.colloc_num = int(self.colloc_num)
-        sparse.process_data((lb, ub))
+        self._process_sparse(sparse, (lb, ub))
 
         result = dict(sparse.get_data())
         result['n_input_dim'] = n_spatial
@@ -587,6 +587,20 @@ class DiscoverSparseAdapter:
         indices = rng.choice(total, n_samples, replace=False)
         return points[indices], values[indices]
 
+    def _process_sparse(self, sparse, bounds) -> None:
+        """Split and draw collocation points, reproducibly if a seed was given."""
+        if self.random_state is None:
+            sparse.process_data(bounds)
+            return
+
+        # SparseData (and pyDOE) draw from numpy's global generator.
+        state = np.random.get_state()
+        try:
+            np.random.seed(self.random_state)
+            sparse.process_data(bounds)
+        finally:
+            np.random.set_state(state)
+
     def _spline_sample_points(self, x: np.ndarray, t: np.ndarray, u: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         ratio = self.data_ratio if self.data_ratio is not None else self.sample_ratio
         if not 0 < ratio <= 1:
-- 
2.43.0


From 0a3bec7faf7e0bd94b617c0d6625159169bca749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 43/80] fix: RegularData cannot find its files outside the
 source tree, nor Kdv at all

---
 kd/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/data.py b/kd/data.py
index b52483e..2473c47 100644
--- a/kd/data.py
+++ b/kd/data.py
@@ -9,6 +9,7 @@ The module supports both regular grid data (RegularData) and sparse sampling dat
 """
 
 from abc import ABC, abstractmethod
+from pathlib import Path
 import pandas as pd
 import numpy as np
 import scipy.io as scio
@@ -135,7 +136,8 @@ class RegularData(BaseDataHandler):
         Raises:
             ValueError: If dataset is not supported.
         """
-        folder_name = './kd/data_file'
+        package_dir = Path(__file__).resolve().parent
+        folder_name = package_dir / 'data_file'
         if self.source == 'chafee-infante':  # 301*200
             u = np.load(f"{folder_name}/chafee_infante_CI.npy")
             x = np.load(f"{folder_name}/chafee_infante_x.npy").reshape(-1,1)
@@ -150,7 +152,7 @@ class RegularData(BaseDataHandler):
             self.sym_true = 'add,mul,u1,diff,u1,x1,diff2,u1,x1'
 
         elif self.source == 'Kdv':      
-            data = scio.loadmat('./discover/task/pde/data_new/Kdv.mat')
+            data = scio.loadmat(package_dir / 'dataset' / 'data' / 'Kdv.mat')
             u = data.get("uu")
             n,m = u.shape  # 512x201
             x = np.squeeze(data.get("x")).reshape(-1,1)
-- 
2.43.0


From cb191e1e28a43e3bd7fa4d3ec310393d6eddcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 44/80] fix: a non-finite local residual destroys Discover's
 PINN

---
 kd/model/discover/pinn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..9518fc8 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -309,7 +309,7 @@ class PINN_model:
             for i in range(pde_num):
                 pde_loss = torch.tensor([0]).to(loss_mse)
                 loss_res = pinn_loss(self,  program_pde[i], self.x_f, self.t_f, program_pde[i].w, self.extra_gradient)
-                if torch.isnan(loss_res):
+                if not torch.isfinite(loss_res):
                     logging.info("nan")
                     loss_res=torch.tensor([0]).to(loss_mse)
                 self.writer.add_scalar(f"pinn/pinn_loss_{i}",loss_res.item(),epoch)
@@ -318,6 +318,9 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if not torch.isfinite(loss_res2):
+                        logging.info("nan")
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
-- 
2.43.0


From 524b88db805345cc5bc2d2720d90947ffbc6a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 45/80] fix: Discover embeds u_t = 0 in the PINN when no valid
 equation was found

---
 kd/model/discover/pinn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 9518fc8..72bbf30 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -288,10 +288,12 @@ class PINN_model:
         program_pde: pdes discovered from discover, list type
         '''
         expression =  [program_pde[i].str_expression for i in range(len(program_pde))]
-        pde_num = len(program_pde)
         self.cache['exp'] = expression
         logging.info(f"\n************The {count}th itertion for pinn training.**************** ")
         logging.info(f"start training pinn with traversal {expression}")
+        # an invalid program has no coefficients, hence no equation to embed
+        program_pde = [p for p in program_pde if not p.invalid]
+        pde_num = len(program_pde)
         for i in range(len(program_pde)):
             program_pde[i].switch_tokens()
         if last:
@@ -306,8 +308,8 @@ class PINN_model:
             self.optimizer.zero_grad()
             u_predict = self.net_u(torch.cat([*self.x, self.t], axis= 1))
             loss_mse = mse_loss(u_predict, self.u_train).sum()
+            pde_loss = torch.tensor([0]).to(loss_mse)
             for i in range(pde_num):
-                pde_loss = torch.tensor([0]).to(loss_mse)
                 loss_res = pinn_loss(self,  program_pde[i], self.x_f, self.t_f, program_pde[i].w, self.extra_gradient)
                 if not torch.isfinite(loss_res):
                     logging.info("nan")
-- 
2.43.0


From a3a80baa291ecef2ab28d24a6d8e4e85c99f0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 46/80] fix: KD_Discover_Regression mixes up variable names
 that contain one another

---
 kd/model/kd_discover_regression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 5b0aa5a..abd02b4 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -59,10 +59,8 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        names = {f"x{index}": name for index, name in enumerate(var_names, start=1)}
+        return ",".join(names.get(token, token) for token in expression.split(","))
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From 0e3897f609d47fd610193215bce247fbc640b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 47/80] fix: KD_Discover_Regression prints small constants as
 0.0

---
 kd/model/kd_discover_regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index abd02b4..063b0e5 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -65,6 +65,9 @@ class KD_Discover_Regression(KD_Discover):
     @staticmethod
     def _format_constant(value: float) -> str:
         scalar = float(np.asarray(value).reshape(-1)[0])
+        if 0 < abs(scalar) < 1:
+            # six decimals would drop the digits of a small constant
+            return str(float(f"{scalar:.6g}"))
         rounded = round(scalar, 6)
         text = f"{rounded:.6f}".rstrip("0").rstrip(".")
         if "." not in text:
-- 
2.43.0


From 54bedcd3612b279bb9a3fde89c03387ce0d73fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 48/80] fix: an error in one Discover evaluation invalidates
 the next expression

unsafe_execute_torch records a failed evaluation in the warning log and
nothing reads it there, so the next expression evaluated with numpy, by any
model in the process, was declared invalid.
---
 kd/model/discover/stridge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index cf737b7..6269fd4 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -48,6 +48,7 @@ def unsafe_execute(traversal, u, x):
     and the appropriate nan/inf value is returned. It's up to the task's
     reward function to decide how to handle nans/infs."""
 
+    invalid_log.update() # forget what an earlier evaluation left behind
     with np.errstate(all='log'):
         y = python_execute(traversal, u,x)
         invalid, error_node, error_type = invalid_log.update()
-- 
2.43.0


From 0fa657408e3ef532f398a45ec4cf6c47807cec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 49/80] fix: KD_Discover_Regression.predict breaks once a PINN
 model is set up

execute_direct works on plain arrays but used the process-wide executor,
which is the torch one after any KD_Discover_SPR set-up.
---
 kd/model/discover/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..bbc83c7 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -404,7 +404,7 @@ class Program(object):
 
     def execute_direct(self, x):
         x_inputs = self._normalize_x_inputs(x)
-        y_hat, self.invalid, self.error_node, self.error_type = Program.execute_function(
+        y_hat, self.invalid, self.error_node, self.error_type = unsafe_execute(
             self.traversal,
             [],
             x_inputs,
-- 
2.43.0


From 247f4e0c7696edf3d367e5ead150ed5e0e3af69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 50/80] fix: Discover keeps the longer of two equivalent
 candidates

drop_duplicates replaced the first candidate of the same length instead of
the one it compared with.
---
 kd/model/discover/ga_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..e428519 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -211,13 +211,12 @@ def drop_duplicates( tokens, values):
 
     for i, (arr_current, str_current) in enumerate(zip(values, token_len)):
         duplicate_found = False
-        for arr_compare, str_compare in zip(values[i+1:], token_len[i+1:]):
+        for idx, (arr_compare, str_compare) in enumerate(zip(values[i+1:], token_len[i+1:]), i+1):
             # if the sum of differences is less than 1e-5, consider them the same
             if np.abs(np.sum(arr_compare - arr_current)) < 1e-5:
                 duplicate_found = True
                 # if the current string is shorter, replace the compared one
                 if str_current < str_compare:
-                    idx = token_len.index(str_compare)
                     token_len[idx] = str_current
                     tokens[idx]=tokens[i]
                     values[idx]=values[i]
-- 
2.43.0


From d4aa1f75e83ff82e77e24f3520e1b00caba4a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 51/80] fix: Discover's PINN cannot embed an equation with a
 constant parameter

The parameter was sized for the regression points, but the equation is also
evaluated at the collocation points and at the observations.
---
 kd/model/discover/execute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 36dbdf9..c5c7a19 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -81,7 +81,8 @@ def python_execute_torch(traversal, u, x):
                 dim_flag = token.input_var+1
 
             elif token.param_var is not None:
-                intermediate_result = token._param_data_ref
+                # a constant; the points evaluated vary in number
+                intermediate_result = token._param_data_ref[:1].expand(x[0].shape)
             elif token.state_var is not None:
                 if isinstance(u, list):
                     
-- 
2.43.0


From 8ccf83a0b59271f2704d2569764b1bb113ef7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 52/80] fix: a Laplacian that cannot be differentiated aborts
 Discover's sparse search

diff_t of such a term makes the candidate invalid; lap_t raised instead.
---
 kd/model/discover/execute.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index c5c7a19..58594c9 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -102,7 +102,10 @@ def python_execute_torch(traversal, u, x):
                         return None
                       
                 elif 'lap' in token.name:
-                    intermediate_result = token(*[*terminals, x])
+                    try:
+                        intermediate_result = token(*[*terminals, x])
+                    except Exception as e:
+                        return None
                 else:  
                     intermediate_result = token(*terminals)
             try:       
-- 
2.43.0


From 917d4d34c87ed5ec0c87449cad2926c3786889ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 53/80] fix: DLGA models have no readable parameters

get_params, set_params and repr raise because the constructor's arguments
are not kept under their own names.
---
 kd/model/dlga.py    | 32 ++++++++++++++++++++++----------
 kd/model/kd_dlga.py | 20 ++++++++++++++++----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index b8f596d..1e182d2 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -87,16 +87,8 @@ class DLGA(BaseGa):
         self.device = (
             torch.device("cuda") if torch.cuda.is_available() else torch.device("cpu")
         )
-        self.Net = NN(
-            Num_Hidden_Layers=5,
-            Neurons_Per_Layer=50,
-            Input_Dim=input_dim,
-            Output_Dim=1,
-            Data_Type=torch.float32,
-            Device=self.device,
-            Activation_Function="Sin",
-            Batch_Norm=False,
-        )
+        self.input_dim = input_dim
+        self.Net = self._make_net()
 
         self.max_iter = max_iter
         self.eq_latex = ""
@@ -108,6 +100,26 @@ class DLGA(BaseGa):
         self.evolution_history = []  # 存储完整的进化历史数据
         self.complexity_history = []  # 存储复杂度历史
 
+    def _make_net(self):
+        """Build the neural network for the current input dimension."""
+        return NN(
+            Num_Hidden_Layers=5,
+            Neurons_Per_Layer=50,
+            Input_Dim=self.input_dim,
+            Output_Dim=1,
+            Data_Type=torch.float32,
+            Device=self.device,
+            Activation_Function="Sin",
+            Batch_Norm=False,
+        )
+
+    def set_params(self, **params):
+        """Set parameters, refreshing what the constructor derives from them."""
+        super().set_params(**params)
+        if 'input_dim' in params:
+            self.Net = self._make_net()
+        return self
+
     def train_NN(self, X, y):
         """Train neural network on data.
         
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 741cf3f..8a4c0f6 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -18,16 +18,28 @@ class KD_DLGA(DLGA):
     AVAILABLE_OPERATORS = ('u', 'u_x', 'u_t', 'u_xx', 'u_xxx', 'u_tt')
 
     def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
+        self.operators = operators
+        self.verbose = verbose
+        super().__init__(epi=epi, input_dim=input_dim, **kwargs)
+        self.equations_ = None
+        self.best_equation_ = None
+
+    @property
+    def operators(self):
+        return self.user_operators
+
+    @operators.setter
+    def operators(self, operators):
         unknown = [op for op in operators if op not in self.AVAILABLE_OPERATORS]
         if unknown:
             raise ValueError(f"Unknown operators {unknown}. Available: {list(self.AVAILABLE_OPERATORS)}")
         self.user_operators = operators
         self.library_size = len(operators)
-        self.verbose = verbose
-        super().__init__(epi=epi, input_dim=input_dim, **kwargs)
-        self.equations_ = None
-        self.best_equation_ = None
 
+    @classmethod
+    def _get_param_names(cls):
+        """Parameter names, those forwarded to DLGA included."""
+        return sorted({*super()._get_param_names(), *DLGA._get_param_names()})
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From dcf3d887a951dedd14f3f271c8e67bb2336c135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 54/80] fix: EqGPT evaluates four words as something else than
 they say

---
 kd/model/eqgpt/calculate_terms.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..7285ef7 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -54,7 +54,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx.cpu().data.numpy()
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx.cpu().data.numpy()
     if word=='(uux)x':
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -336,7 +336,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx
     if word=='(uux)x':
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 838d9dd59aee8344f369704144dc5339e28489a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 55/80] fix: EqGPT rewards are NaN when no case can be
 evaluated

---
 kd/model/eqgpt/continue_train_GPT_all.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..c2df460 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -300,15 +300,15 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     #reward = (1 - 0.3 * np.log10(A.shape[1])) * R2  #wave equation, PDE_compound
                     #reward=(1-0.07*np.log10(A.shape[1])) *R2
                     reward = (1 - 0.02 * np.log10(A.shape[1])) * R2
-                    all_reward.append(reward)
                     #reward=(1-0.1*np.log10(A.shape[1])) *R2
                     #reward = (1 - 0.1 * np.log10(A.shape[1])) * R2
                     #reward = (1-np.log10(A.shape[1])) / np.sqrt(MSE_true)
                     #print(reward)
-                    if reward>1e4:
+                    if not np.isfinite(reward) or reward>1e4:
                         reward=0
                 except numpy.linalg.LinAlgError:
                     reward=0
+            all_reward.append(reward)
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
         reward=np.mean(np.array(all_reward))
-- 
2.43.0


From 32b16c8ef691950884b5b7eae59e7621e693fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 56/80] fix: EqGPT's regression ignores terms with small values

---
 kd/model/eqgpt/continue_train_GPT_all.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index c2df460..2be042a 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -260,7 +260,7 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     A.append(A_column)
 
             #========delete inf===============
-            A = np.vstack(A).T
+            A = np.vstack(A).T.astype(np.float64)
             A=delete_dulplicate_A_column(A)
             df=pd.DataFrame(A)
             inf_index=df[df.isin([np.inf]).any(axis=1)].index.tolist()
@@ -278,7 +278,10 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                 b = A[:, 0].copy()
                 # we impose a condition that first term be 1,
                 try:
-                    x = np.linalg.lstsq(A[:, 1:], -b)[0]
+                    # columns are scaled so that lstsq does not drop small ones
+                    scale = np.linalg.norm(A[:, 1:], axis=0)
+                    scale[scale == 0] = 1
+                    x = np.linalg.lstsq(A[:, 1:] / scale, -b, rcond=None)[0] / scale
                     #print(x)
 
                     # u, d, v = np.linalg.svd(A, full_matrices=False)
-- 
2.43.0


From c86672daaa47bdc89e9767e6b38549cba60b4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 57/80] fix: EqGPT's running top ten never grows beyond its
 first epoch

---
 kd/model/kd_eqgpt.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..32ec0cc 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -474,16 +474,14 @@ class KD_EqGPT:
             potential_award = second_award[p_idx]
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
-            idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
-                continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            idx_arr = np.where((array - potential_award) < 0)[0]
+            ins_idx = idx_arr[0] if len(idx_arr) else len(best_award)
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            del best_sentence[10:]
+            del best_award[10:]
 
         return best_award, best_sentence
 
-- 
2.43.0


From dfa78d6ed93d3a11e512b1669dfe338ac74d8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 58/80] fix: EqGPT's retrained surrogates use other coordinates
 than the search

---
 kd/model/kd_eqgpt.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 32ec0cc..657559b 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -311,6 +311,15 @@ class KD_EqGPT:
 
         return all_Net, all_database, all_nx, all_nt
 
+    @staticmethod
+    def _case_scales(trail_num: str) -> Tuple[float, float]:
+        """Peak period and wavelength encoded in a case name."""
+        match = re.search(r"G(\d+)Tp(\d+)A(\d+)", trail_num)
+        if match is None:
+            raise ValueError(f"Cannot parse case name: {trail_num}")
+        tp = int(match.group(2)) / 10.0
+        return tp, 9.81 * (tp ** 2) / (2.0 * math.pi)
+
     def _train_single_surrogate(
         self,
         trail_num: str,
@@ -333,10 +342,13 @@ class KD_EqGPT:
             Activation_Function="Sin", Batch_Norm=False,
         ).to(device)
 
-        # Prepare data (same as surrogate_model.py train())
+        # Prepare data (same as multi_surrogate_model.py train()), in the
+        # non-dimensional coordinates the search evaluates the surrogate at
+        tp, lamda = self._case_scales(trail_num)
         inputs = data[:, 0:2].copy()
-        inputs[:, 1] = inputs[:, 1] - 8
-        outputs = data[:, 2].reshape(-1, 1) * 100
+        inputs[:, 0] = inputs[:, 0] / tp
+        inputs[:, 1] = (inputs[:, 1] - 8.17) / lamda
+        outputs = data[:, 2].reshape(-1, 1) / lamda * 100
 
         n_samples = inputs.shape[0]
         indices = np.arange(n_samples)
@@ -417,14 +429,7 @@ class KD_EqGPT:
         )
         net.eval()
 
-        # Parse physical parameters from case name
-        pattern = r"G(\d+)Tp(\d+)A(\d+)"
-        match = re.search(pattern, trail_num)
-        if match is None:
-            raise ValueError(f"Cannot parse case name: {trail_num}")
-        g, tp_int, _a = map(int, match.groups())
-        tp = tp_int / 10.0
-        lamda = 9.81 * (tp ** 2) / (2.0 * math.pi)
+        tp, lamda = self._case_scales(trail_num)
 
         # Build coordinate grid
         x = np.concatenate([
-- 
2.43.0


From 735a3a2d610b8b22c9d25e4b0bf74edb060440a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 59/80] fix: Discover's plots show another right-hand side than
 the fit's

---
 kd/viz/discover_viz.py | 97 ++++++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 37 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..8ea2c74 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -229,6 +229,22 @@ def _infer_axis(coord_node, coord_to_axis: dict) -> int:
         return coord_to_axis[name]
     raise ValueError(f"无法从 '{name}' 推断空间轴索引")
 
+def _fitted_rhs(best_program, ut):
+    """The right-hand side as the fit evaluated it, on the grid of ``ut``.
+
+    The operators used while searching have their own discretisation, so the
+    values that were actually fitted are preferred over a re-evaluation.
+    Returns None when the program carries none for this grid.
+    """
+    y_hat = getattr(best_program, 'y_hat_rhs', None)
+    if y_hat is None:
+        return None
+    y_hat = np.asarray(y_hat)
+    if y_hat.size != ut.size:
+        return None
+    return y_hat.reshape(ut.shape)
+
+
 def _calculate_pde_fields(model, best_program):
     """
     一个私有的核心计算函数，供所有绘图函数调用。
@@ -252,29 +268,33 @@ def _calculate_pde_fields(model, best_program):
     if n_input_dim > 1:
         return _calculate_pde_fields_nd(
             data_dict, final_symbolic_terms, w_best, u_trimmed, ut_trimmed, n_input_dim,
+            y_hat_rhs=_fitted_rhs(best_program, ut_trimmed),
         )
 
     # ---- Legacy 1D 路径 (完全保留) ----
     x_axis = data_dict['X'][0].flatten()
 
-    # 2. 计算 Theta 矩阵
+    # 2. 计算 RHS：优先使用拟合时的预测值
     num_space_points, num_timesteps_trimmed = u_trimmed.shape
-    Theta_final = np.zeros((u_trimmed.size, len(final_symbolic_terms)))
-    for i, term_node in enumerate(final_symbolic_terms):
-        term_values_grid = np.zeros_like(u_trimmed)
-        for t_idx in range(num_timesteps_trimmed):
-            u_snapshot = u_trimmed[:, t_idx]
-            term_values_grid[:, t_idx] = _evaluate_term_recursively(term_node, u_snapshot, x_axis)
-        Theta_final[:, i] = term_values_grid.flatten()
-
-    if not np.isfinite(Theta_final).all():
-        logger.warning("Discovered equation contains numerically unstable terms.")
-
-    # 3. 计算 RHS 和残差
-    if Theta_final.shape[1] == len(w_best) - 1:
-        y_hat_rhs = Theta_final @ w_best[:-1] + w_best[-1]
-    else:
-        y_hat_rhs = Theta_final @ w_best
+    y_hat_rhs = _fitted_rhs(best_program, ut_trimmed)
+    if y_hat_rhs is None:
+        Theta_final = np.zeros((u_trimmed.size, len(final_symbolic_terms)))
+        for i, term_node in enumerate(final_symbolic_terms):
+            term_values_grid = np.zeros_like(u_trimmed)
+            for t_idx in range(num_timesteps_trimmed):
+                u_snapshot = u_trimmed[:, t_idx]
+                term_values_grid[:, t_idx] = _evaluate_term_recursively(term_node, u_snapshot, x_axis)
+            Theta_final[:, i] = term_values_grid.flatten()
+
+        if not np.isfinite(Theta_final).all():
+            logger.warning("Discovered equation contains numerically unstable terms.")
+
+        if Theta_final.shape[1] == len(w_best) - 1:
+            y_hat_rhs = Theta_final @ w_best[:-1] + w_best[-1]
+        else:
+            y_hat_rhs = Theta_final @ w_best
+
+    # 3. 计算残差
     physical_residual = ut_trimmed.flatten() - y_hat_rhs.flatten()
 
     # 4. 构建绘图坐标
@@ -301,6 +321,7 @@ def _calculate_pde_fields_nd(
     u_trimmed: np.ndarray,
     ut_trimmed: np.ndarray,
     n_input_dim: int,
+    y_hat_rhs=None,
 ) -> dict:
     """N-D 版本的 PDE field 计算。
 
@@ -334,27 +355,29 @@ def _calculate_pde_fields_nd(
     # 伪 x_coords 用于 legacy op fallback（不应在纯 N-D 算子中使用）
     x_axis_fallback = spatial_coords_list[0]
 
-    # 计算 Theta 矩阵
-    Theta_final = np.zeros((u_trimmed.size, len(final_symbolic_terms)))
-    for i, term_node in enumerate(final_symbolic_terms):
-        term_values_grid = np.zeros_like(u_trimmed)
-        for t_idx in range(num_timesteps):
-            u_snapshot = u_trimmed[t_idx]  # shape = spatial_shape
-            term_values_grid[t_idx] = _evaluate_term_recursively(
-                term_node, u_snapshot, x_axis_fallback,
-                spatial_coords_list=spatial_coords_list,
-                spatial_dxs=spatial_dxs,
-            )
-        Theta_final[:, i] = term_values_grid.flatten()
-
-    if not np.isfinite(Theta_final).all():
-        logger.warning("Discovered equation contains numerically unstable terms.")
+    # 计算 RHS：优先使用拟合时的预测值
+    if y_hat_rhs is None:
+        Theta_final = np.zeros((u_trimmed.size, len(final_symbolic_terms)))
+        for i, term_node in enumerate(final_symbolic_terms):
+            term_values_grid = np.zeros_like(u_trimmed)
+            for t_idx in range(num_timesteps):
+                u_snapshot = u_trimmed[t_idx]  # shape = spatial_shape
+                term_values_grid[t_idx] = _evaluate_term_recursively(
+                    term_node, u_snapshot, x_axis_fallback,
+                    spatial_coords_list=spatial_coords_list,
+                    spatial_dxs=spatial_dxs,
+                )
+            Theta_final[:, i] = term_values_grid.flatten()
+
+        if not np.isfinite(Theta_final).all():
+            logger.warning("Discovered equation contains numerically unstable terms.")
+
+        if Theta_final.shape[1] == len(w_best) - 1:
+            y_hat_rhs = Theta_final @ w_best[:-1] + w_best[-1]
+        else:
+            y_hat_rhs = Theta_final @ w_best
 
-    # RHS 和残差
-    if Theta_final.shape[1] == len(w_best) - 1:
-        y_hat_rhs = Theta_final @ w_best[:-1] + w_best[-1]
-    else:
-        y_hat_rhs = Theta_final @ w_best
+    # 残差
     physical_residual = ut_trimmed.flatten() - y_hat_rhs.flatten()
 
     # 时间轴
-- 
2.43.0


From 8ff3d29c05f411938e127076fd23f360f2b70a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 60/80] fix: DLGA's field comparison keeps the picture of an
 earlier call

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..f3deafd 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From 5bb7dd2ea764b586481e3f3832a2ada72dd06d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 61/80] fix: DLGA's plots ignore the spatial axis passed as
 spatial_coords

---
 kd/viz/_adapters/dlga.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index f3deafd..64f2a3d 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -121,6 +121,8 @@ class DLGAVizAdapter:
         data = self._build_field_comparison_data(ctx)
         if data is None:
             return VizResult(intent='field_comparison', warnings=['Field comparison data is required.'])
+        if data.n_spatial_dims != 1:
+            return VizResult(intent='field_comparison', warnings=['DLGA field_comparison supports one spatial axis only.'])
 
         _, path = self._resolve_output(ctx, 'field_comparison.png')
         dlga_viz.plot_pde_comparison(
@@ -139,6 +141,8 @@ class DLGAVizAdapter:
         data = self._build_time_slice_data(ctx)
         if data is None:
             return VizResult(intent='time_slices', warnings=['Time slice data is required.'])
+        if data.n_spatial_dims != 1:
+            return VizResult(intent='time_slices', warnings=['DLGA time_slices supports one spatial axis only.'])
 
         import matplotlib.pyplot as plt
 
@@ -528,8 +532,16 @@ class DLGAVizAdapter:
         fig.tight_layout()
         return fig
 
-    def _build_field_comparison_data(self, ctx) -> Optional[FieldComparisonData]:
+    @staticmethod
+    def _spatial_axis(ctx):
+        """The spatial axis, given either as ``x_coords`` or as ``spatial_coords``."""
         x_coords = ctx.options.get('x_coords')
+        if x_coords is not None:
+            return x_coords
+        return ctx.options.get('spatial_coords')
+
+    def _build_field_comparison_data(self, ctx) -> Optional[FieldComparisonData]:
+        x_coords = self._spatial_axis(ctx)
         t_coords = ctx.options.get('t_coords')
         true_field = ctx.options.get('true_field')
         if true_field is None:
@@ -557,7 +569,7 @@ class DLGAVizAdapter:
         )
 
     def _build_time_slice_data(self, ctx) -> Optional[TimeSliceComparisonData]:
-        x_coords = ctx.options.get('x_coords')
+        x_coords = self._spatial_axis(ctx)
         t_coords = ctx.options.get('t_coords')
         true_field = ctx.options.get('true_field')
         predicted_field = ctx.options.get('predicted_field')
-- 
2.43.0


From c04c2c578ad4f61e6327ea01a3db51f31d7f7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 62/80] fix: a failed equation rendering is reported as a saved
 figure

---
 kd/viz/_adapters/dlga.py    | 15 +++++++++------
 kd/viz/equation_renderer.py |  3 +++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 64f2a3d..1f735f5 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -212,12 +212,15 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
-            latex,
-            output_path=str(path),
-            font_size=ctx.options.get('font_size', 16),
-            show=False,
-        )
+        try:
+            render_latex_to_image(
+                latex,
+                output_path=str(path),
+                font_size=ctx.options.get('font_size', 16),
+                show=False,
+            )
+        except Exception as exc:
+            return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..3a964ab 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -51,6 +51,9 @@ def render_latex_to_image(
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
+        if output_path is not None:
+            # No file was written, so the caller must not report one.
+            raise
     finally:
         if 'fig' in locals():
             try:
-- 
2.43.0


From 04196c3ad3766151d79d71c8f38d99cc4cca400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 63/80] fix: a model subclass gets the adapter registered
 first, not the nearest one

---
 kd/viz/registry.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..b97f2c7 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -30,6 +30,7 @@ def register_lazy_adapter(class_name: str, resolver: Any) -> None:
 
 def unregister_adapter(model_cls: Type[Any]) -> None:
     _ADAPTERS.pop(model_cls, None)
+    _LAZY_ADAPTERS.pop(model_cls.__name__, None)
 
 
 def clear_registry() -> None:
@@ -52,18 +53,17 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # The most specific class wins; lazy adapters are resolved by class name
+    # when their class is reached.
+    for cls in getattr(model_cls, '__mro__', (model_cls,)):
+        adapter = _ADAPTERS.get(cls)
+        if adapter is None and cls.__name__ in _LAZY_ADAPTERS:
+            _resolve_lazy(cls.__name__)
+            adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
 
+    # Virtual subclasses (ABC registration) do not show up in the MRO.
     for registered_cls, registered_adapter in _ADAPTERS.items():
         try:
             if issubclass(model_cls, registered_cls):
-- 
2.43.0


From 901b41ab498b25de1ce39c0feccaf5fa458cc15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 64/80] fix: SGA's plots fail when the edges were deleted

---
 kd/viz/_adapters/sga.py | 46 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..fa30095 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -104,7 +104,7 @@ class SGAVizAdapter:
 
         data = self._build_field_comparison_data(context)
         if data is None:
-            return VizResult(intent='field_comparison', warnings=['Context does not expose metadata/original fields.'])
+            return VizResult(intent='field_comparison', warnings=['Context does not expose metadata/original fields on a common grid.'])
 
         warnings = []
         if data.n_spatial_dims == 1:
@@ -226,7 +226,7 @@ class SGAVizAdapter:
 
         baseline = self._build_field_comparison_data(context)
         if baseline is None:
-            return VizResult(intent='time_slices', warnings=['Context does not expose metadata/original fields.'])
+            return VizResult(intent='time_slices', warnings=['Context does not expose metadata/original fields on a common grid.'])
 
         if baseline.n_spatial_dims == 1:
             return self._time_slices_1d(baseline, ctx)
@@ -391,7 +391,9 @@ class SGAVizAdapter:
             return None
 
         metadata_field = np.asarray(metadata_field)
-        original_field = np.asarray(original_field)
+        original_field = self._on_metadata_grid(context, np.asarray(original_field))
+        if original_field is None:
+            return None
 
         # --- N-D 路径：有 axis_order / coords_1d ---
         axis_order = getattr(context, 'axis_order', None)
@@ -418,6 +420,33 @@ class SGAVizAdapter:
             predicted_field=metadata_field,
         )
 
+    def _on_metadata_grid(self, context, original):
+        """Restrict an array on the original grid to the grid of the metadata.
+
+        Deleting the edges keeps part of the original grid points; returns None
+        when the metadata use points of their own.
+        """
+        shape = np.asarray(context.u).shape
+        if original.shape == shape:
+            return original
+        axis_order = getattr(context, 'axis_order', None)
+        coords_1d = getattr(context, 'coords_1d', None)
+        if axis_order is None or coords_1d is None or original.ndim != len(axis_order):
+            return None
+        for index, axis in enumerate(axis_order):
+            kept = np.asarray(coords_1d[axis]).reshape(-1)
+            if original.shape[index] == kept.size:
+                continue
+            grid = getattr(context, f'{axis}_origin', None)
+            if grid is None or np.ndim(grid) != original.ndim:
+                return None
+            full = np.moveaxis(np.asarray(grid), index, 0).reshape(np.shape(grid)[index], -1)[:, 0]
+            mask = np.isin(full, kept)
+            if mask.sum() != kept.size or full.size != original.shape[index]:
+                return None
+            original = np.compress(mask, original, axis=index)
+        return original
+
     def _build_field_comparison_nd(
         self, context, metadata_field, original_field,
         axis_order, coords_1d, lhs_axis,
@@ -584,6 +613,15 @@ class SGAVizAdapter:
         if true_ut.shape != rhs_origin.shape or meta_ut.shape != rhs_meta.shape:
             return VizResult(intent='residual', warnings=['Context residual arrays have inconsistent shapes.'])
 
+        paired_ut = true_ut
+        if true_ut.shape != rhs_meta.shape:
+            paired_ut = self._on_metadata_grid(context, true_ut)
+            if paired_ut is None:
+                return VizResult(
+                    intent='residual',
+                    warnings=['Metadata and original fields live on different grids.'],
+                )
+
         residual_origin = true_ut - rhs_origin
         residual_meta = meta_ut - rhs_meta
 
@@ -597,7 +635,7 @@ class SGAVizAdapter:
             residual_origin = np.transpose(residual_origin, perm)
 
         residual_data = ResidualPlotData.from_actual_predicted(
-            actual=true_ut.reshape(-1),
+            actual=paired_ut.reshape(-1),
             predicted=rhs_meta.reshape(-1),
             metadata={'mode': 'metadata_vs_groundtruth'},
         )
-- 
2.43.0


From 90eb52712d636c3c3d91509c5aac30f807267675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 65/80] fix: Discover's density plot labels curves with the
 wrong epochs

Requested epochs beyond the history were dropped from the curves but kept in
the list the curves are labelled from.
---
 kd/viz/_adapters/discover.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 2a939ed..44944ba 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,16 +141,17 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        shown = range(len(history)) if epoches is None else [i for i in epoches if i < len(history)]
+        data = [history[i] for i in shown]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
         fig, ax = plt.subplots(figsize=ctx.options.get('figsize', (8, 5)))
-        for idx, rewards in enumerate(data):
+        for idx, rewards in zip(shown, data):
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {idx}',
                 fill=False,
             )
 
-- 
2.43.0


From a5950709c9ea659b7aa5ecfd27dd45804ba6c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 66/80] fix: the last PINN training fails when its loss stays
 large

With a loss that never falls below 1e8, the epoch of the last improvement was
read before it was set.
---
 kd/model/discover/pinn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 72bbf30..1631776 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -298,7 +298,8 @@ class PINN_model:
             program_pde[i].switch_tokens()
         if last:
             # self.pinn_epoch *=3
-            best_loss = 1e8
+            best_loss = float('inf')
+            last_improvement = 0
 
         logging.info(f"coef:{coef}")
         if local_sample:
-- 
2.43.0


From 1ea06845eb43a6b1e9801237c8c9dee9e3d1757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 67/80] fix: the sparse Discover's figures show an earlier
 equation than the result

best_p stayed the program embedded in the last PINN training, so figures drew
another equation than the one train() returns, with predictions made on the
metadata before that training.
---
 kd/model/kd_discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 9491ae6..afd9fd4 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -709,7 +709,9 @@ class KD_Discover_SPR(KD_Discover):
 
         print(f"The No.{iter_num} pde discovery process")
         self.reset_up(reset_controller=False)    
-        return self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        result = self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        self.best_p = [result['program']]
+        return result
     
     def pinn_train(self, best_p, count, coef=0.1, local_sample=False, last=False):
         """Train PINN with discovered equation constraint.
-- 
2.43.0


From 4d84ba8df1f764e36287ed9e731c7a6c1b02c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 68/80] fix: editing a loaded benchmark's domain or aliases
 changes later loads

---
 kd/dataset/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index 10620f6..397c570 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Optional
 
 from ._base import (PDEDataset,
@@ -20,7 +21,7 @@ def _tag_dataset(dataset: Optional[PDEDataset], name: str) -> Optional[PDEDatase
 
     setattr(dataset, 'registry_name', name)
     info = PDE_REGISTRY.get(name, {})
-    aliases = info.get('aliases', {}) or {}
+    aliases = dict(info.get('aliases', {}) or {})
     setattr(dataset, 'aliases', aliases)
     legacy_name = aliases.get('legacy', getattr(dataset, 'legacy_name', None))
     if legacy_name is None:
@@ -40,7 +41,8 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
     Returns:
         PDEDataset: The loaded dataset instance.
     """
-    info = get_dataset_info(name)
+    # Copied, so that what a caller does to its dataset stays out of the registry
+    info = copy.deepcopy(get_dataset_info(name))
     
     # 处理不同文件格式
     if 'files' in info:  # 多文件情况（如chafee-infante）
@@ -145,7 +147,7 @@ def load_regression(name: str):
     X = data[:, info["x_cols"]]
     y = data[:, info["y_col"]]
     meta = {
-        "var_names": info["var_names"],
+        "var_names": list(info["var_names"]),
         "target_name": info["target_name"],
         "description": info["description"],
         "source": info["source"],
-- 
2.43.0


From cb4afe91718184a1aaba7aff93e2856132b7f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 69/80] fix: get_range misses points when a coordinate runs
 downwards

---
 kd/dataset/_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 176602e..564d21c 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -621,12 +621,13 @@ class PDEDataset(MetaData):
         :param t_range: Tuple representing the range of t values (min_t, max_t).
         :return: A dictionary containing subsets of x, t, and usol.
         """
-        x_start, x_end = np.searchsorted(self.x, x_range[0]), np.searchsorted(self.x, x_range[1], side='right')
-        t_start, t_end = np.searchsorted(self.t, t_range[0]), np.searchsorted(self.t, t_range[1], side='right')
+        # Masks, since coordinates may run downwards
+        x_in = (self.x >= x_range[0]) & (self.x <= x_range[1])
+        t_in = (self.t >= t_range[0]) & (self.t <= t_range[1])
 
-        return {'x': self.x[x_start:x_end], 
-                't': self.t[t_start:t_end], 
-                'usol': self.solution_xt()[x_start:x_end, t_start:t_end]}
+        return {'x': self.x[x_in],
+                't': self.t[t_in],
+                'usol': self.solution_xt()[np.ix_(x_in, t_in)]}
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
-- 
2.43.0


From 43f9e7db2125df5a1703c4ac9b88bb0e48bcb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:59 +0000
Subject: [PATCH 70/80] fix: Discover's 2-D figures are mirrored when a
 coordinate runs downwards

---
 kd/viz/discover_viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 8ea2c74..5b8c0d0 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -335,7 +335,9 @@ def _calculate_pde_fields_nd(
     spatial_dxs = []
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
-        coord_unique = np.unique(coord_1d)
+        # distinct values in the order of the data, which may run downwards
+        _, first = np.unique(coord_1d, return_index=True)
+        coord_unique = coord_1d[np.sort(first)]
         if coord_unique.size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
-- 
2.43.0


From 99425151280e80863594b813532e74a46425f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 71/80] fix: SGA's reference equation for Chafee-Infante lacks
 its diffusion term

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 71c1d13..1528964 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -189,7 +189,7 @@ class SolverConfig:
                 self.u = np.load(self._find_data_file("chafee_infante_CI.npy"))
                 self.x = np.load(self._find_data_file("chafee_infante_x.npy"))
                 self.t = np.load(self._find_data_file("chafee_infante_t.npy"))
-            self.right_side = 'right_side = - 1.0008*u + 1.0004*u**3'
+            self.right_side = 'right_side = 1.0002*uxx - 1.0008*u + 1.0004*u**3'
             self.left_side = 'left_side = ut'
             self.right_side_origin = 'right_side_origin = uxx_origin-u_origin+u_origin**3'
             self.left_side_origin = 'left_side_origin = ut_origin'
-- 
2.43.0


From b5bc7a07ce68cf124a4b74cc7d016ee098504f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 72/80] fix: the web app looks for Discover under its former
 module and registry names

---
 app.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..c46ec68 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
@@ -162,8 +162,8 @@ def _get_model_capabilities(model):
         return []
     caps = list(list_capabilities(model))
     # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
-    if not isinstance(model, KD_DSCV_SPR):
+    from kd.model.kd_discover import KD_Discover_SPR
+    if not isinstance(model, KD_Discover_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
 
@@ -293,8 +293,8 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
-                model = KD_DSCV(
+                from kd.model.kd_discover import KD_Discover
+                model = KD_Discover(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -304,8 +304,8 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
-                model = KD_DSCV_SPR(
+                from kd.model.kd_discover import KD_Discover_SPR
+                model = KD_Discover_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
-- 
2.43.0


From 7e8f1a0700a6bc7e9c1574a88aa6c231217757fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 73/80] fix: configure(save_dir=None) keeps the previous
 directory instead of clearing it

---
 kd/viz/_style.py | 10 +++++++---
 kd/viz/core.py   | 10 ++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_style.py b/kd/viz/_style.py
index 2e9dc11..bd5b16f 100644
--- a/kd/viz/_style.py
+++ b/kd/viz/_style.py
@@ -29,18 +29,22 @@ class VizConfig:
 
 _CONFIG = VizConfig()
 
+# Default of ``configure(save_dir=...)``: leave the directory as it is. An
+# explicit ``None`` goes back to the current working directory.
+_KEEP: Any = object()
+
 
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = _KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     if style is not None:
         _CONFIG.style = dict(DEFAULT_STYLE)
         _CONFIG.style.update(style)
-    if save_dir is not None:
-        _CONFIG.save_dir = Path(save_dir)
+    if save_dir is not _KEEP:
+        _CONFIG.save_dir = None if save_dir is None else Path(save_dir)
     if backend is not None:
         matplotlib.use(backend, force=True)
         _CONFIG.backend = backend
diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..b83286a 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -17,7 +17,13 @@ from ._contracts import (
     TimeSliceComparisonData,
 )
 from ._helpers import resolve_output_path
-from ._style import VizConfig, configure as configure_style, get_config, style_context
+from ._style import (
+    VizConfig,
+    _KEEP,
+    configure as configure_style,
+    get_config,
+    style_context,
+)
 
 
 @dataclass
@@ -57,7 +63,7 @@ class VizContext:
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = _KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     return configure_style(style=style, save_dir=save_dir, backend=backend)
-- 
2.43.0


From 70790daaef20c59a3ea8aab546cc79f526383cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 74/80] fix: the web app cannot draw a DLGA equation and
 reports the training as failed

---
 app.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/app.py b/app.py
index c46ec68..14ae5b7 100644
--- a/app.py
+++ b/app.py
@@ -185,13 +185,16 @@ def _render_equation_fig(model, equation_text):
         return None
     fig, ax = plt.subplots(figsize=(8, 2))
     ax.axis("off")
+    # DLGA equations already come with their own math delimiters
+    label = ax.text(0.5, 0.5, f"${equation_text.strip('$')}$", fontsize=18,
+                    ha="center", va="center", transform=ax.transAxes)
     try:
-        ax.text(0.5, 0.5, f"${equation_text}$", fontsize=18,
-                ha="center", va="center", transform=ax.transAxes)
+        fig.tight_layout()  # mathtext is parsed here
     except Exception:
-        ax.text(0.5, 0.5, equation_text, fontsize=14,
+        label.remove()
+        ax.text(0.5, 0.5, equation_text, fontsize=14, parse_math=False,
                 ha="center", va="center", transform=ax.transAxes, family="monospace")
-    fig.tight_layout()
+        fig.tight_layout()
     return fig
 
 
-- 
2.43.0


From 228825f09cde1cbcb6d8dfc1eb34087f68ca8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 75/80] fix: FiniteDiff's third derivative has the wrong sign

---
 kd/utils/utils_fd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..08391da 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -61,7 +61,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From 80d042a499566878b96c75df0e4673cec1fe802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 76/80] fix: plot_solution mirrors a field whose coordinate
 runs downwards

---
 kd/dataset/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 564d21c..c376ef6 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -638,7 +638,9 @@ class PDEDataset(MetaData):
         Generates a heatmap visualization of the solution `usol` over (x, t) dimensions.
         """
         plt.figure(figsize=(8, 6))
-        plt.imshow(self.solution_xt(), aspect='auto', origin='lower',
+        # The extent runs upwards, whatever the direction of the coordinates
+        usol = self.solution_xt()[np.ix_(np.argsort(self.x.ravel()), np.argsort(self.t.ravel()))]
+        plt.imshow(usol, aspect='auto', origin='lower',
                    extent=[self.t.min(), self.t.max(), self.x.min(), self.x.max()])
         plt.colorbar(label='Solution u(x, t)')
         plt.xlabel('Time (t)')
-- 
2.43.0


From f3fc8c9634b37c6d20075c85bece7b5340f5cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:37 +0000
Subject: [PATCH 77/80] fix: SGA's legacy slices are drawn over made-up
 coordinates, refined and measured data apart

---
 kd/model/sga/sgapde/visualizer.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/kd/model/sga/sgapde/visualizer.py b/kd/model/sga/sgapde/visualizer.py
index e644b1e..4b53574 100644
--- a/kd/model/sga/sgapde/visualizer.py
+++ b/kd/model/sga/sgapde/visualizer.py
@@ -22,8 +22,6 @@ def _finalize_figure(fig, path, show):
 
 def plot_figures(context, config, *, output_dir=None, show=False):
 
-    from matplotlib.pyplot import MultipleLocator
-
     # 兼容 config 控制 use_metadata
     use_metadata = getattr(config, "use_metadata", False)
     n = context.n
@@ -54,6 +52,10 @@ def plot_figures(context, config, *, output_dir=None, show=False):
     m1_origin = context.m1_origin
     m2_origin = context.m2_origin
 
+    # Slices are drawn over the real coordinate
+    x_index = context.x_origin[:, 0]
+    x_index_fine = context.x[:, 0]
+
     # Plot the flow field
     fig = plt.figure(figsize=(10, 3))
     plt.imshow(u, interpolation='nearest', cmap='Blues', origin='lower', vmax=np.max(u_origin), vmin=np.min(u_origin))
@@ -74,34 +76,24 @@ def plot_figures(context, config, *, output_dir=None, show=False):
     # Plot the PDE terms
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 256, n_origin)
-    x_index_fine = np.linspace(0, 100, n)
     if use_metadata:
         ax.plot(x_index_fine, ut[:, int(m / 2)], color='red', label='Metadata')
     ax.plot(x_index, ut_origin[:, int(m_origin / 2)], color='blue', linestyle='--')
     ax.set_ylabel('$U_t$', fontsize=18)
     ax.set_xlabel('x', fontsize=18)
-    x_major_locator = MultipleLocator(32)
-    ax.xaxis.set_major_locator(x_major_locator)
     _finalize_figure(fig, _resolve_output_path(config, output_dir, 'ut_slice.png'), show)
 
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 256, n_origin)
-    x_index_fine = np.linspace(0, 100, n)
     if use_metadata:
         ax.plot(x_index_fine, ux[:, int(m / 2)], color='red', label='Metadata')
     ax.plot(x_index, ux_origin[:, int(m_origin / 2)], color='blue', linestyle='--')
     ax.set_ylabel('$U_x$', fontsize=18)
     ax.set_xlabel('x', fontsize=18)
-    x_major_locator = MultipleLocator(32)
-    ax.xaxis.set_major_locator(x_major_locator)
     _finalize_figure(fig, _resolve_output_path(config, output_dir, 'ux_slice.png'), show)
 
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 100, n_origin)
-    x_index_fine = np.linspace(0, 100, n)
     if use_metadata:
         ax.plot(x_index_fine, uxx[:, int(m / 2)], color='red', label='Metadata')
     ax.plot(x_index, uxx_origin[:, int(m_origin / 2)], color='blue', linestyle='--', label='Raw data')
@@ -112,8 +104,6 @@ def plot_figures(context, config, *, output_dir=None, show=False):
 
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 100, n_origin)
-    x_index_fine = np.linspace(0, 100, n)
     if use_metadata:
         ax.plot(x_index_fine, u[:, int(m / 2)], color='red', label='Metadata')
     ax.plot(x_index, u_origin[:, int(m_origin / 2)], color='blue', linestyle='--', label='Raw data')
@@ -123,19 +113,15 @@ def plot_figures(context, config, *, output_dir=None, show=False):
 
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 100, (n2_origin - n1_origin))
-    x_index_fine = np.linspace(0, 100, (n2 - n1))
     if use_metadata:
-        ax.plot(x_index_fine, right_side[:, int((m2 - m1) / 2)], color='red', label='Metadata')
-    ax.plot(x_index, right_side_origin[:, int((m2_origin - m1_origin) / 2)], color='blue', linestyle='--', label='Raw data')
+        ax.plot(x_index_fine[n1:n2], right_side[:, int((m2 - m1) / 2)], color='red', label='Metadata')
+    ax.plot(x_index[n1_origin:n2_origin], right_side_origin[:, int((m2_origin - m1_origin) / 2)], color='blue', linestyle='--', label='Raw data')
     ax.set_title('Right side')
     ax.legend(loc='upper left')
     _finalize_figure(fig, _resolve_output_path(config, output_dir, 'rhs_slice.png'), show)
 
     fig = plt.figure(figsize=(5, 3))
     ax = fig.add_subplot(1, 1, 1)
-    x_index = np.linspace(0, 100, n_origin)
-    x_index_fine = np.linspace(0, 100, n)
     if use_metadata:
         ax.plot(x_index_fine, (ut - right_side_full)[:, int(m / 2)], color='red', label='Metadata')
     ax.plot(x_index, (ut_origin - right_side_full_origin)[:, int(m_origin / 2)], color='blue', linestyle='--', label='Raw data')
-- 
2.43.0


From ea927577e611c536509757b3b65d220abaf4af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:52 +0000
Subject: [PATCH 78/80] fix: a missing metadata network ends the whole process
 instead of raising

---
 kd/model/sga/sgapde/context.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index a91779b..2152bec 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -8,7 +8,6 @@ import scipy.io as scio
 import torch
 import torch.nn as nn
 from torch.autograd import Variable
-import sys
 import os
 
 from .PDE_find import Diff, Diff2, FiniteDiff, FiniteDiff2
@@ -1133,12 +1132,11 @@ class ProblemContext:
         model = Net(self.config.num_feature, self.config.hidden_dim, 1)
         try:
             model.load_state_dict(torch.load(self.config.model_path, map_location=self.device))
-        except FileNotFoundError:
-            print(
+        except FileNotFoundError as e:
+            raise FileNotFoundError(
                 "[SGA Metadata ERROR] Failed to generate metadata because the "
                 f"pretrained model was not found: {self.config.model_path}"
-            )
-            sys.exit(1)
+            ) from e
         model.to(self.device)
 
         # 1. 计算原始数据 u_origin 的均值和标准差，用于后续的反归一化
-- 
2.43.0


From db56532d8df7c02cafc2452696e4c782a9a7ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:39 +0000
Subject: [PATCH 79/80] fix: solve the dense SGA regression with unit columns
 so small-unit terms get true least-squares weights

---
 kd/model/sga/sgapde/PDE_find.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index e4c37cf..af8e823 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -110,7 +110,11 @@ def Train(R, Ut, lam, d_tol, AIC_ratio=1, maxit=10, STR_iters=10, l0_penalty=1,
                 k += 1
         return AIC_ratio*2*k+2*np.log(err)
 
-    w_best = np.linalg.lstsq(TrainR, TrainY)[0]
+    # Solve with unit columns: lstsq would otherwise treat terms that are merely small
+    # in the data's units as linearly dependent and return meaningless weights for them.
+    scale = np.linalg.norm(TrainR, axis=0).reshape(-1, 1)
+    scale[~(scale > np.finfo(float).tiny)] = 1.0
+    w_best = np.linalg.lstsq(TrainR / scale.T, TrainY)[0] / scale
     # 基于w_best计算误差，包括data_error_best，AIC_best
     data_err_best = np.linalg.norm(TestY - TestR.dot(w_best), 2)
     err_best = np.linalg.norm(TestY - TestR.dot(w_best), 2) + l0_penalty * np.count_nonzero(w_best)
-- 
2.43.0


From c9429ab393fb640d9ba62e63ff5f28f6605d208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:17 +0000
Subject: [PATCH 80/80] fix: a batch whose valid expressions all have zero
 reward ends the search in a crash

---
 kd/model/discover/searcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..ba18021 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -84,7 +84,7 @@ def quantile_select(actions, obs, priors,programs, r, epsilon):
     s           = list(compress(s, valid))
     s_str       = list(compress(s_str, valid))
     
-    if len(actions)<1:
+    if len(actions)<1 or len(r_full_valid)<1:
         print("no valid training samples")
         # continue when no valid or high-rewards samples
         return None
-- 
2.43.0

