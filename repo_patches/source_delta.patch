From 4f43103dede56c703aa77c220daa83410e398160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 01/79] fix: accept the documented long name
 timevarying_parameter in Model.set_variable

---
 do_mpc/model/_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 681aa34..a78d283 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -586,8 +586,8 @@ class Model:
         var_type =var_type.replace('states', '_x'
             ).replace('inputs', '_u'
             ).replace('algebraic', '_z'
-            ).replace('parameter', '_p'
-            ).replace('timevarying_parameter', '_tvp')
+            ).replace('timevarying_parameter', '_tvp'
+            ).replace('parameter', '_p')
 
         # Check validity of var_type:
         assert var_type in ['_x','_u','_z','_p','_tvp'], 'Trying to set non-existing variable var_type: {} with var_name {}'.format(var_type, var_name)
-- 
2.43.0


From 1dfdd4459b0a4094899db620a2c35b75618c087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/79] fix: models that were unpickled can be pickled and
 loaded again

---
 do_mpc/model/_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index a78d283..1029827 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -152,10 +152,10 @@ class Model:
         self.__dict__.update(state)
 
         # Update expressions with new symbolic variables created when unpickling:
-        self._rhs = self._rhs(self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._alg = self._alg(self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._aux_expression = self._aux_expression(self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
-        self._y_expression = self._y_expression(self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))
+        self._rhs.master = self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._alg.master = self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._aux_expression.master = self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p)
+        self._y_expression.master = self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v)
 
 
     def __getitem__(self, ind):
-- 
2.43.0


From d52fccb98eae18d1e8b38d980baa46e06f74aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 03/79] fix: terminal cost of every branch uses the terminal
 state of that branch

---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index ec19579..6e6ef87 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1235,7 +1235,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # In the last step add the terminal cost too
                     if k == self._settings.n_horizon - 1:
-                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s, -1], opt_p['_tvp', k+1],
+                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, child_scenario[k][s][b], -1], opt_p['_tvp', k+1],
                                                          opt_p['_p', current_scenario])
 
                     # U regularization:
-- 
2.43.0


From e6de1d1fb4cf38c1ea10da3c56463c44c4d238ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 04/79] fix: custom rterm compares the input with the previous
 input in physical units

---
 do_mpc/controller/_mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 6e6ef87..c92f8b0 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1242,10 +1242,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     # For user defined penalty term
                     if self.flags['rterm_fun'] == True:
                         if k==0:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
-- 
2.43.0


From 8863baeb97d27e4ff2b48f4775808f4cd4e0fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 05/79] fix: use the algebraic states of the own branch in
 stage terms of the scenario tree

---
 do_mpc/controller/_mpc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index c92f8b0..101e63f 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1210,7 +1210,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, i],
+                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
@@ -1218,7 +1218,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     else:
                         # Ensure nonlinear constraints only on the beginning of the FE
                         nl_cons_k = self._nl_cons_fun(
-                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, 0],
+                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],
                             opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                         cons.append(nl_cons_k)
                         cons_lb.append(self._nl_cons_lb)
@@ -1229,7 +1229,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
@@ -1243,10 +1243,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1256,12 +1256,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
                     opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
-- 
2.43.0


From e5e784707920cd60b16109993fddff0b0b4368ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 06/79] fix: nl_cons_check_colloc_points checks the points of
 the current interval, also for discrete models

---
 do_mpc/controller/_mpc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 101e63f..572f942 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1206,11 +1206,17 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     cons_ub.append(np.zeros((self.model.n_x, 1)))
 
                     k_eps = min(k, n_eps-1)
-                    if self._settings.nl_cons_check_colloc_points:
+                    if self._settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
+                            # The first point is the state at the beginning of the interval,
+                            # all following points are stored with the next time-step.
+                            if i == 0:
+                                x_i = opt_x_unscaled['_x', k, s, -1]
+                            else:
+                                x_i = opt_x_unscaled['_x', k+1, child_scenario[k][s][b], i-1]
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
+                                x_i, opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From 8b29f4ba4dc31e90c5e0eb2d2e7c27dd3267f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 07/79] fix: stage cost, rterm and auxiliary expressions of the
 MPC use the algebraic state at the beginning of the interval

---
 do_mpc/controller/_mpc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 572f942..56a26a0 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1235,7 +1235,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
@@ -1249,10 +1249,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1262,12 +1262,12 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
                     opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
-- 
2.43.0


From 56822dea726c8f8ba2f61b708c2d19a7e6675fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 08/79] fix: terminal_bounds can be queried and changed after
 setup without changing the state bounds

---
 do_mpc/controller/_mpc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 56a26a0..0b57c7f 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -431,9 +431,9 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert bound_type in ('lower', 'upper'), err_msg.format(bound_type)
 
         if bound_type == 'lower':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='lb')
+            query = '_x_terminal_lb'
         elif bound_type == 'upper':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='ub')
+            query = '_x_terminal_ub'
         # query results string e.g. _x_lb, _x_ub
 
         # Get the desired struct:
@@ -467,9 +467,18 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         err_msg = 'Calling .bounds with {} is not valid. Possible keys are {}.'
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
+        # Terminal bounds that default to the bounds of the states must not change these:
+        if var_struct is self._x_lb or var_struct is self._x_ub:
+            var_struct = self.model._x(castools.DM(var_struct.cat))
+            setattr(self, query, var_struct)
+
         # Set value on struct:
         var_struct[var_name] = val
 
+        # Update bounds of the optimization problem (if it already exists):
+        if self.flags['prepare_nlp']:
+            self._update_bounds()
+
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
         
-- 
2.43.0


From f9a83f084d2b4924ee34ed60230e765788082d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/79] fix: accept a casadi DM to set the current time

---
 do_mpc/model/_iteratedvariables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 9a1d35e..a96455c 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -205,7 +205,7 @@ class IteratedVariables:
             assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
             self._t0 = val.flatten()
         elif isinstance(val, castools.DM):
-            assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
+            assert val.numel() == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.shape)
             self._t0 = val.full().flatten()
         else:
             types = (np.ndarray, float, int, castools.DM)
-- 
2.43.0


From 31b4f494932e2e519c23a3470388eb1167a482a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/79] fix: use the settings object passed to MPC

---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 0b57c7f..1e8aa5a 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -166,7 +166,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         self._opt_p_num = None
 
         # initialize MPC _settings class
-        self._settings = MPCSettings()
+        self._settings = MPCSettings() if settings is None else settings
 
         # Flags are checked when calling .setup.
         self.flags.update({
-- 
2.43.0


From 0698ec2c5821e86845154cd075828638c802578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 11/79] fix: set_objective works with only one of mterm and
 lterm

---
 do_mpc/controller/_mpc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 1e8aa5a..d15b74a 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -547,6 +547,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             assertion: mterm must have ``shape=(1,1)`` (scalar expression)
             assertion: lterm must have ``shape=(1,1)`` (scalar expression)
         """
+        if mterm is None:
+            mterm = castools.DM(0)
+        if lterm is None:
+            lterm = castools.DM(0)
         assert mterm.shape == (1,1), 'mterm must have shape=(1,1). You have {}'.format(mterm.shape)
         assert lterm.shape == (1,1), 'lterm must have shape=(1,1). You have {}'.format(lterm.shape)
         assert self.flags['setup'] == False, 'Cannot call .set_objective after .setup().'
@@ -562,17 +566,11 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         if not isinstance(lterm, (castools.DM, castools.SX, castools.MX)):
             raise Exception('lterm must be of type casadi.DM, casadi.SX or casadi.MX. You have: {}.'.format(type(lterm)))
 
-        if mterm is None:
-            self.mterm = castools.DM(0)
-        else:
-            self.mterm = mterm
+        self.mterm = mterm
         # TODO: This function should be evaluated with scaled variables.
         self.mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
 
-        if lterm is None:
-            self.lterm = castools.DM(0)
-        else:
-            self.lterm = lterm
+        self.lterm = lterm
 
         self.lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
 
-- 
2.43.0


From 2989d4b9ca398ff6a6ccc06c86a2efd6be595e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 12/79] fix: penalties of soft constraints are not counted
 twice when the NLP is prepared again

---
 do_mpc/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 4a2dff7..fbfd37b 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -565,6 +565,7 @@ class Optimizer:
         self._eps_ub = _eps(np.inf)
 
         # Set bounds, add slack variable to constraint and add cost.
+        self.slack_cost = 0
         for slack_i in self.slack_vars_list:
             self._eps_ub[slack_i['slack_name']] = slack_i['ub']
             self._nl_cons[slack_i['slack_name']] -= self._eps[slack_i['slack_name']]
-- 
2.43.0


From 3f3a1d2c192e6208fbdb90a1a975995c1b086c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 13/79] fix: compile_nlp uses the casadi nlpsol function

---
 do_mpc/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index fbfd37b..5f1bdd1 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -699,7 +699,7 @@ class Optimizer:
 
         ::
 
-            self.S = nlpsol('solver_compiled', 'ipopt', f'{libname}', self.nlpsol_opts)      
+            self.S = castools.nlpsol('solver_compiled', 'ipopt', f'{libname}', self.nlpsol_opts)      
 
         Args:
             overwrite: If True, the existing compiled NLP will be overwritten.
@@ -726,7 +726,7 @@ class Optimizer:
             subprocess.Popen(compiler_command, shell=True).wait()
 
         # Overwrite solver object with loaded nlp:
-        self.S = nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+        self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From c7bfa8b27dcd7cf6f9ed9e85876ba6fbcc9343a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 14/79] fix: MHE uses estimated parameters in physical units in
 measurement equation, costs and constraints

---
 do_mpc/estimator/_mhe.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 8b77e9a..7d5ccfd 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1112,6 +1112,8 @@ class MHE(Optimizer, Estimator):
 
         # Get concatenated parameters vector containing the estimated and fixed parameters (scaled)
         _p = self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling)
+        # Parameters in physical units (the scaling of _p is considered only in the discretized system equations):
+        _p_unscaled = self._p_cat_fun(opt_x_unscaled['_p_est'], opt_p['_p_set'])
 
         # For all control intervals
         for k in range(self.settings.n_horizon):
@@ -1124,7 +1126,7 @@ class MHE(Optimizer, Estimator):
 
             # Compute current measurement
             yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                opt_p['_tvp', k], _p, opt_x_unscaled['_v', k])
+                opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
             cons.append(g_ksb)
@@ -1147,7 +1149,7 @@ class MHE(Optimizer, Estimator):
                 for i in range(n_total_coll_points):
                     nl_cons_k = self._nl_cons_fun(
                         opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
-                        opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                        opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
                     cons_ub.append(self._nl_cons_ub)
@@ -1155,7 +1157,7 @@ class MHE(Optimizer, Estimator):
                 # Ensure nonlinear constraints only on the beginning of the FE
                 nl_cons_k = self._nl_cons_fun(
                     opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                    opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                    opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                 cons.append(nl_cons_k)
                 cons_lb.append(self._nl_cons_lb)
                 cons_ub.append(self._nl_cons_ub)
@@ -1165,7 +1167,7 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(self._nl_cons_ub)
 
             obj += self.stage_cost_fun(
-                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p
+                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled
             )
 
             # Add slack variables to the cost
@@ -1174,7 +1176,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From 5c138282c83bea74065ad4ae56d10e53e1301caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 15/79] fix: MHE measurement equation uses the algebraic states
 at the time of the measurement

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 7d5ccfd..0cdfc56 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1125,7 +1125,7 @@ class MHE(Optimizer, Estimator):
                                    _p, opt_x['_w', k])
 
             # Compute current measurement
-            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
+            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],
                 opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
-- 
2.43.0


From 52ef4598a00ac496b1f983837e9749072f267e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 16/79] fix: MHE auxiliary expressions use the algebraic state
 at the beginning of the interval

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 0cdfc56..ba5ed54 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1176,7 +1176,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From 6683143cc82642de42dfcda00c57cde7cb749409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 17/79] fix: MHE bounds hold for all states of the horizon with
 cons_check_colloc_points=False

---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index ba5ed54..86ecae9 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1005,8 +1005,8 @@ class MHE(Optimizer, Estimator):
             self.ub_opt_x['_z'] = self._z_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Bounds for the states on all discretize values along the horizon
-            self.lb_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_lb.cat
-            self.ub_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_ub.cat
+            self.lb_opt_x['_x', :, -1] = self._x_lb.cat
+            self.ub_opt_x['_x', :, -1] = self._x_ub.cat
 
             # Bounds for the algebraic states along the horizon
             self.lb_opt_x['_z', :, 0] = self._z_lb.cat
-- 
2.43.0


From 8a67399bd1779f1f15b0d01b9327d2c33917348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 18/79] fix: MHE nl_cons_check_colloc_points checks the points
 of the current interval, also for discrete models

---
 do_mpc/estimator/_mhe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 86ecae9..2e34df4 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1144,11 +1144,14 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(np.zeros((self.model.n_y, 1)))
 
             k_eps = min(k, n_eps-1)
-            if self.settings.nl_cons_check_colloc_points:
+            if self.settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                 # Ensure nonlinear constraints on all collocation points
                 for i in range(n_total_coll_points):
+                    # The first point is the state at the beginning of the interval,
+                    # all following points are stored with the next time-step.
+                    x_i = opt_x_unscaled['_x', k, -1] if i == 0 else opt_x_unscaled['_x', k+1, i-1]
                     nl_cons_k = self._nl_cons_fun(
-                        opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
+                        x_i, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
                         opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From ce9e8ef4cb6a1345c022a73654327fc58d07059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 19/79] fix: LQR in inputRatePenalization mode accepts the
 state as casadi DM or structure

---
 do_mpc/controller/_lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 44052b9..c6bcf46 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -323,7 +323,7 @@ class LQR(IteratedVariables):
         
         This method is used to augmented states and inputs for input rate penalization.
         """
-        x0 = np.block([[x],[u]])
+        x0 = np.block([[np.array(x)],[u]])
         return x0
         
     def set_objective(self, Q:np.ndarray, R:np.ndarray, P:np.ndarray = None)->None:
-- 
2.43.0


From cdc4cb84273a638a78fee88ad4225501ebc25b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 20/79] fix: LQR.set_setpoint can be called repeatedly in
 inputRatePenalization mode

---
 do_mpc/controller/_lqr.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index c6bcf46..62ee566 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -443,30 +443,28 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
-        # Set or reset xss. Don't change xss if it already exists and uss is not passed
-        if isinstance(xss, np.ndarray):
-            self.xss = xss
-        elif hasattr(self,'xss'):
-            pass
+        # Set points in use (in inputRatePenalization mode uss is part of the augmented set point xss)
+        xss_old = self.xss[:self.model.n_x] if hasattr(self,'xss') else np.zeros((self.model.n_x,1))
+        if not hasattr(self,'uss'):
+            uss_old = np.zeros((self.model.n_u,1))
+        elif self.mode == 'inputRatePenalization':
+            uss_old = self.xss[self.model.n_x:]
         else:
-            self.xss = np.zeros((self.model.n_x,1))
+            uss_old = self.uss
+
+        # Don't change a set point that already exists and is not passed
+        xss = xss.copy() if isinstance(xss, np.ndarray) else xss_old
+        uss = uss.copy() if isinstance(uss, np.ndarray) else uss_old
+
+        assert xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),xss.shape)
+        assert uss.shape == (self.model.n_u,1), 'uss must be of shape {}. You have {}'.format((self.model.n_u,1),uss.shape)
 
-        # Set or reset uss. Don't change uss if it already exists and uss is not passed
-        if isinstance(uss, np.ndarray): 
-            self.uss = uss
-        elif hasattr(self,'uss'):
-            pass
-        else:
-            self.uss = np.zeros((self.model.n_u,1))
-        
         if self.mode == 'inputRatePenalization':
-            self.xss = np.block([[self.xss],[self.uss]])
+            self.xss = np.block([[xss],[uss]])
             self.uss = np.zeros((self.model.n_u,1))
-            assert self.xss.shape == (self.model.n_x+self.model.n_u,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x+self.model.n_u,1),self.xss.shape)
-        
-        if self.mode == 'standard':
-            assert self.xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),self.xss.shape)
-        assert self.uss.shape == (self.model.n_u,1), 'uss must be of shape {}. You have {}'.format((self.model.n_u,1),self.uss.shape)
+        else:
+            self.xss = xss
+            self.uss = uss
     
     def setup(self)->None:
         """Prepares :py:class:`LQR` for execution.
-- 
2.43.0


From 6424fd9732a830c265ec4778259b0ab141fe5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 21/79] fix: LQR.setup can be called again in
 inputRatePenalization mode

---
 do_mpc/controller/_lqr.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 62ee566..e5d0d29 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -479,13 +479,14 @@ class LQR(IteratedVariables):
         if self.mode in ['standard',None]:
             self.K = self.discrete_gain(self.model._A,self.model._B)
         elif self.mode == 'inputRatePenalization':
-            #Modifying Q and R matrix for input rate penalization
-            zeros_Q = np.zeros((np.shape(self.Q)[0],np.shape(self.R)[1]))
-            zeros_Ru = np.zeros((np.shape(self.R)[0],np.shape(self.Q)[1]))
-            self.Q = np.block([[self.Q,zeros_Q],[zeros_Ru,self.R]])            
-            if self.settings.n_horizon != None:
-                self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])
-            self.R = self.delR
+            #Modifying Q and R matrix for input rate penalization (unless done by a previous call)
+            if np.shape(self.Q)[0] == self.model.n_x:
+                zeros_Q = np.zeros((np.shape(self.Q)[0],np.shape(self.R)[1]))
+                zeros_Ru = np.zeros((np.shape(self.R)[0],np.shape(self.Q)[1]))
+                self.Q = np.block([[self.Q,zeros_Q],[zeros_Ru,self.R]])            
+                if self.settings.n_horizon != None:
+                    self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])
+                self.R = self.delR
             
             if hasattr(self, "A_rated") and hasattr(self, "B_rated"):
                 self.K = self.discrete_gain(self.A_rated,self.B_rated)
-- 
2.43.0


From 39d5737ca5d211067e4d5cf74f55ca980f0f327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 22/79] fix: LinearModel.discretize keeps the feedthrough
 matrix

---
 do_mpc/model/_linearmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index c999827..1a43289 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -275,7 +275,7 @@ class LinearModel(Model):
         self._transfer_variables(self, discreteModel)
 
         # Setup linearized model
-        discreteModel.setup(A,B,C)
+        discreteModel.setup(A,B,C,D)
         
         return discreteModel 
  
-- 
2.43.0


From dbcc3ab2b0d097fb21389cc0ff3c53dc0cd3c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 23/79] fix: linearize works for state measurements with
 feedthrough

---
 do_mpc/model/_linearize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/do_mpc/model/_linearize.py b/do_mpc/model/_linearize.py
index 00e25ce..4bf902c 100644
--- a/do_mpc/model/_linearize.py
+++ b/do_mpc/model/_linearize.py
@@ -91,9 +91,8 @@ def linearize(model:Model,
     n_u = model.n_u
     
     # Check for trivial measurement equation
-    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():
+    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == 0).all():
         C = None
-    if D.shape == (n_x,n_u) and (D == np.zeros((n_x,n_u))).all():
         D = None
     
     # Setup linearized model
-- 
2.43.0


From 83daa08eb94b1ea34858ce90fae30714a7aef3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 24/79] fix: get_steady_state checks that the steady state is
 unique

---
 do_mpc/model/_linearmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index 1a43289..0199fe0 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -307,13 +307,13 @@ class LinearModel(Model):
         I = np.identity(np.shape(self.sys_A)[0])
         
         #Calculation of steady state
-        if np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) == self.x.shape[0]:
+        if np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) == self.x.shape[0]:
             assert np.all(uss) != None and isinstance(uss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.xss = np.linalg.inv(I-self.sys_A)@self.sys_B@uss
             self.uss = uss
             return self.xss
-        elif np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) != self.x.shape[0]:
-            raise ValueError("State matrix does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
+        elif np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) != self.x.shape[0]:
+            raise ValueError("I-A does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
         elif np.all(uss) == None and np.shape(self.sys_B)[0] != np.shape(self.sys_B)[1]:
             assert np.all(xss) != None and isinstance(xss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss
-- 
2.43.0


From de0da43b21c995b8b00fbdd33826982d7466d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 25/79] fix: dae2odeconversion supports vector-valued inputs

---
 do_mpc/model/_dae2odeconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 29e2770..4f6bfb5 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -95,8 +95,11 @@ def dae2odeconversion(model:Model)->Model:
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
+    u_count = 0
     for j in range(np.size(model.u.keys())-1):
-        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q',j])
+        n_u_j = model.u[model.u.keys()[j+1]].size()[0]
+        daeModel.set_rhs(model.u.keys()[j+1],q[u_count:u_count+n_u_j])
+        u_count += n_u_j
     
     z_count = 0
     for k in range(np.size(model.z.keys())-1):
-- 
2.43.0


From c30563bba0ae76e7937a7690f356ea1d56914607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 26/79] fix: dae2odeconversion of discrete models solves the
 algebraic equations at the next point

---
 do_mpc/model/_dae2odeconversion.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 4f6bfb5..cf06f5f 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -93,7 +93,15 @@ def dae2odeconversion(model:Model)->Model:
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
-    z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
+    if model.model_type == 'continuous':
+        z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
+    else:
+        # Next algebraic states: solve the algebraic equations at the next states and inputs (exact if they are affine in z).
+        z_cat = castools.vertcat(*z_new)
+        z_sym = type(rhs_mod).sym('z_sym', model.n_z)
+        alg_next = model._alg_fun(rhs_mod,q,z_sym,castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
+        z_next = z_sym-castools.inv(castools.jacobian(alg_next,z_sym))@alg_next
+        z_next = castools.substitute(z_next,z_sym,z_cat)
     
     u_count = 0
     for j in range(np.size(model.u.keys())-1):
-- 
2.43.0


From ef5d5a4370461bdb177fda03746ef1a7a6c80b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 27/79] fix: dae2odeconversion assigns the process noise by
 name

---
 do_mpc/model/_dae2odeconversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index cf06f5f..85657ae 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -92,7 +92,8 @@ def dae2odeconversion(model:Model)->Model:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
-    rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
+    w_new = castools.vertcat(*[daeModel.w[key] for key in model.w.keys()]).reshape(model.w.cat.shape)
+    rhs_mod = castools.substitute(rhs,model.w.cat,w_new)
     if model.model_type == 'continuous':
         z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     else:
-- 
2.43.0


From 3f157b1b4951bb9c004b260c9cafdbc26a80c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 28/79] fix: dae2odeconversion supports matrix-valued
 parameters

---
 do_mpc/model/_dae2odeconversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 85657ae..a0c287f 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -81,7 +81,7 @@ def dae2odeconversion(model:Model)->Model:
     p_new = daeModel.p[model.p.keys()[1:]]
             
     #Converting rhs eq. with respect to variables of linear model of same name
-    rhs = model._rhs_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),model.w)
+    rhs = model._rhs_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.veccat(*tvp_new),castools.veccat(*p_new),model.w)
     rhs_new = castools.substitute(rhs,model.w.cat,np.zeros(model.n_w).reshape(model.n_w,1))
     x_count = 0
     for i in range(np.size(model.x.keys())):
@@ -91,7 +91,7 @@ def dae2odeconversion(model:Model)->Model:
         else:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
-    alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
+    alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.veccat(*tvp_new),castools.veccat(*p_new),daeModel.w)
     w_new = castools.vertcat(*[daeModel.w[key] for key in model.w.keys()]).reshape(model.w.cat.shape)
     rhs_mod = castools.substitute(rhs,model.w.cat,w_new)
     if model.model_type == 'continuous':
@@ -100,7 +100,7 @@ def dae2odeconversion(model:Model)->Model:
         # Next algebraic states: solve the algebraic equations at the next states and inputs (exact if they are affine in z).
         z_cat = castools.vertcat(*z_new)
         z_sym = type(rhs_mod).sym('z_sym', model.n_z)
-        alg_next = model._alg_fun(rhs_mod,q,z_sym,castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
+        alg_next = model._alg_fun(rhs_mod,q,z_sym,castools.veccat(*tvp_new),castools.veccat(*p_new),daeModel.w)
         z_next = z_sym-castools.inv(castools.jacobian(alg_next,z_sym))@alg_next
         z_next = castools.substitute(z_next,z_sym,z_cat)
     
-- 
2.43.0


From e9ec8edb67d2ac02c3b02f64aefd305947f001d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 29/79] fix: dae2odeconversion of MX models with constant
 algebraic states

---
 do_mpc/model/_dae2odeconversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index a0c287f..da0d9c4 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -104,6 +104,8 @@ def dae2odeconversion(model:Model)->Model:
         z_next = z_sym-castools.inv(castools.jacobian(alg_next,z_sym))@alg_next
         z_next = castools.substitute(z_next,z_sym,z_cat)
     
+    z_next = castools.densify(z_next)
+
     u_count = 0
     for j in range(np.size(model.u.keys())-1):
         n_u_j = model.u[model.u.keys()[j+1]].size()[0]
-- 
2.43.0


From a3a19d87c4f7d20bfb1cf440a71f2f359ce97fee Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 30/79] fix: save_pickle only adds a missing file extension

---
 do_mpc/tools/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 32751d3..da2dbe1 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -34,8 +34,9 @@ from ._timer import Timer
 
 
 def save_pickle(filename, data):
-    filename = filename.replace('.pkl','')
-    with open(filename + '.pkl', 'wb') as f:
+    if not filename.endswith('.pkl'):
+        filename = filename + '.pkl'
+    with open(filename, 'wb') as f:
         pickle.dump(data, f)
 
 def load_pickle(path_to_file):
-- 
2.43.0


From 940885ad5171239c7b51dec85eddf813665c7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 31/79] fix: an interrupted Sampler leaves no incomplete result
 files

---
 do_mpc/sampling/_sampler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/do_mpc/sampling/_sampler.py b/do_mpc/sampling/_sampler.py
index 6f06afb..f258842 100644
--- a/do_mpc/sampling/_sampler.py
+++ b/do_mpc/sampling/_sampler.py
@@ -189,10 +189,17 @@ class Sampler:
         Considers the ``overwrite`` parameter to check if existing results should be overwritten.
         """
         if not os.path.isfile(self.data_dir + save_name) or self.overwrite:
-            if self.save_format == 'pickle':
-                save_pickle(self.data_dir + save_name, result)
-            elif self.save_format == 'mat':
-                sio.savemat(self.data_dir + save_name, {'res': result})
+            # Write to a temporary file first: an interrupted run must not leave an incomplete result.
+            tmp_name = self.data_dir + '.tmp{pid}_{save_name}'.format(pid=os.getpid(), save_name=save_name)
+            try:
+                if self.save_format == 'pickle':
+                    save_pickle(tmp_name, result)
+                elif self.save_format == 'mat':
+                    sio.savemat(tmp_name, {'res': result})
+                os.replace(tmp_name, self.data_dir + save_name)
+            finally:
+                if os.path.isfile(tmp_name):
+                    os.remove(tmp_name)
 
 
     def sample_idx(self, idx:int)->None:
-- 
2.43.0


From d9fde8f4df27af246ed531ddf2b4034ac2751647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 32/79] fix: DataHandler can be indexed with lists and tuples

---
 do_mpc/sampling/_datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 8ddb6e6..5c44055 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -112,8 +112,10 @@ class DataHandler:
         try:
             if isinstance(ind, int):
                 samples = [self.sampling_plan[ind]]
-            elif isinstance(ind, (tuple, slice, list)):
+            elif isinstance(ind, slice):
                 samples = self.sampling_plan[ind]
+            elif isinstance(ind, (tuple, list)):
+                samples = [self.sampling_plan[i] for i in ind]
             else:
                 raise Exception('ind must be of type int, tuple, slice or list. You have {}'.format(type(ind)))
         except IndexError:
-- 
2.43.0


From d58b0f73e4d0cc3643309629a7c5fab5c1aa265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 33/79] fix: DataHandler filter functions can have local
 variables

---
 do_mpc/sampling/_datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 5c44055..eb5d15c 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -220,14 +220,14 @@ class DataHandler:
             if input_filter is None:
                 return True
             else:
-                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames})
+                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(input_filter).parameters})
 
         # Wrapper to ensure arbitrary arguments are accepted
         def wrap_fun_out(**kwargs):
             if output_filter is None:
                 return True
             else:
-                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames})
+                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(output_filter).parameters})
 
         # For each sample:
         for sample in self.sampling_plan:
-- 
2.43.0


From 0f0c768a65e24defc9b2fe8a8f9b14d74ce8589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 34/79] fix: DataHandler returns the current results after
 files, folder, name or format have changed

---
 do_mpc/sampling/_datahandler.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index eb5d15c..944131c 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -138,13 +138,22 @@ class DataHandler:
     def _lazy_loading(self,sample):
         """ Private method: Checks if data is already loaded to reduce the computational load.
         """
-        if sample['id'] in self.pre_loaded_data['id']:
-            ind = self.pre_loaded_data['id'].index(sample['id'])
+        # Loaded data are only valid for the file (and its content) they were read from.
+        load_name = self._load_name(sample['id'])
+        if os.path.isfile(load_name):
+            stat = os.stat(load_name)
+            load_id = (load_name, stat.st_mtime_ns, stat.st_size, stat.st_ino)
+        else:
+            load_id = None
+
+        if load_id in self.pre_loaded_data['id']:
+            ind = self.pre_loaded_data['id'].index(load_id)
             result = self.pre_loaded_data['data'][ind]
         else:
             result = self._load(sample['id'])
-            self.pre_loaded_data['id'].append(sample['id'])
-            self.pre_loaded_data['data'].append(result)
+            if load_id is not None:
+                self.pre_loaded_data['id'].append(load_id)
+                self.pre_loaded_data['data'].append(result)
 
         return result
 
@@ -242,8 +251,8 @@ class DataHandler:
         return return_list
 
 
-    def _load(self, sample_id):
-        """ Private method: Load data generated from a sampling plan, either '.pkl' or '.mat'
+    def _load_name(self, sample_id):
+        """ Private method: Name of the file with the result of the sample, depending on the chosen format.
         """
         name = '{sample_name}_{id}'.format(sample_name=self.sample_name, id=sample_id)
 
@@ -252,6 +261,13 @@ class DataHandler:
         elif self.save_format == 'mat':
             load_name = self.data_dir + name+'.mat'
 
+        return load_name
+
+    def _load(self, sample_id):
+        """ Private method: Load data generated from a sampling plan, either '.pkl' or '.mat'
+        """
+        load_name = self._load_name(sample_id)
+
         try:
             if self.save_format == 'pickle':
                 result = load_pickle(load_name)
-- 
2.43.0


From 314b011586009ddadb656b1252bed7944d9ac537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 35/79] fix: refuse post processing functions that would be
 ignored

---
 do_mpc/sampling/_datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 944131c..ec0f035 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -369,6 +369,7 @@ class DataHandler:
         # Check signature of function for number of arguments.
         sig = signature(post_processing_function)
         n_args = len(sig.parameters.keys())
+        assert n_args in (1, 2), 'post_processing_function must have one or two arguments, you have {}'.format(n_args)
 
         self.post_processing.update({name: {'function': post_processing_function, 'n_args': n_args}})
         self.flags['set_post_processing'] = True
\ No newline at end of file
-- 
2.43.0


From 478405824d35679a26820718efe75bc55265fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 36/79] fix: SamplingPlanner refuses a variable with the
 reserved name id

---
 do_mpc/sampling/_samplingplanner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/sampling/_samplingplanner.py b/do_mpc/sampling/_samplingplanner.py
index 0369759..c83221e 100644
--- a/do_mpc/sampling/_samplingplanner.py
+++ b/do_mpc/sampling/_samplingplanner.py
@@ -140,6 +140,7 @@ class SamplingPlanner:
             assertion: ``fun_var_pdf`` must be Function or BuiltinFunction
         """
         assert isinstance(name, str), 'name must be str, you have {}'.format(type(name))
+        assert name != 'id', 'The name id is reserved for the unique identifier of each case.'
         assert isinstance(fun_var_pdf, (types.FunctionType, types.BuiltinFunctionType, type(None))), 'fun_var_pdf must be either Function or BuiltinFunction_or_Method or None, you have {}'.format(type(fun_var_pdf))
         self.sampling_vars.append({'name':name, 'fun_var_pdf':fun_var_pdf})
         self.sampling_var_names.append(name)
-- 
2.43.0


From 04b2f627f0e6b24305bd3fd863d2f86ba73c1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 37/79] fix: Simulator records auxiliary values with the inputs
 and parameters of the current step

---
 do_mpc/simulator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 13426fc..15642de 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -675,11 +675,7 @@ class Simulator(do_mpc.model.IteratedVariables):
         self.sim_p_num['_tvp'] = tvp0
         self.sim_p_num['_w'] = w0
 
-        if self.flags['first_step']:
-            aux0 = self.sim_aux_expression_fun(x0, z0, self.sim_p_num)
-        else:
-            # .master is chosen so that a copy is created of the variables.
-            aux0 = self.sim_aux_num.master
+        aux0 = self.sim_aux_expression_fun(x0, z0, self.sim_p_num)
 
         x_next = self.simulate()
 
-- 
2.43.0


From 67f17d99d6b2eb699e397c88d97222ac00dd4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 38/79] fix: predictions follow the scenarios also for
 n_robust>2 and n_robust=n_horizon

---
 do_mpc/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 5f1bdd1..f43eb10 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -1015,8 +1015,6 @@ class Optimizer:
                 # For all uncertainty realizations
                 for b in range(n_branches[k]):
                     child_scenario[k][s][b] = scenario_counter
-                    structure_scenario[k][scenario_counter] = s
-                    structure_scenario[k+1][scenario_counter] = s
                     parent_scenario[k + 1][scenario_counter] = s
                     scenario_counter += 1
                 # Store the range of branches
@@ -1027,6 +1025,11 @@ class Optimizer:
                 else:
                     branch_offset[k][s] = s % n_branches[0]
 
+        # For each scenario (leaf of the tree) the index of its node at all stages
+        structure_scenario[nk] = np.arange(n_scenarios[-1])
+        for k in range(nk, 0, -1):
+            structure_scenario[k-1] = parent_scenario[k][structure_scenario[k]]
+
         self.scenario_tree = {
             'structure_scenario': structure_scenario,
             'n_branches': n_branches,
-- 
2.43.0


From f4875ca3fb69a38d29f196d8f0e0016f4e4fed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 39/79] fix: MPC auxiliary expressions are evaluated for each
 branch of the scenario tree

---
 do_mpc/controller/_mpc.py | 10 +++++-----
 do_mpc/data.py            |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index d15b74a..7b9b735 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1268,13 +1268,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                             obj += self.rterm_factor.cat.T@((opt_x['_u', k, s_u]-opt_x['_u', k-1, parent_scenario[k][s_u]])**2)
 
                     # Calculate the auxiliary expressions for the current scenario:
-                    opt_aux['_aux', k, s] = self.model._aux_expression_fun(
+                    opt_aux['_aux', k, child_scenario[k][s][b]] = self.model._aux_expression_fun(
                         opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
-                    # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
-                for s_ in range(n_scenarios[k],n_max_scenarios):
-                    opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
+            # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
+            for s_ in range(n_scenarios[k+1],n_max_scenarios):
+                opt_aux['_aux', k, s_] = self.model._aux_expression_fun(
+                    opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
         # Set bounds for all optimization variables
         self._update_bounds()
diff --git a/do_mpc/data.py b/do_mpc/data.py
index dc49ea5..0014e53 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -360,8 +360,8 @@ class MPCData(Data):
             else:
                 f_ind = self.opt_aux.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None))+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
-                # sort pred such that each column belongs to one scenario
-                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T
+                # sort pred such that each column belongs to one scenario (auxiliary expressions are stored with the child node)
+                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[1:,:].T].T
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
                 self.prediction_queries['f_ind'].append(f_ind)
-- 
2.43.0


From 5ee4f4dc4a381b36df1b15cc5d5581f196496fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 40/79] fix: predictions of algebraic states follow the
 scenario and start at the current time

---
 do_mpc/data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 0014e53..8b57a24 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -312,11 +312,14 @@ class MPCData(Data):
                 i = self.prediction_queries['ind'].index(ind)
                 f_ind = self.prediction_queries['f_ind'][i]
             else:
-                f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), -1)+ind[1:]]
+                # _x: last point is the node itself. _z: first point is the beginning of the interval.
+                i_point = -1 if ind[0] == '_x' else 0
+                f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), i_point)+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # sort pred such that each column belongs to one scenario
-                # - By indexing structure_scenario until f_ind.shape[0] we cover the case of _x and _z at the same time
-                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:f_ind.shape[0],:].T].T
+                # - _z is stored with the child node of the interval.
+                nodes = structure_scenario if ind[0] == '_x' else structure_scenario[1:,:]
+                f_ind = f_ind[range(f_ind.shape[0]),:,nodes.T].T
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
                 self.prediction_queries['f_ind'].append(f_ind)
-- 
2.43.0


From 2c646e2ccfe39f853b4f70ba4c0d93e480d59c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 41/79] fix: predictions of vector-valued time-varying
 parameters and (as documented) of parameters

---
 do_mpc/data.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 8b57a24..09329b6 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -348,9 +348,23 @@ class MPCData(Data):
                 i = self.prediction_queries['ind'].index(ind)
                 f_ind = self.prediction_queries['f_ind'][i]
             else:
-                f_ind = self.opt_p.f[(ind[0], slice(None))+ind[1:]]
-                f_ind = np.array(f_ind).reshape(1, -1, 1)
-                #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
+                # dimensions: n_size, n_horizon+1, n_scenario=1
+                f_ind = [np.ravel(self.opt_p.f[(ind[0], k)+ind[1:]]) for k in range(structure_scenario.shape[0])]
+                f_ind = np.array(f_ind, dtype='int32').T[:,:,None]
+                # Store f_ind:
+                self.prediction_queries['ind'].append(ind)
+                self.prediction_queries['f_ind'].append(f_ind)
+            out = _opt_p_num[t_ind,f_ind]
+
+        elif ind[0]=='_p':
+            if ind in self.prediction_queries['ind']:
+                i = self.prediction_queries['ind'].index(ind)
+                f_ind = self.prediction_queries['f_ind'][i]
+            else:
+                # parameter realization of each interval and scenario (the branches are numbered consecutively)
+                n_combinations = len(self.opt_p['_p', :])
+                f_ind = [np.ravel(self.opt_p.f[(ind[0], i)+ind[1:]]) for i in range(n_combinations)]
+                f_ind = np.array(f_ind, dtype='int32').T[:, structure_scenario[1:,:] % n_combinations]
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
                 self.prediction_queries['f_ind'].append(f_ind)
-- 
2.43.0


From add67b8a182af40fbab6c63605ab9e6928897834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 42/79] fix: return_status and iterations can be stored as
 solver stats

---
 do_mpc/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 09329b6..2f0f748 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -208,7 +208,8 @@ class Data:
             if type(value) == castools.DM:
                 # Convert to numpy
                 value = value.full()
-            elif type(value) in [float, int, bool]:
+            elif type(value) in [float, int, bool, str, dict]:
+                # str and dict are solver stats (return_status and iterations)
                 value = np.array(value)
             # Get current results array for the given key:
             arr = getattr(self, key)
-- 
2.43.0


From 7c07c6dd72d61fbd53e978506df52af705be5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 43/79] fix: save_results changes no existing file when
 processes save at the same time or results cannot be serialized

---
 do_mpc/data.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 2f0f748..506baf1 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -425,8 +425,7 @@ def save_results(save_list:list,
     assert isinstance(result_path, str), 'results_path must be a string.'
     assert isinstance(overwrite, bool), 'overwrite must be boolean.'
 
-    if not os.path.exists(result_path):
-        os.makedirs(result_path)
+    os.makedirs(result_path, exist_ok=True)
 
     results = {}
 
@@ -440,17 +439,21 @@ def save_results(save_list:list,
         else:
             raise Exception('save_list contains object which is neither do_mpc simulator, optimizizer nor estimator.')
 
+    # Nothing is written if the results cannot be serialized.
+    results = pickle.dumps(results)
+
     # Dynamically generate new result name if name is already taken in result_path.
-    if overwrite==False:
-        ind = 1
-        ext_result_name = result_name
-        while os.path.isfile(result_path+ext_result_name+'.pkl'):
+    ext_result_name = result_name
+    ind = 1
+    while True:
+        try:
+            # Mode 'xb' fails if the file exists (also if it is created by another process at the same time).
+            with open(result_path+ext_result_name+'.pkl', 'wb' if overwrite else 'xb') as f:
+                f.write(results)
+            break
+        except FileExistsError:
             ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
             ind += 1
-        result_name = ext_result_name
-
-    with open(result_path+result_name+'.pkl', 'wb') as f:
-        pickle.dump(results, f)
 
 def load_results(file_name:str)->Dict:
     """ Simple wrapper to open and unpickle a file.
-- 
2.43.0


From 10ebb2e9bf3278e8fb75296b08cad8e0ffce6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 44/79] fix: save_results writes into result_path also without
 trailing separator

---
 do_mpc/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 506baf1..2214b7e 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -448,7 +448,7 @@ def save_results(save_list:list,
     while True:
         try:
             # Mode 'xb' fails if the file exists (also if it is created by another process at the same time).
-            with open(result_path+ext_result_name+'.pkl', 'wb' if overwrite else 'xb') as f:
+            with open(os.path.join(result_path, ext_result_name+'.pkl'), 'wb' if overwrite else 'xb') as f:
                 f.write(results)
             break
         except FileExistsError:
-- 
2.43.0


From 6ec8d8fe3b4034a81bef77dcbe9d34956e239549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 45/79] fix: bounds/scaling/terminal_bounds objects stay bound
 to the object they were taken from

---
 do_mpc/tools/_indexedproperty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/tools/_indexedproperty.py b/do_mpc/tools/_indexedproperty.py
index 93542e6..902bd8e 100644
--- a/do_mpc/tools/_indexedproperty.py
+++ b/do_mpc/tools/_indexedproperty.py
@@ -22,8 +22,10 @@ class IndexedProperty(object):
         self.__doc__ = doc
 
     def __get__(self, obj, objtype=None):
-        self.obj = obj
-        return self
+        # The property object itself is shared between all instances of a class.
+        bound = type(self)(self.fget, self.fset, self.__doc__)
+        bound.obj = obj
+        return bound
 
     def __getitem__(self,ind):
         return self.fget(self.obj,ind)
-- 
2.43.0


From c0994f39af1b840f15990b615cd3cc13bdfafe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 46/79] fix: x0, u0 and z0 copy the structure or DM they are
 set from

---
 do_mpc/model/_iteratedvariables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index a96455c..91ee9bf 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -48,7 +48,7 @@ class IteratedVariables:
         Pass ``val`` which can be an int, float, array, structure and return
         a numerical structure based on the second argument ``structure``.
 
-        If a structure is passed, return the structure unchanged.
+        The returned structure holds a copy of the passed values.
 
         Performs some sanity checks.
         """
@@ -63,11 +63,11 @@ class IteratedVariables:
         n_var = struct.size
         assert n_val == n_var, err_msg.format(n_val, n_var)
 
-        # Convert to structure (or return structure)
+        # Convert to structure (with a copy of the passed values)
         if isinstance(val, (np.ndarray, castools.DM)):
-            val = struct(val)
+            val = struct(castools.DM(val))
         elif isinstance(val, castools.structure3.DMStruct):
-            pass
+            val = struct(castools.DM(val.cat))
         else:
             types = (np.ndarray, castools.DM, castools.structure3.DMStruct)
             raise Exception('x0 must be of tpye {}. You have: {}'.format(types, type(val)))
-- 
2.43.0


From 1d19e583737c37ab9487ff8aca8a344571a96772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 47/79] fix: integration_opts is no longer shared between all
 simulators

---
 do_mpc/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 15642de..44c9a21 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -31,7 +31,7 @@ import pdb
 import warnings
 import do_mpc
 from typing import Union,Callable
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Dict
 
 
@@ -61,6 +61,7 @@ class SimulatorSettings:
             raise ValueError("t_step must be set")
 
 
+@dataclass
 class ContinousSimulatorSettings(SimulatorSettings):
     """Settings for :py:class:`Simulator` for continous-time systems.
     
@@ -96,7 +97,7 @@ class ContinousSimulatorSettings(SimulatorSettings):
     integration_tool: str = 'cvodes'
     """Integration tool to be used. Options are 'cvodes' and 'idas'"""
 
-    integration_opts: Dict = {}
+    integration_opts: Dict = field(default_factory=dict)
     """Dictionary with options for the CasADi integrator call. Used tu update the opts dict in :py:func:`setup`.
     
     All options are listed `here <https://casadi.sourceforge.net/api/html/db/d3d/classcasadi_1_1Integrator.html>`_."""
-- 
2.43.0


From 0f8eb315123652b2d5ea880c5a38a93789a52d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 48/79] fix: supress_ipopt_output and set_linear_solver do not
 alter a dictionary shared with other objects

---
 do_mpc/controller/_controllersettings.py | 4 ++--
 do_mpc/estimator/_estimatorsettings.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/controller/_controllersettings.py b/do_mpc/controller/_controllersettings.py
index a2153cc..ebd36f7 100644
--- a/do_mpc/controller/_controllersettings.py
+++ b/do_mpc/controller/_controllersettings.py
@@ -154,7 +154,7 @@ class MPCSettings(ControllerSettings):
         This method set the revelvant settings in the ipopt solver in order to supress the output log.
         """
         supress_ipopt = {'ipopt.print_level':0, 'ipopt.sb': 'yes', 'print_time':0}
-        self.nlpsol_opts.update(supress_ipopt)
+        self.nlpsol_opts = {**self.nlpsol_opts, **supress_ipopt}
 
     def set_linear_solver(self,solver_name: str = "MA27"):
         """Method to set the linear solver to ``MA27``.
@@ -171,5 +171,5 @@ class MPCSettings(ControllerSettings):
         Args:
             solver_name: Specify the linear solver name
         """  
-        self.nlpsol_opts['ipopt.linear_solver'] = solver_name
+        self.nlpsol_opts = {**self.nlpsol_opts, 'ipopt.linear_solver': solver_name}
 
diff --git a/do_mpc/estimator/_estimatorsettings.py b/do_mpc/estimator/_estimatorsettings.py
index efdc5ef..9cd9e1e 100644
--- a/do_mpc/estimator/_estimatorsettings.py
+++ b/do_mpc/estimator/_estimatorsettings.py
@@ -129,7 +129,7 @@ class MHESettings(EstimatorSettings):
          This method set the revelvant settings in the ipopt solver in order to supress the output log.
         """
         supress_ipopt = {'ipopt.print_level':0, 'ipopt.sb': 'yes', 'print_time':0}
-        self.nlpsol_opts.update(supress_ipopt)
+        self.nlpsol_opts = {**self.nlpsol_opts, **supress_ipopt}
 
     def set_linear_solver(self,solver_name: str = "MA27"):
         """Method to set the linear solver to ``MA27``.
@@ -146,4 +146,4 @@ class MHESettings(EstimatorSettings):
         Args:
             solver_name: Specify the solver name.
         """  
-        self.nlpsol_opts['ipopt.linear_solver'] = solver_name
\ No newline at end of file
+        self.nlpsol_opts = {**self.nlpsol_opts, 'ipopt.linear_solver': solver_name}
\ No newline at end of file
-- 
2.43.0


From a3fc33b07eefb22002f932bf81f8e957590aee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 49/79] fix: differentiator setting set_lam_zero reads the
 multipliers before changing them

---
 do_mpc/differentiator/_nlpdifferentiator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 033d427..43d8088 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -417,13 +417,14 @@ class NLPDifferentiator:
         where_cons_active = np.concatenate((where_g_active,where_x_active+self.n_g))
         where_cons_inactive = np.concatenate((where_g_inactive,where_x_inactive+self.n_g))
 
-        # set lagrange multipliers of inactive constraints to zero
-        if self.settings.set_lam_zero:
-            lam_num[where_cons_inactive] = 0
-        
         # stack primal and dual solution
         x_num = nlp_sol["x"]
         lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
+
+        # set lagrange multipliers of inactive constraints to zero
+        if self.settings.set_lam_zero:
+            lam_num[where_cons_inactive] = 0
+
         z_num = ca.vertcat(x_num,lam_num)
 
         return z_num, where_cons_active        
-- 
2.43.0


From 576d2d6a1eeab462c9aac23431ea43a3cd1bb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 50/79] fix: differentiator works with the scipy solver for a
 single parameter

---
 do_mpc/differentiator/_nlpdifferentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 43d8088..3738a23 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -23,6 +23,7 @@
 import numpy as np
 import scipy.linalg as sp_linalg
 import scipy.sparse as sp_sparse
+import scipy.sparse.linalg
 import casadi as ca
 import casadi.tools as castools 
 from dataclasses import dataclass
@@ -484,7 +485,7 @@ class NLPDifferentiator:
         try:
             if lin_solver == 'scipy':
                 logging.info("Solving linear system with Scipy.")
-                param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.tocsc())
+                param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.full()).reshape(B_num.shape)
 
             elif lin_solver == 'casadi':
                 logging.info("Solving linear system with Casadi.")
-- 
2.43.0


From 28e24b0dbfa78ed38fc2caabb0953222d5e309c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 51/79] fix: a singular sensitivity system is reported as not
 solved

---
 do_mpc/differentiator/_nlpdifferentiator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 3738a23..9fa0998 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -499,6 +499,9 @@ class NLPDifferentiator:
             else:
                 raise Exception("Linear solver not recognized.")
 
+            if not np.all(np.isfinite(np.array(param_sens))):
+                raise np.linalg.LinAlgError("Linear system is singular.")
+
             self.status.lse_solved = True
 
         except Exception as e:
-- 
2.43.0


From 0d3fe6bb7e98807eeb8cda39af908c1f490fb617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 52/79] fix: strict complementarity is only checked for
 inequality constraints

---
 do_mpc/differentiator/_nlpdifferentiator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 9fa0998..af4e56a 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -641,7 +641,10 @@ class NLPDifferentiator:
         Checks if the strict complementarity is satisfied.
         """
 
-        # lagrange multipliers for active set
+        # lagrange multipliers for active set (inequality constraints only)
+        lb = np.array(ca.vertcat(self.nlp_bounds["lbg"], self.nlp_bounds["lbx"])).flatten()
+        ub = np.array(ca.vertcat(self.nlp_bounds["ubg"], self.nlp_bounds["ubx"])).flatten()
+        where_cons_active = where_cons_active[lb[where_cons_active] != ub[where_cons_active]]
         lam_num = lam_num[where_cons_active]
         # check if all absolute values of lagrange multipliers are strictly greater than active set tolerance
         if np.all(np.abs(lam_num) >= self.settings.active_set_tol):
-- 
2.43.0


From f72392f5cc3bc0a9de2b501d8416a101dc0bd54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 53/79] fix: differentiator refuses parameter vectors of wrong
 length also if unused parameters are removed

---
 do_mpc/differentiator/_nlpdifferentiator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index af4e56a..f770cb0 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -691,6 +691,8 @@ class NLPDifferentiator:
         
         # reduce NLP solution if necessary
         if self.status.reduced_nlp:
+            if not p_num.shape == (self.n_p_unreduced, 1):
+                raise ValueError('p_num must have length {}.'.format(self.n_p_unreduced))
             nlp_sol, p_num = self._reduce_nlp_solution_to_determined(nlp_sol, p_num)
 
         if not p_num.shape == (self.n_p, 1):
-- 
2.43.0


From 96a282779d72f31428e6268546756ca4a4dc8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 54/79] fix: DoMPCDifferentiator considers bounds that were
 changed after its creation

---
 do_mpc/differentiator/_nlpdifferentiator.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index f770cb0..1fe6c65 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -820,6 +820,23 @@ class DoMPCDifferentiator(NLPDifferentiator):
 
         return nlp, nlp_bounds
 
+    def _update_nlp_bounds(self):
+        """
+        Warning:
+            Not part of the public API.
+
+        The bounds of the optimizer can be changed after its setup.
+        """
+        _, nlp_bounds = self._get_do_mpc_nlp()
+
+        if self.status.reduced_nlp:
+            self.nlp_bounds_unreduced = nlp_bounds.copy()
+            det_opt_x_idx = self.det_sym_idx_dict["opt_x"]
+            nlp_bounds["lbx"] = nlp_bounds["lbx"][det_opt_x_idx]
+            nlp_bounds["ubx"] = nlp_bounds["ubx"][det_opt_x_idx]
+
+        self.nlp_bounds = nlp_bounds
+
     def _get_do_mpc_nlp_sol(self):
         """
         Warning:
@@ -859,6 +876,7 @@ class DoMPCDifferentiator(NLPDifferentiator):
 
         nlp_sol = self._get_do_mpc_nlp_sol()
         p_num = self._get_p_num()
+        self._update_nlp_bounds()
         dx_dp_num, dlam_dp_num = super().differentiate(nlp_sol, p_num)
         
         # rescale dx_dp_num
-- 
2.43.0


From ba40262c55a803e1a7efae4aab5a5d6e4c023a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 55/79] fix: differentiator works with problems formulated with
 MX symbols

---
 do_mpc/differentiator/_nlpdifferentiator.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 1fe6c65..78fb5f7 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -133,6 +133,9 @@ class NLPDifferentiator:
         self.nlp = nlp.copy()
         self.nlp_bounds = nlp_bounds.copy()
 
+        if isinstance(self.nlp['x'], ca.MX):
+            self._convert_to_SX()
+
         self._status = NLPDifferentiatorStatus()
         self._settings = NLPDifferentiatorSettings(**kwargs)
 
@@ -180,6 +183,18 @@ class NLPDifferentiator:
         self._prepare_sensitivity_matrices()
         self._prepare_constraint_gradients()
         
+    def _convert_to_SX(self):
+        """
+        Warning:
+            Not part of the public API.
+
+        This function expresses an NLP formulated with MX symbols with (elementwise) SX symbols.
+        """
+        fg_func = ca.Function("fg", [self.nlp["x"],self.nlp["p"]], [self.nlp["f"],self.nlp["g"]]).expand()
+        self.nlp["x"] = ca.SX.sym("x",*self.nlp["x"].shape)
+        self.nlp["p"] = ca.SX.sym("p",*self.nlp["p"].shape)
+        self.nlp["f"], self.nlp["g"] = fg_func(self.nlp["x"],self.nlp["p"])
+
     def _detect_undetermined_sym_var(self, var: str ="x") -> Tuple[np.ndarray,np.ndarray]: 
         
         # symbolic expressions
-- 
2.43.0


From 67bbd187f85826a9a143f9f7fcf64b7090b2a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 56/79] fix: ONNX conversion follows the operator definitions
 (broadcasting, attributes, optional inputs, shapes)

---
 do_mpc/sysid/_onnxconversion.py | 243 ++++++++++++++++++++++----------
 1 file changed, 172 insertions(+), 71 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 235e748..5434f32 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -128,7 +128,7 @@ class ONNXConversion:
          
         # Determining output layer names
         self.output_layers = [out.name for out in self.graph.output]
-        self.layers = [n.name for n in list(self.graph.input)] + [n.output[0] for n in self.nodes]
+        self.layers = list(self.inputshape.keys()) + [n.output[0] for n in self.nodes]
         
 
         # Create instance of operations class
@@ -219,8 +219,8 @@ class ONNXConversion:
 
         for input_name, shape in inputshape.items():
             # TODO: Write comments on all checks
-            check_1 = (len(inputshape[input_name]) == 1)
-            check_2 = (inputshape[input_name][0] != kwargs[input_name].shape[0])
+            check_1 = (len(inputshape[input_name]) == 1) and inputshape[input_name] != (0,) # zero: unknown length
+            check_2 = (inputshape[input_name][:1] != kwargs[input_name].shape[:1])
             check_3 = (inputshape[input_name] != kwargs[input_name].shape)
             if check_1 and check_2 and check_3:
                 raise Exception("The shape of the input '{}' should be {}".format(input_name,inputshape[input_name]))
@@ -231,16 +231,16 @@ class ONNXConversion:
 
         # Computation of all node values
         node_values = self.input.copy() # "node_values" contains only input node values as initial values
-        all_values = self.input.copy()
-        all_values.update(init_tensors) # "all_values" contains initializer and input node values as initial values
+        # "all_values" contains initializer and input node values (as tensors) as initial values
+        all_values = {name: _Tensor.from_value(value, ndim=len(inputshape[name])) for name, value in self.input.items()}
+        all_values.update({name: _Tensor.from_value(value) for name, value in init_tensors.items()})
         
         # Iterate over all nodes
         for n in nodes:
             if verbose:
                 print("\nProcessing of {}".format(n.name))
                 
-            ins = [] # "ins" collects all the input variables for the corresponding
-                     # node in CasADi-form with corrected shape (in case input shape is (1,))
+            ins = [] # "ins" collects all the input variables for the corresponding node as tensors
                      # These inputs could either be the input values from the last layer
                      # or the bias and weight values, which are saved in "init_tensors"
                      # "and all_values"
@@ -253,16 +253,12 @@ class ONNXConversion:
                      
             for input_layer_name in n.input:
                 
-                # Conversion into CasADi and shape correction in case of (1,) as input shape
-                if isinstance(all_values[input_layer_name],(np.ndarray)):
-                    pass
-                    #all_values[input_layer_name] = casadi.DM(np.atleast_2d(all_values[input_layer_name]))
-
-                ins.append(all_values[input_layer_name]) # critical ! input_layer_name should be already contained in all_values => Assumption: ONNX graph representation is correctly arranged
+                # Optional inputs that are not used have an empty name
+                ins.append(all_values[input_layer_name] if input_layer_name else None) # critical ! input_layer_name should be already contained in all_values => Assumption: ONNX graph representation is correctly arranged
                 
             
             # Determination of the operation type and subsequent computation
-            if hasattr(self.operations, n.op_type):
+            if n.domain in ('', 'ai.onnx') and not n.op_type.startswith('_') and hasattr(self.operations, n.op_type):
                 out = getattr(self.operations, n.op_type)(*ins, attribute=n.attribute)
             else:
                 raise Exception("Operation '{}' not implemented. Please consider the limited set of operations available to the tool.".format(n.op_type))
@@ -295,6 +291,8 @@ class ONNXConversion:
 
         if key in node_values.keys():
             out = node_values[key]
+            if isinstance(out, _Tensor):
+                out = out.value
         else:
             raise Exception("The node '{}' is not contained in the ONNX graph.".format(key))
 
@@ -315,67 +313,91 @@ class ONNXOperations:
     def __init__(self):
         pass
 
+    def _get_attribute(self, attribute, name, default=None):
+        """Value of the attribute ``name`` of a node or ``default`` if the node doesn't have it. Attributes can have any order."""
+        for attr in attribute or []:
+            if attr.name == name:
+                return onnx.helper.get_attribute_value(attr)
+        return default
+
+    def _get_axes(self, attribute, args, ndim):
+        """Axes of ``Squeeze`` and ``Unsqueeze``, which are given as attribute or as second input (since opset 13)."""
+        axes = args[1].to_int() if len(args) > 1 and args[1] is not None else self._get_attribute(attribute, 'axes')
+        if axes is None:
+            return None
+        return [axis + ndim if axis < 0 else axis for axis in axes]
+
+    def _broadcast(self, *args):
+        """Multidirectional (numpy-style) broadcasting.
+        See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Broadcasting.md>`_ for more details.
+        """
+        shape = np.broadcast_shapes(*[arg.shape for arg in args])
+        return [arg.take(np.broadcast_to(arg.index, shape)) for arg in args]
+
+    def _elementwise(self, fun, *args):
+        args = self._broadcast(*args)
+        return _Tensor(fun(*[arg.flat for arg in args]), args[0].shape)
+
     def Tanh(self,x, attribute = None):
-        return casadi.tanh(x)
+        return self._elementwise(casadi.tanh, x)
 
     def Sigmoid(self,x, attribute = None):
-        out = 1/(1+casadi.exp(-x))
-        return out
+        return self._elementwise(lambda x: 1/(1+casadi.exp(-x)), x)
 
     def Relu(self,x, attribute = None):
-        return casadi.fmax(0,x)
+        return self._elementwise(lambda x: casadi.fmax(0,x), x)
 
     def Elu(self,x, attribute = None):
-        return casadi.fmax(0,x) + casadi.fmin(0,casadi.exp(x)-1)
+        alpha = self._get_attribute(attribute, 'alpha', 1)
+        return self._elementwise(lambda x: casadi.fmax(0,x) + alpha*casadi.fmin(0,casadi.exp(x)-1), x)
 
     def MatMul(self,*args, attribute = None):
-        return casadi.mtimes(*args)
+        """Matrix product that behaves like ``numpy.matmul`` for tensors with one or two dimensions.
+        See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Operators.md#matmul>`_ for more details.
+        """
+        A, B = args
+        if not (A.ndim in (1,2) and B.ndim in (1,2)):
+            raise Exception("MatMul is only implemented for tensors with one or two dimensions.")
+
+        # A one-dimensional tensor is a row (left) or a column (right). The respective dimension is removed from the result.
+        shape = A.shape[:-1] + B.shape[1:]
+        if A.ndim == 1:
+            A = A.reshape((1,)+A.shape)
+        if B.ndim == 1:
+            B = B.reshape(B.shape+(1,))
+        return _Tensor.from_value(casadi.mtimes(A.matrix, B.matrix)).reshape(shape)
 
     def Add(self,*args, attribute = None):
         """Addition of two or more tensors.
         See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Operators.md#add>`_ for more details.
         """
-        out = 0
-        for arg in args:
-            out += arg
-        return out
+        return self._elementwise(lambda *args: sum(args[1:], args[0]), *args)
 
     def Mul(self,*args, attribute = None):
-        return args[0]*args[1]
+        return self._elementwise(lambda a, b: a*b, *args)
 
     def Sub(self, *args, attribute = None):
-        return args[0] - args[1]
+        return self._elementwise(lambda a, b: a-b, *args)
 
     def Gemm(self, *args, attribute = None):
         """General Matrix Multiplication.
         See `ONNX documentation  <https://github.com/onnx/onnx/blob/main/docs/Operators.md#gemm>`_ for more details.
         """
+        A = args[0].matrix
+        B = args[1].matrix
 
-        attr_dict = {
-            k.name: k.i if k.type == 2 else k.f for k in attribute
-        }
-
-        A = args[0]
-        B = args[1]
-        C = args[2]
-
-        if 'transA' in attr_dict.keys() and attr_dict['transA'] == 1:
+        if self._get_attribute(attribute, 'transA', 0):
             A = casadi.transpose(A)
-        if 'transB' in attr_dict.keys() and attr_dict['transB'] == 1:
+        if self._get_attribute(attribute, 'transB', 0):
             B = casadi.transpose(B)
-        if 'alpha' in attr_dict.keys():
-            alpha = attr_dict['alpha']
-        else:
-            alpha = 1
-        if 'beta' in attr_dict.keys():
-            beta = attr_dict['beta']
-        else:
-            beta = 1
+        alpha = self._get_attribute(attribute, 'alpha', 1)
+        beta = self._get_attribute(attribute, 'beta', 1)
 
-        if C.ndim == 1:
-            C = C.reshape(1,-1)
-        
-        res = alpha*self.MatMul(A,B) + beta*C
+        res = _Tensor.from_value(alpha*casadi.mtimes(A,B))
+
+        # C is optional
+        if len(args) > 2 and args[2] is not None:
+            res = self._elementwise(lambda res, C: res + beta*C, res, args[2])
 
         return res
 
@@ -383,41 +405,120 @@ class ONNXOperations:
         return  self.Add(*args)
 
     def Concat(self,*args, attribute = None):
-        if attribute[0].i in (0,2):
-            return casadi.vertcat(*args)
-        else:
-            return casadi.horzcat(*args)
-    
+        axis = self._get_attribute(attribute, 'axis', 1)
+        offset = np.cumsum([0]+[arg.size for arg in args])
+        index = np.concatenate([arg.index + offset_k for arg, offset_k in zip(args, offset)], axis=axis)
+        return _Tensor(casadi.vertcat(*[arg.flat for arg in args]), (offset[-1],)).take(index)
+
     def Unsqueeze(self,*args, attribute = None):
-        # TODO: Check if this is correct
-        return args[0]
+        axes = self._get_attribute(attribute, 'axes')
+        n_axes = len(axes) if axes is not None else args[1].size
+        axes = self._get_axes(attribute, args, args[0].ndim + n_axes)
+        return args[0].reshape(np.expand_dims(args[0].index, tuple(axes)).shape)
 
     def Squeeze(self, *args, attribute = None):
-        # TODO: Check if this is correct
-        return args[0]
+        axes = self._get_axes(attribute, args, args[0].ndim)
+        return args[0].reshape(np.squeeze(args[0].index, None if axes is None else tuple(axes)).shape)
 
     def Slice(self, *args, attribute = None):
-        # TODO: Check if this is correct
-        ax = attribute[0].ints
-        ends = attribute[1].ints
-        starts = attribute[2].ints
+        """Slice of a tensor. The slices are given as attributes or as inputs (since opset 10).
+        See `ONNX documentation  <https://github.com/onnx/onnx/blob/main/docs/Operators.md#slice>`_ for more details.
+        """
+        names = ['starts', 'ends', 'axes', 'steps']
+        args = list(args) + [None]*(5-len(args))
+        starts, ends, axes, steps = [
+            self._get_attribute(attribute, name) if arg is None else arg.to_int() for name, arg in zip(names, args[1:])
+        ]
+        if axes is None:
+            axes = range(len(starts))
+        if steps is None:
+            steps = [1]*len(starts)
 
-        slices = [slice(None,None),]*2
+        slices = [slice(None,None),]*args[0].ndim
 
-        for ax_k, start_k, end_k in zip(ax, starts, ends):
-            slices[ax_k] = slice(start_k,end_k)
+        for ax_k, start_k, end_k, step_k in zip(axes, starts, ends, steps):
+            # With a negative step, positions before the first element are included until the first element.
+            if step_k < 0 and end_k < -args[0].shape[ax_k]:
+                end_k = None
+            slices[ax_k] = slice(start_k,end_k,step_k)
 
-        return args[0][tuple(slices)]
+        return args[0].take(args[0].index[tuple(slices)])
 
     def Reshape(self, *args, attribute = None):
-        # TODO: Check if this is correct
         data = args[0]
-        shape = args[1]
-        return data.reshape(tuple(shape))
+        shape = args[1].to_int() if len(args) > 1 else self._get_attribute(attribute, 'shape')
+        # Dimensions of zero are copied from the input
+        if not self._get_attribute(attribute, 'allowzero', 0):
+            shape = [data.shape[k] if dim == 0 else dim for k, dim in enumerate(shape)]
+        return data.reshape(shape)
 
     def Shape(self, *args, attribute = None):
-        return args[0].shape
-
+        start = self._get_attribute(attribute, 'start', 0)
+        end = self._get_attribute(attribute, 'end', None)
+        return _Tensor.from_value(np.array(args[0].shape[start:end], dtype=float))
 
-    
 
+class _Tensor:
+    """Tensor with arbitrary shape (as CasADi has only matrices, and stores them column-wise).
+    The elements are stored in a CasADi column vector, with the last dimension changing fastest.
+    """
+    def __init__(self, flat, shape):
+        self.flat = flat
+        self.shape = tuple(int(dim) for dim in shape)
+
+    @classmethod
+    def from_value(cls, value, ndim=None):
+        """Tensor from numpy array or CasADi matrix. Vectors (CasADi or numpy) can be interpreted as tensors with less than two dimensions."""
+        shape = tuple(value.shape)
+        if isinstance(value, np.ndarray):
+            flat = casadi.DM(value.astype(float).reshape(-1,1))
+        else:
+            flat = casadi.densify(casadi.vec(value.T))
+        if ndim in (0,1) and len(shape) == 2 and 1 in shape and (ndim == 1 or shape == (1,1)):
+            shape = (flat.shape[0],)*ndim
+        return cls(flat, shape)
+
+    @property
+    def ndim(self):
+        return len(self.shape)
+
+    @property
+    def size(self):
+        return int(np.prod(self.shape))
+
+    @property
+    def index(self):
+        """Position of each element, as array with the shape of the tensor."""
+        return np.arange(self.size).reshape(self.shape)
+
+    @property
+    def matrix(self):
+        if self.ndim != 2:
+            raise Exception("Expected a tensor with two dimensions but the shape is {}.".format(self.shape))
+        return casadi.reshape(self.flat, self.shape[1], self.shape[0]).T
+
+    @property
+    def value(self):
+        """CasADi expression. Tensors with less than two dimensions are column vectors."""
+        if self.ndim < 2:
+            return self.flat
+        if self.ndim == 2:
+            return self.matrix
+        if isinstance(self.flat, casadi.DM):
+            return self.flat.full().reshape(self.shape)
+        raise Exception("CasADi cannot express a tensor with shape {}.".format(self.shape))
+
+    def take(self, index):
+        """Tensor with the elements at the positions in ``index`` and the shape of ``index``."""
+        if index.size == self.size and np.array_equal(index.ravel(), np.arange(self.size)):
+            return _Tensor(self.flat, index.shape)
+        return _Tensor(self.flat[index.ravel().tolist(),0], index.shape)
+
+    def reshape(self, shape):
+        return _Tensor(self.flat, self.index.reshape(tuple(shape)).shape)
+
+    def to_int(self):
+        """Values of a constant tensor, e.g. a shape, as list of integers."""
+        if not isinstance(self.flat, casadi.DM):
+            raise Exception("The shape or index of an operation must not depend on the inputs of the model.")
+        return [int(v) for v in self.flat.full().ravel()]
-- 
2.43.0


From b4c7ef9a69badbfd3fe349c934775e37034221b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 57/79] fix: OPC UA namespace contains variables whose name
 contains 'default'

---
 do_mpc/opcua/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 1d8df0c..15689c2 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -110,7 +110,7 @@ class RTBase:
         for var in variable_list:
             
             for key in model[var].labels():
-                if 'default' in key:
+                if key.startswith('[default,'):
                     continue
                 
                 node_list.append(NamespaceEntry(var, key))
-- 
2.43.0


From 24902f636940e31a43845ab04d46dbbfd8800366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 58/79] fix: write_to_tags accepts arrays of any numeric type

---
 do_mpc/opcua/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 15689c2..ec0cc7e 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -205,7 +205,7 @@ class RTBase:
         
 
         for tag, value in zip(self.tagout, data):
-            self.client.writeData(tag, [value])
+            self.client.writeData(tag, [float(value)])
 
 
     def read_from_tags(self)->np.ndarray:
-- 
2.43.0


From 6095e18d1bcc832d8dc44acf8145d9e581087706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 59/79] fix: OPC UA server listens on the port given in
 ServerOpts

---
 do_mpc/opcua/_server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/opcua/_server.py b/do_mpc/opcua/_server.py
index 35abaea..4b7793d 100644
--- a/do_mpc/opcua/_server.py
+++ b/do_mpc/opcua/_server.py
@@ -70,6 +70,7 @@ class RTServer:
         # Try to create the server
         try:
             self.opcua_server = opcua.Server()
+            self.opcua_server.set_endpoint(f'opc.tcp://0.0.0.0:{self.port}/freeopcua/server/')
             print("A server named - {} - was created".format(self.name))
         except RuntimeError:
             self.created = False
-- 
2.43.0


From 51c8099f1539fd648da3a7e32f9601e306bfbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 60/79] fix: OPC UA client accepts the IP address of the server
 as documented

---
 do_mpc/opcua/_client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/opcua/_client.py b/do_mpc/opcua/_client.py
index 95a9da1..f0240a2 100644
--- a/do_mpc/opcua/_client.py
+++ b/do_mpc/opcua/_client.py
@@ -65,6 +65,10 @@ class RTClient:
         self.server_address = opts.address
         self.port           = opts.port
         self.name           = opts.name
+
+        # Only the host (e.g. IP address) is given
+        if '://' not in self.server_address:
+            self.server_address = f'opc.tcp://{self.server_address}:{self.port}/freeopcua/server/'
         
         # Information relevant for the client specific namespace
         self.namespace = namespace
-- 
2.43.0


From a63380eaea9f1ab64d48bd4fc881edced5f0d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 61/79] fix: asynchronous steps of one object do not overlap if
 a step takes longer than the cycle time

---
 do_mpc/opcua/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index ec0cc7e..49e0055 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -23,7 +23,7 @@
 import time
 import numpy as np
 from typing import List
-from threading import Timer, Thread
+from threading import Timer, Thread, Lock
 from enum import Enum, auto
 from casadi import *
 from ._client import RTClient
@@ -87,6 +87,7 @@ class RTBase:
         self.is_running = False
         self.new_init = True
         self.async_fag = False
+        self.step_lock = Lock()
 
 
     def namespace_from_model(self, model:Model, model_name:str)->Namespace:
@@ -178,9 +179,11 @@ class RTBase:
         The input for make_step is taken from node IDs specified in :py:meth:`read_from_tags`.
         The output of make_step is written to the node IDs specified in :py:meth:`write_to_tags`.
         '''
-        input = self.read_from_tags()
-        output = self.do_mpc_object.make_step(input)
-        self.write_to_tags(output)
+        # Steps that take longer than the cycle time must not overlap
+        with self.step_lock:
+            input = self.read_from_tags()
+            output = self.do_mpc_object.make_step(input)
+            self.write_to_tags(output)
 
 
     def write_to_tags(self, data:np.ndarray)->None:
-- 
2.43.0


From d08d111bdb07358a025211a54cbd58faca7d2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 62/79] fix: async_step_stop also stops an operation whose
 timer has just fired

---
 do_mpc/opcua/_base.py | 48 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 49e0055..579cbf6 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -23,7 +23,7 @@
 import time
 import numpy as np
 from typing import List
-from threading import Timer, Thread, Lock
+from threading import Timer, Thread, Lock, RLock, current_thread
 from enum import Enum, auto
 from casadi import *
 from ._client import RTClient
@@ -88,6 +88,8 @@ class RTBase:
         self.new_init = True
         self.async_fag = False
         self.step_lock = Lock()
+        self.async_lock = RLock()
+        self.thread = None
 
 
     def namespace_from_model(self, model:Model, model_name:str)->Namespace:
@@ -225,8 +227,12 @@ class RTBase:
         '''
         This method is called inside of :py:meth:`async_step_start`. It calls :py:meth:`make_step` and :py:meth:`async_step_start`.
         '''
-        self.is_running = False    
-        self.async_step_start()
+        with self.async_lock:
+            # Operation was stopped (and possibly started again) after the timer fired
+            if current_thread() is not self.thread:
+                return
+            self.is_running = False    
+            self.async_step_start()
         self.make_step()
 
 
@@ -234,30 +240,34 @@ class RTBase:
         '''
         This method calls the :py:meth:`async_run` method in a frequency given by the do-mpc classes t_step value.
         '''
-        if self.new_init == True:
-            self.new_thread = Thread(target=self.make_step)
-            self.new_thread.start()
-            self.new_init = False
+        with self.async_lock:
+            if self.new_init == True:
+                self.new_thread = Thread(target=self.make_step)
+                self.new_thread.start()
+                self.new_init = False
 
-        if not self.is_running:
-            self.cycle = time.time() + self.cycle_time 
-            self.thread = Timer(self.cycle - time.time(), self.async_run)
-            self.thread.start()
-            self.is_running = True
+            if not self.is_running:
+                self.cycle = time.time() + self.cycle_time 
+                self.thread = Timer(self.cycle - time.time(), self.async_run)
+                self.thread.start()
+                self.is_running = True
 
-        if self.async_fag == True:
-            self.async_fag = False
-            return print('Async operation was interrupted by the user')
+            if self.async_fag == True:
+                self.async_fag = False
+                return print('Async operation was interrupted by the user')
 
 
     def async_step_stop(self)->None:
         '''
         Stops :py:meth:`async_step_start` from running.
         '''
-        self.thread.cancel()
-        self.is_running = False
-        self.new_init = True
-        self.async_fag = True
+        with self.async_lock:
+            if self.thread is not None:
+                self.thread.cancel()
+            self.thread = None
+            self.is_running = False
+            self.new_init = True
+            self.async_fag = True
 
 
 
-- 
2.43.0


From 83240f5b9c26257d09c4c940ead045381ebf3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 63/79] fix: default_plot accepts the names of algebraic states
 in dae_states_list

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 2ade94d..8cfe142 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -382,7 +382,7 @@ def default_plot(data,
         # Pop default variable:
         dae_states_list.pop(0)
     else:
-        assert set(dae_states_list).issubset(data.model['_u'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
+        assert set(dae_states_list).issubset(data.model['_z'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
 
     if inputs_list is None:
         inputs_list = data.model['_u'].keys()
-- 
2.43.0


From c293e0c0deb4c300957e7a3e0f2b770499ab2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 64/79] fix: Structure query with more indices than some entry
 has does not raise an IndexError

---
 do_mpc/tools/_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/tools/_structure.py b/do_mpc/tools/_structure.py
index 0523cde..8cb17c8 100644
--- a/do_mpc/tools/_structure.py
+++ b/do_mpc/tools/_structure.py
@@ -179,7 +179,7 @@ class Structure:
             else:
                 # Regular case: Iter over all indices and check condition.
                 for i, ind_i in enumerate(_iter_index):
-                    if j>len(ind_i):
+                    if j>=len(ind_i):
                         None
                     elif ind_i[j] == ind_j:
                         _tmp_master.append(_iter_master[i])
-- 
2.43.0


From 204fad73182627fb719a7e4a905bcf189384155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 65/79] fix: animate works for graphics without prediction
 lines

---
 do_mpc/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 8cfe142..a452fa1 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -477,7 +477,8 @@ def animate(graphics:Graphics,
     def update(t_ind):
         print('Writing frame: {} of {}.'.format(t_ind, n_steps))
         graphics.plot_results(t_ind=t_ind)
-        graphics.plot_predictions(t_ind=t_ind)
+        if graphics.pred_lines.full:
+            graphics.plot_predictions(t_ind=t_ind)
         graphics.reset_axes()
         lines = graphics.result_lines.full+graphics.pred_lines.full
         return lines
-- 
2.43.0


From 2623afd515cb752917ab81cea6d8bb795798730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 66/79] fix: animate does not overwrite an existing animation
 unless asked to

---
 do_mpc/graphics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index a452fa1..8107174 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -496,7 +496,10 @@ def animate(graphics:Graphics,
         else:
             raise Exception('Invalid output format {}. Please choose mp4 or gif.'.format(format))
     else:
-        extension=''
+        extension=None
+
+    def file_name(name):
+        return export_path+name if extension is None else '{}{}.{}'.format(export_path, name, extension)
 
     if not os.path.exists(export_path):
         os.makedirs(export_path)
@@ -504,9 +507,9 @@ def animate(graphics:Graphics,
     if overwrite==False:
         ind = 1
         ext_export_name = export_name
-        while os.path.isfile(export_path+ext_export_name+'.pkl'):
+        while os.path.isfile(file_name(ext_export_name)):
             ext_export_name = '{ind:03d}_{name}'.format(ind=ind, name=export_name)
             ind += 1
         export_name = ext_export_name
 
-    anim.save('{}{}.{}'.format(export_path, export_name, extension), writer=writer)
\ No newline at end of file
+    anim.save(file_name(export_name), writer=writer)
\ No newline at end of file
-- 
2.43.0


From 938e52c4c47809194b9024f1228533b460a157b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 67/79] fix: Model.setup checks that the model is complete
 before changing anything

---
 do_mpc/model/_model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 1029827..d902322 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -932,6 +932,15 @@ class Model:
         Raises:
             assertion: Definition of right hand side (rhs) is incomplete
         """
+        # Check that the model is complete (before anything is changed).
+        _x_names = set(self._x['name']) - set(rhs_i['var_name'] for rhs_i in self.rhs_list)
+        assert len(_x_names) == 0, 'Definition of right hand side (rhs) is incomplete. Missing: {}. Use: set_rhs to define expressions.'.format(_x_names)
+
+        n_z = sum(var.numel() for var in self._z['var'])
+        n_alg = self.sv.struct(self.alg_list).shape[0]
+        msg = 'Must have the same number of algebraic equations (you have {}) and variables (you have {}).'
+        assert n_z == n_alg, msg.format(n_alg, n_z)
+
         # Set all states as measurements if set_meas was not called by user.
         if not self._y_expression:
             for name, var in zip(self._x['name'], self._x['var']):
@@ -962,12 +971,8 @@ class Model:
         self._rhs = self.sv.struct(_x)
 
         # Set the expressions in self._rhs with the previously defined SX.sym variables.
-        # Check if an expression is set for every state of the system.
-        _x_names = set(self._x['name'])
         for rhs_i in self.rhs_list:
             self._rhs[rhs_i['var_name']] = rhs_i['expr']
-            _x_names -= set([rhs_i['var_name']])
-        assert len(_x_names) == 0, 'Definition of right hand side (rhs) is incomplete. Missing: {}. Use: set_rhs to define expressions.'.format(_x_names)
 
         var_dict_list = [self._x, self._w, self._v, self._u, self._z, self._p, self._tvp]
         sym_struct_list = [_x, _w, _v, _u, _z, _p, _tvp]
@@ -1032,9 +1037,6 @@ class Model:
         self.n_w = self._w.shape[0]
         self.n_v = self._v.shape[0]
 
-        msg = 'Must have the same number of algebraic equations (you have {}) and variables (you have {}).'
-        assert self.n_z == self._alg.shape[0], msg.format(self._alg.shape[0], self.n_z)
-
         # Remove temporary storage for the symbolic variables. This allows to pickle the class.
         delattr(self, 'rhs_list')
         delattr(self, 'alg_list')
-- 
2.43.0


From 076dbd947a1dff969bd914846eb01ae811e64c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 68/79] fix: a refused MPC.set_objective leaves the previous
 objective in place

---
 do_mpc/controller/_mpc.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 7b9b735..04eae46 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -566,25 +566,28 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         if not isinstance(lterm, (castools.DM, castools.SX, castools.MX)):
             raise Exception('lterm must be of type casadi.DM, casadi.SX or casadi.MX. You have: {}.'.format(type(lterm)))
 
-        self.mterm = mterm
         # TODO: This function should be evaluated with scaled variables.
-        self.mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
-
-        self.lterm = lterm
+        mterm_fun = castools.Function('mterm', [_x, _tvp, _p], [mterm])
 
-        self.lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
+        lterm_fun = castools.Function('lterm', [_x, _u, _z, _tvp, _p], [lterm])
 
         # Check if lterm and mterm use invalid variables as inputs.
         # For the check we evaluate the function with dummy inputs and expect a DM output.
         err_msg = '{} contains invalid symbolic variables as inputs. Must contain only: {}'
         try:
-            self.mterm_fun(_x(0),_tvp(0),_p(0))
+            mterm_fun(_x(0),_tvp(0),_p(0))
         except:
             raise Exception(err_msg.format('mterm','_x, _tvp, _p'))
         try:
-            self.lterm(_x(0),_u(0), _z(0), _tvp(0), _p(0))
+            lterm_fun(_x(0),_u(0), _z(0), _tvp(0), _p(0))
         except:
-            err_msg.format('lterm', '_x, _u, _z, _tvp, _p')
+            raise Exception(err_msg.format('lterm', '_x, _u, _z, _tvp, _p'))
+
+        # Both terms are valid.
+        self.mterm = mterm
+        self.mterm_fun = mterm_fun
+        self.lterm = lterm
+        self.lterm_fun = lterm_fun
 
         self.flags['set_objective'] = True
 
-- 
2.43.0


From a69200613bd5f5b2a83478dd7104a95ef55a47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 69/79] fix: a refused MPC.set_rterm leaves the previous
 penalties in place

---
 do_mpc/controller/_mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 04eae46..450d146 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -670,10 +670,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         
         # Default quadratic penalty term
         else:     
+            rterm_factor = self.model._u(castools.DM(self.rterm_factor.cat))
             for key, val in kwargs.items():
                 assert key in self.model._u.keys(), 'Must pass keywords that refer to input names defined in model. Valid is: {}. You have: {}'.format(self.model._u.keys(), key)
                 assert isinstance(val, (int, float, np.ndarray)), 'Value for {} must be int, float or numpy.ndarray. You have: {}'.format(key, type(val))
-                self.rterm_factor[key] = val
+                rterm_factor[key] = val
+            # All arguments are valid.
+            self.rterm_factor.master = rterm_factor.cat
 
         self.flags['set_rterm'] = True
 
-- 
2.43.0


From 50b56dfbfdccf26f69363bcda8b6d8237396e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 70/79] fix: a refused get_p_template or set_uncertainty_values
 leaves the number of combinations

---
 do_mpc/controller/_mpc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 450d146..cb442c0 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -761,7 +761,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         Args:
             n_combinations: Define the number of combinations for the uncertain parameters for robust MPC.
         """
+        p_template = self._create_p_template(n_combinations)
         self.n_combinations = n_combinations
+        return p_template
+
+    def _create_p_template(self, n_combinations:int)->None:
+        """Private method. Structure that holds ``n_combinations`` sets of parameters. See :py:func:`get_p_template`.
+        """
         p_template = self.model.sv.sym_struct([
             castools.entry('_p', repeat=n_combinations, struct=self.model._p)
         ])
@@ -870,7 +876,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         values = kwargs.values()
         p_scenario = list(itertools.product(*values))
         n_combinations = len(p_scenario)
-        p_template = self.get_p_template(n_combinations)
+        p_template = self._create_p_template(n_combinations)
 
         if kwargs:
             # Dict case (only parameters with name are set):
@@ -879,6 +885,9 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             # List case (assume ALL parameters are given ...)
             p_template['_p', :] = p_scenario
 
+        # The values are valid.
+        self.n_combinations = n_combinations
+
         def p_fun(t_now):
             return p_template
 
-- 
2.43.0


From 7adfa1e2bf7d06977ded5814637dc5716382447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 71/79] fix: a refused MHE.set_objective leaves the previous
 objective in place

---
 do_mpc/estimator/_mhe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 2e34df4..49d095f 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -576,24 +576,28 @@ class MHE(Optimizer, Estimator):
 
 
         stage_cost_input = self._w, self._v, self.model._tvp, self.model._p
-        self.stage_cost_fun = castools.Function('stage_cost_fun', [*stage_cost_input], [stage_cost])
+        stage_cost_fun = castools.Function('stage_cost_fun', [*stage_cost_input], [stage_cost])
 
         arrival_cost_input = self._x, self._x_prev, self._p_est, self._p_est_prev, self._p_set
-        self.arrival_cost_fun = castools.Function('arrival_cost_fun', [*arrival_cost_input], [arrival_cost])
+        arrival_cost_fun = castools.Function('arrival_cost_fun', [*arrival_cost_input], [arrival_cost])
 
         # Check if stage_cost_fun and arrival_cost_fun use invalid variables as inputs.
         # For the check we evaluate the function with dummy inputs and expect a DM output.
         try:
-            self.stage_cost_fun(*[input_i(0) for input_i in stage_cost_input])
+            stage_cost_fun(*[input_i(0) for input_i in stage_cost_input])
         except:
             err_msg = 'objective cost equation must be solely depending on w, v, p and tvp.'
             raise Exception(err_msg)
         try:
-            self.arrival_cost_fun(*[input_i(0) for input_i in arrival_cost_input])
+            arrival_cost_fun(*[input_i(0) for input_i in arrival_cost_input])
         except:
             err_msg = 'Arrival cost equation must be solely depending on x_0, x_prev, p_0, p_prev, p_set'
             raise Exception(err_msg)
 
+        # Both terms are valid.
+        self.stage_cost_fun = stage_cost_fun
+        self.arrival_cost_fun = arrival_cost_fun
+
         self.flags['set_objective'] = True
 
     def set_default_objective(self, 
-- 
2.43.0


From 62fa118de7c2ace8919dd32bc367e7f7a1abc460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 72/79] fix: MHE refuses to estimate parameters that the model
 does not have

---
 do_mpc/estimator/_mhe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 49d095f..a8d56f9 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -162,6 +162,8 @@ class MHE(Optimizer, Estimator):
 
         # Create seperate structs for the estimated and the set parameters (the union of both are all parameters of the model.)
         _p = model._p
+        unknown = [p_i for p_i in p_est_list if p_i not in _p.keys()]
+        assert len(unknown) == 0, 'p_est_list must contain names of parameters of the model ({}). You have: {}'.format(_p.keys(), unknown)
         self._p_est  = self.model.sv.sym_struct(
             [castools.entry('default', shape=(0,1))]+
             [castools.entry(p_i, shape=_p[p_i].shape) for p_i in _p.keys() if p_i in p_est_list]
-- 
2.43.0


From 70134fb51d2264ed4d960409e9009f4b0b9e6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 73/79] fix: a refused LQR.set_objective leaves the previous
 objective in place

---
 do_mpc/controller/_lqr.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index e5d0d29..2b68471 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -399,27 +399,26 @@ class LQR(IteratedVariables):
         #Verify the setup is not complete
         assert self.flags['setup'] == False, 'Objective can not be set after LQR is setup'
         
-        #Set Q, R, P
-        self.Q = Q
-        self.R = R   
-
         if P is None and self.settings.n_horizon != None:
-            self.P = Q
+            P = Q
             warnings.warn('P is not given explicitly. Q is chosen as P for calculating finite discrete gain')
-        else:
-            self.P = P
         
         #Verify shape of Q,R,P
-        assert self.Q.shape == (self.model.n_x,self.model.n_x), 'Q must have shape = {}. You have {}'.format((self.model.n_x,self.model.n_x),self.Q.shape)
-        assert self.R.shape == (self.model.n_u,self.model.n_u), 'R must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),self.R.shape)
-        if isinstance(self.Q, (castools.DM, castools.SX, castools.MX)):
+        assert Q.shape == (self.model.n_x,self.model.n_x), 'Q must have shape = {}. You have {}'.format((self.model.n_x,self.model.n_x),Q.shape)
+        assert R.shape == (self.model.n_u,self.model.n_u), 'R must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),R.shape)
+        if isinstance(Q, (castools.DM, castools.SX, castools.MX)):
             raise Exception('Q matrix must be of type class numpy.ndarray')
-        if isinstance(self.R, (castools.DM, castools.SX, castools.MX)):
+        if isinstance(R, (castools.DM, castools.SX, castools.MX)):
             raise Exception('R matrix must be of type class numpy.ndarray')
-        if self.settings.n_horizon != None and isinstance(self.P, (castools.DM, castools.SX, castools.MX)):
+        if self.settings.n_horizon != None and isinstance(P, (castools.DM, castools.SX, castools.MX)):
             raise Exception('P matrix must be of type class numpy.ndarray')
         if self.settings.n_horizon != None:
-            assert self.P.shape == self.Q.shape, 'P must have same shape as Q. You have {}'.format(P.shape)
+            assert P.shape == Q.shape, 'P must have same shape as Q. You have {}'.format(P.shape)
+
+        #Set Q, R, P
+        self.Q = Q
+        self.R = R
+        self.P = P
 
     def set_setpoint(self,xss :np.ndarray= None, uss:np.ndarray = None)->None:   
         """Sets setpoints for states and inputs.
-- 
2.43.0


From fe45f9632701c70d301ef4c7edf8603d3eb572b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 74/79] fix: LQR.set_rterm refuses penalties of the wrong shape

---
 do_mpc/controller/_lqr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 2b68471..de18092 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -216,6 +216,10 @@ class LQR(IteratedVariables):
         :param delR: Rated input cost matrix - constant matrix with no variables
         """
         
+        #Verify shape of delR
+        assert isinstance(delR, np.ndarray), 'delR matrix must be of type class numpy.ndarray. You have {}'.format(type(delR))
+        assert delR.shape == (self.model.n_u,self.model.n_u), 'delR must have shape = {}. You have {}'.format((self.model.n_u,self.model.n_u),delR.shape)
+
         #Modifying A and B matrix for input rate penalization
         identity_u = np.identity(np.shape(self.model._B)[1])
         zeros_A = np.zeros((np.shape(self.model._B)[1],np.shape(self.model._A)[1]))
-- 
2.43.0


From 5b650bfd79d612002d08ab6af58120d094787cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 75/79] fix: LQR.set_setpoint refuses set points of the wrong
 type

---
 do_mpc/controller/_lqr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index de18092..fde85b3 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -455,6 +455,10 @@ class LQR(IteratedVariables):
         else:
             uss_old = self.uss
 
+        # Check input type.
+        for name, val in (('xss', xss), ('uss', uss)):
+            assert isinstance(val, (np.ndarray, type(None))), '{} must be of type class numpy.ndarray. You have {}'.format(name, type(val))
+
         # Don't change a set point that already exists and is not passed
         xss = xss.copy() if isinstance(xss, np.ndarray) else xss_old
         uss = uss.copy() if isinstance(uss, np.ndarray) else uss_old
-- 
2.43.0


From a02a358b8a84978f976fec9de0128a5f8e1bacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 76/79] fix: LQR.make_step refuses states of the wrong size

---
 do_mpc/controller/_lqr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index fde85b3..8926fea 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -292,6 +292,11 @@ class LQR(IteratedVariables):
         else:
             raise Exception('Invalid type {} for x0. Must be {}'.format(type(x0), (np.ndarray, castools.DM, castools.structure3.DMStruct)))
 
+        # Check input shape.
+        n_val = np.prod(x0.shape)
+        assert n_val == self.model.n_x, 'Wrong input with shape {}. Expected vector with {} elements'.format(n_val, self.model.n_x)
+        x0 = x0.reshape((-1,1))
+
         #setting setpoints
         if not hasattr(self, "xss") and not hasattr(self,"uss"):
             self.set_setpoint()
-- 
2.43.0


From 218b2a35406615ae5e0df0e3848caa98413f16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 77/79] fix: a refused LinearModel.setup does not set a
 measurement function

---
 do_mpc/model/_linearmodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index 0199fe0..7020f60 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -206,9 +206,6 @@ class LinearModel(Model):
             y_meas = C @ self.x.cat
         if not isinstance(D, type(None)):
             y_meas = y_meas + D @ self.u.cat
-        if not isinstance(y_meas, type(None)):
-            n_y = y_meas.shape[0]
-            self.set_meas('y', y_meas)
 
         n_x = self.x.size
         n_u = self.u.size
@@ -226,7 +223,9 @@ class LinearModel(Model):
             else:
                 x_next = x_next + B @ self.u.cat    
 
-        # Set the rhs of the states (if x_next exists)
+        # Set the measurement function and the rhs of the states (if y_meas and x_next exist)
+        if not isinstance(y_meas, type(None)):
+            self.set_meas('y', y_meas)
         if not isinstance(x_next, type(None)):
             for name in self.x.keys():
                 ind = self.x.f[name]
-- 
2.43.0


From 08e4a2adef5ac2848bd7b3b828f9104daa381ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 78/79] fix: refused terminal bounds still follow the bounds of
 the states

---
 do_mpc/controller/_mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index cb442c0..61ad38e 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -470,10 +470,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         # Terminal bounds that default to the bounds of the states must not change these:
         if var_struct is self._x_lb or var_struct is self._x_ub:
             var_struct = self.model._x(castools.DM(var_struct.cat))
-            setattr(self, query, var_struct)
 
-        # Set value on struct:
+        # Set value on struct (the previous struct is kept if the value is refused):
         var_struct[var_name] = val
+        setattr(self, query, var_struct)
 
         # Update bounds of the optimization problem (if it already exists):
         if self.flags['prepare_nlp']:
-- 
2.43.0


From 103fd3304ec43f3f796523fefec3672398a80168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 79/79] fix: refuse to create an outdated problem after changes
 between prepare_nlp and create_nlp

Scaling, objective, input penalty and constraints that were changed after
prepare_nlp() had no effect on the prepared problem (a changed scaling even
made the returned input wrong). The problem must be prepared again.
---
 do_mpc/controller/_mpc.py | 4 ++++
 do_mpc/estimator/_mhe.py  | 2 ++
 do_mpc/optimizer.py       | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 61ad38e..56f9fee 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -590,6 +590,8 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         self.lterm_fun = lterm_fun
 
         self.flags['set_objective'] = True
+        # A problem that was already prepared is outdated:
+        self.flags['prepare_nlp'] = False
 
     def set_rterm(self, rterm:Union[castools.SX,castools.MX]=None, **kwargs)->None:
         """Set the penality factor for the inputs. Call this function with keyword argument refering to the input names in
@@ -679,6 +681,8 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             self.rterm_factor.master = rterm_factor.cat
 
         self.flags['set_rterm'] = True
+        # A problem that was already prepared is outdated:
+        self.flags['prepare_nlp'] = False
 
     def copy_struct(self, original_struct):
         """
diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index a8d56f9..6931f6c 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -601,6 +601,8 @@ class MHE(Optimizer, Estimator):
         self.arrival_cost_fun = arrival_cost_fun
 
         self.flags['set_objective'] = True
+        # A problem that was already prepared is outdated:
+        self.flags['prepare_nlp'] = False
 
     def set_default_objective(self, 
                               P_x:Union[np.ndarray,castools.SX,castools.MX], 
diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index f43eb10..765b243 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -438,6 +438,9 @@ class Optimizer:
 
         var_struct[var_name] = val
 
+        # A problem that was already prepared is outdated:
+        self.flags['prepare_nlp'] = False
+
     def reset_history(self)->None:
         """Reset the history of the optimizer.
         All data from the :py:class:`do_mpc.data.Data` instance is removed.
@@ -538,6 +541,9 @@ class Optimizer:
         self.nl_cons_list.extend([
             {'expr_name': expr_name, 'expr': expr, 'ub' : ub}])
 
+        # A problem that was already prepared is outdated:
+        self.flags['prepare_nlp'] = False
+
         return expr
 
     def _setup_nl_cons(self, nl_cons_input:Union[castools.SX,castools.MX])->None:
@@ -1083,4 +1089,5 @@ class Optimizer:
             None
         """
         # MPC and MHE have similar methods. The documentation is valid for both of them.
+        assert self.flags['prepare_nlp'], 'The problem must be prepared before it is created, and again after changes of its scaling, objective or constraints. Please call .prepare_nlp().'
         self._create_nlp()
\ No newline at end of file
-- 
2.43.0

