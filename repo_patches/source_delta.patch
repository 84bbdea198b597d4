From 8c70ce4eecfbb042897d2a62369d7b652f784eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 01/49] fix: CBOMemory indexes its memory energy by the active
 particles and reports the memory position as best particle

---
 cbx/dynamics/cbo_memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..06ea57f 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -104,11 +104,12 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
+        energy_old = self.copy(self.energy[self.particle_idx])
         self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
+            ((energy_old>energy_new)[self.ergexp]) * 
             (self.x[self.particle_idx] - self.y[self.particle_idx])
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +125,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
@@ -132,6 +133,6 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From 99332131e77f78ecd1212b4049f28b964ac39766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 02/49] fix: PSO updates memory, energy and evaluation counts
 of the active particles only and reports the memory position as best particle

---
 cbx/dynamics/pso.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..bcfdd1e 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -135,13 +135,13 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind]) # updates the number of function evaluations of the active runs
+        energy_old = self.copy(self.energy[ind])
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self, x_batch, energy) -> None:
@@ -161,4 +161,11 @@ class PSO(CBXDynamic):
         """
         c, _ = self._compute_consensus(energy, x_batch, self.alpha[self.active_runs_idx, :])
         return c
+
+    def update_best_cur_particle(self,) -> None:
+        # the energies belong to the historical best positions
+        self.f_min = self.energy.min(axis=-1)
+        self.f_min_idx = self.energy.argmin(axis=-1)
         
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
-- 
2.43.0


From ed577352b35dbc084d845b70b5ee999353d63471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 03/49] fix: HyperSurfaceCBO moves the active particles only

---
 cbx/dynamics/hypersurfacecbo.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..f10f01c 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,32 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
         x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
     def noise_constr_iso(self,):
+        x = self.x[self.particle_idx]
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
     def noise_constr_aniso(self,):
+        x = self.x[self.particle_idx]
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
-- 
2.43.0


From e371d6e2067fb2e3e56dca651248450955c3852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 04/49] fix: integer initial positions are promoted to floating
 point

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..bf8acc4 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -200,7 +200,7 @@ class ParticleDynamic:
                 x = x[None, None, :]
             elif x.ndim == 2:
                 x = x[None, ...]
-            self.x = self.copy(x)
+            self.x = self.copy(1. * x) # positions are real valued, also for integer input
         
         self.M, self.N = self.x.shape[:2]
         self.d = self.x.shape[2:]
-- 
2.43.0


From 6461d1332520b17c4f614988d54f9497e80517db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 05/49] fix: without constraints the solved system is the
 identity, DriftConstrainedCBO reduces to CBO

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From 8d00f5abfdbe7b4f870d0723a0adfe409532e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 06/49] fix: DriftConstrainedCBO moves the active particles
 only

---
 cbx/dynamics/driftconstrainedcbo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
-- 
2.43.0


From dd6416eb4870eee63708374f51143166b74c7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 07/49] fix: independent noise of DriftConstrainedCBO acts on
 active runs, uses the seeded sampler and keeps best particle and energy
 paired

---
 cbx/dynamics/driftconstrainedcbo.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..e5157e3 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -50,17 +50,23 @@ class DriftConstrainedCBO(CBO):
     def inner_step(self,):
         self.indep_noise_step()
         dc_inner_step(self)
+        self.consensus_runs_idx = self.active_runs_idx # the runs self.consensus belongs to
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
+            runs, _, c_idx = np.intersect1d(
+                self.active_runs_idx, self.consensus_runs_idx, return_indices=True
+            )
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                cxd = (np.linalg.norm(self.x[runs] - self.consensus[c_idx], axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = runs[cxd < self.eps_indep]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=((len(idx),) + self.x.shape[1:]))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-                )
\ No newline at end of file
+                )
+                # the objective is evaluated on the moved particles
+                self.x_old = self.copy(self.x)
-- 
2.43.0


From 54afc53389c7b5930663f1c49f19002c25e85fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 08/49] fix: RegCombinationCBO moves the active particles only

---
 cbx/dynamics/regcombinationcbo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From ed78fbed36c5f5cad020155386f19de238cc3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 09/49] fix: regularize_objective accepts any number of runs,
 the parameter is broadcasted by the scheduler only

---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..abd80d7 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,7 +75,6 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
         return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
@@ -124,6 +123,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x) # one parameter per run from here on
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From a81c1fbccaf80a4bd663d1c28d96f2226c56a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 10/49] fix: regularization scheduler keeps theta below
 theta_max

---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index abd80d7..ffb90ec 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -126,7 +126,7 @@ class regularization_paramter_scheduler(param_update):
         dyn.f.broadcast_lamda(dyn.x) # one parameter per run from here on
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
-        self.theta[t] *= self.factor_theta
+        self.theta[t] = np.minimum(self.theta[t] * self.factor_theta, self.theta_max)
         self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
                                  a_max= self.theta_max, a_min=None)
         dyn.f.lamda[~t] *= self.factor_lamda
-- 
2.43.0


From bde50dc907608ff9a1626502c857b87198e3215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 11/49] fix: weighted regularization rule uses stabilised
 weights

---
 cbx/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index ffb90ec..5ea46c6 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import logsumexp
 from cbx.scheduler import param_update
 
 #%%
@@ -91,9 +92,10 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    weights = -dyn.alpha * dyn.eval_f(dyn.x)
+    E = np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
     R = dyn.f.reg_func(dyn.x)
-    return (E * R).sum(axis=-1)/E.sum(axis=-1)
+    return (E * R).sum(axis=-1)
     
     
 class regularization_paramter_scheduler(param_update):
-- 
2.43.0


From d6756187673d2cb119224ad20ea861670d90673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 12/49] fix: covariance noise uses the weights of the active
 particles

---
 cbx/dynamics/pdyn.py | 2 +-
 cbx/noise.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index bf8acc4..479053c 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -899,7 +899,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From 790805bc7090444ca377dcb47dc310c91043422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 13/49] fix: PolarCBO covariance couples the particles of each
 run separately

---
 cbx/dynamics/polarcbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..670751d 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -262,10 +262,13 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval 
+            - (self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx])[:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
-        D = np.sum(D * coeffs[..., None, None], axis = -3)
+        D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 27bb4603432652764a173cd23b0f5f3da71cccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 14/49] fix: PolarCBO computes a consensus point for every
 updated particle if partial=False

---
 cbx/dynamics/polarcbo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 670751d..c2d8551 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -239,9 +239,9 @@ class PolarCBO(CBO):
     def compute_consensus(self,):
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
-        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
-        
-        
+        # kernel between the updated particles and the particles of the batch
+        x_p = self.x[self.particle_idx]
+        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x_p[:,:,None,...])
         
         self.consensus, energy = self._compute_consensus(
             energy, x, self.neg_log_eval, 
-- 
2.43.0


From bb0b8d51b3bae66c3dc82e116e865572469d9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 15/49] fix: Heaviside corrections act on the active particles
 and count their evaluations per run

---
 cbx/correction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..de98041 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,12 +73,12 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1] # update number of function evaluations
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * np.where(z > 0, 1,0)[(...,) + (None,) * (x.ndim - 2)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +91,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[(...,) + (None,) * (x.ndim - 2)]
     
 
-- 
2.43.0


From ec0f003c7efb67afc709b1323b244f0b65c37d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 16/49] fix: track_x stores a copy of the initial positions

---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From 9a68a90ae1ec11fda0b6cd46d4eba9cf0bc8510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 17/49] fix: init_history leaves the extra_tracks list of the
 user unchanged

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 479053c..70e7f0f 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From 5ecced48452ef2824a955ce882b4233921ef1333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 18/49] fix: reset keeps the tracking arguments of the user

---
 cbx/dynamics/pdyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 70e7f0f..44c5b19 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -471,7 +471,10 @@ class ParticleDynamic:
         Returns:
             None
         """
+        if track_args is None: # e.g. after a reset, keep the arguments specified before
+            track_args = getattr(self, 'track_args', None)
         track_args = track_args if track_args else {}  
+        self.track_args = track_args
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
-- 
2.43.0


From dae0fffb7771c5b2cc67ae8a9517458511446583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 19/49] fix: default post processing removes NaNs also with
 copy_nan_to_num

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 44c5b19..f9474ef 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,7 +39,7 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
         dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
-- 
2.43.0


From 9c0bf34dcc28cc4e6143583d5d608e0d84a8131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:58 +0000
Subject: [PATCH 20/49] fix: the seed also determines the initial positions

---
 cbx/dynamics/pdyn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index f9474ef..d6257df 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -175,6 +175,7 @@ class ParticleDynamic:
         self.norm = norm if norm is not None else np.linalg.norm
         rng = np.random.default_rng(self.seed)
         self.sampler = sampler if sampler is not None else rng.standard_normal
+        self.rng = rng
         
     def init_x(self, x, M, N, d):
         """
@@ -208,7 +209,8 @@ class ParticleDynamic:
         
         
     def init_particles(self, shape=None):
-        return np.random.uniform(-1., 1., size=shape)
+        rng = np.random if self.seed is None else self.rng
+        return rng.uniform(-1., 1., size=shape)
 
     def init_f(self, f, f_dim, check_f_dims):
         self.f = _promote_objective(f, f_dim)
-- 
2.43.0


From 800b98c54dcb412b15c5203ccd0656f19cf6784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 21/49] fix: derivatives of quadricConstraint also hold for
 matrices that are not symmetric

---
 cbx/constraints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 6a2ce4b..2eb256c 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -130,14 +130,14 @@ class quadricConstraint(Constraint):
         )
         
     def grad(self, x):
-        return 2 * x@self.A + self.b
+        return x@(self.A + self.A.T) + self.b
     
     def hessian(self, x):
-        return 2 * self.A
+        return self.A + self.A.T
     
     def solve_Id_plus_call_grad(self, x, x_tilde, factor=1.):
         M = (np.eye(self.A.shape[0])[None, None, ...] + 
-             4 * factor * self(x)[..., None, None] * self.A)
+             2 * factor * self(x)[..., None, None] * (self.A + self.A.T))
         return np.linalg.solve(M, (x_tilde - 2 * factor * self(x)[..., None] * self.b)[..., None])[..., 0]
     
 class sphereConstraint(Constraint):
-- 
2.43.0


From 3f8827e2669cafe372d422abcf2c5246b01eeec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 22/49] fix: ProjectionSquare projects onto the square of
 radius r

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..3aee442 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y[np.arange(y.shape[0]), idx])
         return y.reshape(s)
 
 
-- 
2.43.0


From 690f0d560cc68777263682894dd038dc5b8fdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 23/49] fix: domain of ProjectionBall is centered

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 3aee442..0d056a2 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -61,7 +61,7 @@ class ProjectionBall(ProjectionMirrorMap):
         
     def __call__(self, theta):
         nx = np.linalg.norm(theta, axis=-1)
-        idx = np.where(nx > (self.radius + self.thresh))
+        idx = np.where(np.linalg.norm(theta - self.center, axis=-1) > (self.radius + self.thresh))
         nx = 0.5*nx**2 
         nx[idx] = np.inf
         return nx
-- 
2.43.0


From 9a3336bd022f3177f9753e101979fca6225c0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 24/49] fix: LogBarrierBox.grad_conj is defined at zero

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 0d056a2..af42e8f 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -125,7 +125,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From 2e84de790fbb268ff0e0ebab850cc18bd028047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:33 +0000
Subject: [PATCH 25/49] fix: NegativeLogEntropySimplex.grad_conj does not
 overflow

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index af42e8f..2e0c93e 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -138,7 +138,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        e = np.exp(y - y.max(axis=-1, keepdims=True))
+        return e/e.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From 5853fb44775d209996ca150d42625131bffee065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 26/49] fix: L2 hessian includes lamda, NonsmoothBarrier is
 evaluated per particle

---
 cbx/dynamics/mirrorcbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 2e0c93e..184921b 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -158,7 +158,7 @@ class L2(MirrorMap):
     
     def hessian(self, theta):
         n,m = theta.shape
-        return np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
+        return self.lamda * np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
    
     
    
@@ -187,7 +187,7 @@ class weighted_L2(MirrorMap):
     
 class NonsmoothBarrier(MirrorMap):
     def __call__(self, theta):
-        return np.sum(np.abs(theta)/(1-np.abs(theta)))
+        return np.sum(np.abs(theta)/(1-np.abs(theta)), axis=-1)
     
     def grad(self, theta):        
         return np.sign(theta)/(1 + np.abs(theta)**2 - 2*np.abs(theta))
-- 
2.43.0


From 834087d919d5021db9f45a7076a8abbae47b968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 27/49] fix: ProjectionHyperplane projects onto the hyperplane
 for the default normal vector

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 184921b..7171b32 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -81,7 +81,8 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones_like(y) # normal vector in the dimension of y
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/(a**2).sum(axis=-1, keepdims=True) * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From c29bd660b759a9a8fa45296550ed6b11908a2bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 28/49] fix: success evaluation respects the verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..31c5efd 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From 83a3a8d5f3490348349b3532b46f1d0c8c4c8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 29/49] fix: distance to the minimizer keeps singleton
 dimensions

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 31c5efd..8182614 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm((x_true[None,...] - x).reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From 8534bde90e055fc009d80d46a092dc39451ab5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 30/49] fix: energy_stagnation_term works for multiple runs

---
 cbx/utils/termination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..e58e614 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -121,10 +121,10 @@ class energy_stagnation_term:
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
         # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
+        E = dyn.f(dyn.consensus) # the consensus is only known for the active runs
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
         # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From d1f54a715168908163ed1e7d092b238af4524427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 31/49] fix: resampling leaves terminated runs unchanged

---
 cbx/utils/resampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..0b1e86e 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        idx = np.intersect1d(idx, dyn.active_runs_idx) # terminated runs stay unchanged
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
-- 
2.43.0


From dbe76a9a3291a950cd25fc441e236b0b3b9ec6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 32/49] fix: best consensus tracking of resampling works for a
 subset of active runs

---
 cbx/utils/resampling.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 0b1e86e..b95188c 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -67,20 +67,20 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # the consensus is only known for the active runs
+        consensus = dyn.consensus[np.searchsorted(dyn.active_runs_idx, idx), ...]
+        consensus_energy = dyn.f(consensus)
+        dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(dyn.x[:, :1, ...])
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
-            self.best_consensus_energy[idx, ...] = consensus_energy
-        else:
-            idx2 = np.where(
-                consensus_energy < self.best_consensus_energy[idx, ...]
-                )[0]
-            self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
-                )
-            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+            
+        idx2 = np.where(
+            consensus_energy < self.best_consensus_energy[idx, ...]
+            )[0]
+        self.best_consensus[idx[idx2], ...] = dyn.copy(consensus[idx2, ...])
+        self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
 
 class ensemble_update_resampling:
     """
-- 
2.43.0


From cecf1dec1a98af8c9c42fca700f8932937e1c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 33/49] fix: CBS.optimize returns the best particle

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From 850efaf63401e5ea696828f785d4b79fe20600f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 34/49] fix: noise=None selects isotropic noise as documented

---
 cbx/dynamics/pdyn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index d6257df..42f441b 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -873,6 +873,8 @@ class CBXDynamic(ParticleDynamic):
             None
         """
         # set noise model
+        if noise is None:
+            noise = 'isotropic'
         if isinstance(noise, str):
             self.noise_callable = get_noise(noise, self)
         elif callable(noise):
-- 
2.43.0


From 66ea93071be19813ec66d18ed589ab0d4d5f07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 35/49] fix: max_eval_term accounts for all evaluations of the
 next step

---
 cbx/correction.py          | 4 ++++
 cbx/dynamics/cbo_memory.py | 5 +++++
 cbx/dynamics/pdyn.py       | 6 ++++++
 cbx/dynamics/polarcbo.py   | 5 +++++
 cbx/dynamics/pso.py        | 5 +++++
 cbx/utils/termination.py   | 2 +-
 6 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index de98041..f5a1cc5 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -14,6 +14,8 @@ def get_correction(name, **kwargs):
         raise ValueError('Unknown correction ' + str(name))
 
 class correction:
+    num_eval = 0 # number of function evaluations per consensus point
+
     def __init__(self):
         pass
 
@@ -53,6 +55,8 @@ class heavi_side_correction(correction):
     Calculate the Heaviside correction for the given input.
 
     """
+    num_eval = 1
+
 
     def __call__(self, dyn, x : ArrayLike) -> ArrayLike:
         """
diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 06ea57f..22cb2cb 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -129,6 +129,11 @@ class CBOMemory(CBO):
             self.alpha[self.active_runs_idx, :]
         )
     
+    def eval_per_step(self):
+        # the objective is evaluated on all updated particles
+        num_particles = self.batch_size if self.batch_partial else self.N
+        return num_particles + getattr(self.correction_callable, 'num_eval', 0)
+    
     def update_best_cur_particle(self,) -> None:
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 42f441b..6d03b54 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -944,6 +944,12 @@ class CBXDynamic(ParticleDynamic):
         self.num_f_eval[self.active_runs_idx] += x.shape[1] # update number of function evaluations
         return self.f(x)
     
+    def eval_per_step(self):
+        """
+        The number of function evaluations per active run in one step.
+        """
+        return self.batch_size + getattr(self.correction_callable, 'num_eval', 0)
+    
     def print_cur_state(self,):
         if self.verbosity > 0:
             print('Time: ' + "{:.3f}".format(self.t) + ', best current energy: ' + str(self.f_min))
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index c2d8551..ef810a2 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -250,6 +250,11 @@ class PolarCBO(CBO):
         )
         self.energy[self.consensus_idx] = energy
     
+    def eval_per_step(self):
+        # every updated particle has its own consensus point
+        num_consensus = self.batch_size if self.batch_partial else self.N
+        return self.batch_size + num_consensus * getattr(self.correction_callable, 'num_eval', 0)
+    
     def update_covariance(self,):
         r"""Update the covariance matrix :math:`\mathsf{C}(x_i)` of the noise model
     
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index bcfdd1e..e200b2c 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -162,6 +162,11 @@ class PSO(CBXDynamic):
         c, _ = self._compute_consensus(energy, x_batch, self.alpha[self.active_runs_idx, :])
         return c
 
+    def eval_per_step(self):
+        # the objective is evaluated on all updated particles
+        num_particles = self.batch_size if self.batch_partial else self.N
+        return num_particles + getattr(self.correction_callable, 'num_eval', 0)
+    
     def update_best_cur_particle(self,) -> None:
         # the energies belong to the historical best positions
         self.f_min = self.energy.min(axis=-1)
diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index e58e614..781751e 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -51,7 +51,7 @@ class max_eval_term:
         self.max_eval = max_eval
     
     def __call__(self, dyn):
-        estimated_eval = dyn.batch_size
+        estimated_eval = dyn.eval_per_step()
         return (dyn.num_f_eval + estimated_eval) > self.max_eval
     
 term_dict.update(
-- 
2.43.0


From cd20df6fa91673146d1ab8fe84e9f2e3ca0d0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 36/49] fix: correction='none' is accepted as documented

---
 cbx/correction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index f5a1cc5..bfa672f 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -3,7 +3,7 @@ from numpy.typing import ArrayLike
 import numpy as np
 
 def get_correction(name, **kwargs):
-    if name == 'no_correction':
+    if name in ('no_correction', 'none'):
         return no_correction()
     elif name == 'heavi_side':
         return heavi_side_correction()
@@ -57,7 +57,6 @@ class heavi_side_correction(correction):
     """
     num_eval = 1
 
-
     def __call__(self, dyn, x : ArrayLike) -> ArrayLike:
         """
         Calculate the Heaviside correction for the given input.
-- 
2.43.0


From 7b323e82fe6aeb116692b0f5a331242ebb8eb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:31 +0000
Subject: [PATCH 37/49] fix: objectives keep the leading dimensions of their
 input

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..78d3101 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
@@ -657,7 +657,7 @@ class Multimodal(cbx_objective):
     def apply(self, x):
         res = 0
         for mn in self.mns:
-            res += mn.pdf(x)
+            res += np.reshape(mn.pdf(x), x.shape[:-1]) # pdf drops singleton dimensions
         return -np.log(res)
             
     
-- 
2.43.0


From 20e3558d9218b943b6b8a6b3fa247d6abc1c1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 38/49] fix: objectives accept array valued parameters

---
 cbx/objectives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 78d3101..413584b 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -415,8 +415,8 @@ class Rastrigin_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -547,8 +547,8 @@ class Ackley_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
@@ -625,8 +625,8 @@ class Banana(cbx_objective):
 class Bimodal(cbx_objective):
     def __init__(self, a=None, b=None):
         super().__init__()
-        self.a = a if a else [1., 1.5]
-        self.b = b if b else [-1.2, -0.7]
+        self.a = a if a is not None else [1., 1.5]
+        self.b = b if b is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
@@ -639,7 +639,7 @@ class Bimodal(cbx_objective):
 class Unimodal(cbx_objective):
     def __init__(self, a = None):
         super().__init__()
-        self.a = a if a else [-1.2, -0.7]
+        self.a = a if a is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
-- 
2.43.0


From 4cb7f5f0dd14ced2ea9f0526660c1b6526efcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 39/49] fix: declared minima of Bukin6, Himmelblau and
 Holder_table

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 413584b..f0a6137 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])/self.factor
         
     def apply(self, x):
         x = self.factor*x
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])/self.factor + self.shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From b005e0b576658bb8c735b6bf711c010f6385d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 40/49] fix: contour_2D respects y limits equal to zero

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..c9b28a4 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From 11374c97cb125d5e6c7348f7e8a34a80c0649cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 41/49] fix: Taz kernel normalises the distances per run

---
 cbx/dynamics/polarcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index ef810a2..446d9b0 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,7 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists, axis=(-2,-1), keepdims=True)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From d3c5b03f42b3626e95f9c80ead8a1a6dbaba4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 42/49] fix: PolarCBO covariance noise works if all particles
 are updated by the consensus of a batch

---
 cbx/dynamics/polarcbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 446d9b0..60ce63a 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -269,11 +269,14 @@ class PolarCBO(CBO):
         """
         weights = (
             - self.kernel_factor() * self.neg_log_eval 
-            - (self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx])[:, None, :]
+            - (self.alpha[self.active_runs_idx, :] * self.energy[self.consensus_idx])[:, None, :]
         )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
-        D = self.drift[...,None] * self.drift[...,None,:]
+        drift = self.drift
+        if self.batched and not self.batch_partial: # drift of the particles in the batch
+            drift = drift[np.arange(drift.shape[0])[:, None], self.consensus_idx[1]]
+        D = drift[...,None] * drift[...,None,:]
         D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 67197440d29823a4d234fb2058377d3972671eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:22 +0000
Subject: [PATCH 43/49] fix: update difference is one number per run also for
 multi dimensional domains

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 6d03b54..33bc53d 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -285,7 +285,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -926,7 +926,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From 350b1319662eaada607c888cf83a40024fde29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 44/49] fix: the seed determines the initial positions and the
 noise of torch dynamics

---
 cbx/utils/torch_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..562aa06 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -76,9 +76,9 @@ class post_process_default_torch:
         dyn.x = torch.clamp(dyn.x, min=-self.max_thresh, max=self.max_thresh)
 
 @requires_torch
-def standard_normal_torch(device):
+def standard_normal_torch(device, generator=None):
     def _normal_torch(size=None):
-        return torch.randn(size=size).to(device)
+        return torch.randn(size=size, generator=generator).to(device)
     return _normal_torch
 
 def set_post_process_torch(self, post_process):
@@ -87,10 +87,11 @@ def set_post_process_torch(self, post_process):
 def set_array_backend_funs_torch(self, copy, norm, sampler):
     self.copy = copy if copy is not None else torch.clone
     self.norm = norm if norm is not None else norm_torch
-    self.sampler = sampler if sampler is not None else standard_normal_torch(self.device)
+    self.rng = None if self.seed is None else torch.Generator().manual_seed(self.seed)
+    self.sampler = sampler if sampler is not None else standard_normal_torch(self.device, self.rng)
     
 def init_particles(self, shape=None,):
-    return torch.zeros(size=shape).uniform_(-1., 1.)
+    return torch.zeros(size=shape).uniform_(-1., 1., generator=self.rng)
 
 def init_consensus(self, compute_consensus):
     self.consensus = None #consensus point
-- 
2.43.0


From 0db97de091727adc8905f8b32af2a5c679e2e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 45/49] fix: PolarCBO records the consensus evaluation points
 if asked to

---
 cbx/dynamics/polarcbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 60ce63a..7de209d 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -237,6 +237,7 @@ class PolarCBO(CBO):
             raise NotImplementedError('Unknown mode: ' + self.kernel_factor_mode)
         
     def compute_consensus(self,):
+        self.maybe_save_consensus_eval_points()
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
         # kernel between the updated particles and the particles of the batch
-- 
2.43.0


From 7e933202d2d8b478599fee4690c5a337d19bb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 46/49] fix: Unimodal, Bimodal and Multimodal stay finite far
 away from their modes

---
 cbx/objectives.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index f0a6137..7b5f18a 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -631,8 +631,9 @@ class Bimodal(cbx_objective):
     def apply(self, x):
         a = self.a
         b = self.b         
-        ret = -np.log(np.exp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2)) \
-                      + 0.5*np.exp( -(x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5 ))
+        # the densities underflow away from the modes, therefore only their logarithms are used
+        ret = -np.logaddexp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2), \
+                            np.log(0.5) - (x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5)
         return ret
         
 
@@ -643,7 +644,7 @@ class Unimodal(cbx_objective):
     
     def apply(self, x):
         a = self.a
-        ret = -np.log(0.5*np.exp( -(x[...,0]-a[0])**2/8 - (x[...,1]-a[1])**2/0.5 ))
+        ret = (x[...,0]-a[0])**2/8 + (x[...,1]-a[1])**2/0.5 - np.log(0.5)
         
         return ret
     
@@ -655,10 +656,10 @@ class Multimodal(cbx_objective):
         self.mns   = [multivariate_normal(mean=m, cov=c) for m,c in zip(self.means, self.covs)]
         
     def apply(self, x):
-        res = 0
+        res = -np.inf
         for mn in self.mns:
-            res += np.reshape(mn.pdf(x), x.shape[:-1]) # pdf drops singleton dimensions
-        return -np.log(res)
+            res = np.logaddexp(res, np.reshape(mn.logpdf(x), x.shape[:-1])) # logpdf drops singleton dimensions
+        return -res
             
     
 
-- 
2.43.0


From 0e68403be0a7f28cd819adeed460d23dde3aeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 47/49] fix: the sample size equation of a run is solved
 independently of the other runs

---
 cbx/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..f88dd9c 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -198,11 +198,11 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     roots of the function f
     """
     it = 0
-    x = high
+    x = (low + high)/2
     term = False
     idx = np.arange(len(low))
     while not term:
-        x = (low + high)/2
+        x[idx] = (low[idx] + high[idx])/2 # runs within the threshold keep their solution
         fx = f(x)
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
-- 
2.43.0


From 2e1218f975c0997f2ee3552f8026740bc5eb5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 48/49] fix: weighted_L2 mirror map inverts its gradient and
 works for any dimension and several runs

---
 cbx/dynamics/mirrorcbo.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 7171b32..65bbc1f 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -166,23 +166,23 @@ class L2(MirrorMap):
 class weighted_L2(MirrorMap):
     def __init__(self, A = None):
         super().__init__()
-        if A is None:
-            A = np.eye(1)
         self.A = A
+        
+    def symmetric_A(self, d):
+        A = np.eye(d) if self.A is None else self.A
+        return 0.5*(A + A.T)
     
     def __call__(self,theta):
-        return 0.5*theta.T @ self.A @theta
+        return 0.5*np.sum(theta * self.grad(theta), axis=-1)
     
     def grad(self, theta):
-        return np.reshape(0.5*(self.A + self.A.T)@theta[:,:,None],theta.shape)
+        return theta @ self.symmetric_A(theta.shape[-1])
     
     def grad_conj(self, y):
-        warnings.warn('Not properly implemented', stacklevel=2)
-        return y
-        #return np.linalg.solve(0.5*(self.A + self.A.T),y.T).T
+        return np.linalg.solve(self.symmetric_A(y.shape[-1]), y[..., None])[..., 0]
     
     def hessian(self, theta):
-        return np.expand_dims(np.ones(theta.shape),axis=1) * 0.5*(self.A.T+self.A)
+        return np.expand_dims(np.ones(theta.shape),axis=1) * self.symmetric_A(theta.shape[-1])
     
     
     
-- 
2.43.0


From dcea006a38cbdb8e705e64b0108b0e02bd8b7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:49 +0000
Subject: [PATCH 49/49] fix: Taz kernel is defined if all particles of a run
 coincide

---
 cbx/dynamics/polarcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 7de209d..1a766f9 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,8 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists, axis=(-2,-1), keepdims=True)
+        max_dists = np.max(dists, axis=(-2,-1), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.where(max_dists > 0, max_dists, 1.) # all points may coincide
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0

