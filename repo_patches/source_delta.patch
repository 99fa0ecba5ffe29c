From c8da5e836156edeebddb3c246f12191d7fd3fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 01/42] fix: gravity applied on particles indexed a missing
 attribute (p_idx)

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From db39b809765d8864f075b359292c1f39241e054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 02/42] fix: AFLIP g2p used the particle index for the solver
 state

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..41b55b5 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 690420166ec8b15341cf98fd05c770d0bd2ef300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 03/42] fix: classic APIC update crashed and had the wrong sign
 for compression positive L

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 41b55b5..ca19ace 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,7 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +444,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 3404ffcb3e1d3c2a222ee46001d043c08dfbf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 04/42] fix: USL velocity gradient was transposed

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..7657c74 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,7 +670,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ikj", intr_cache.shape_grads, -intr_vels_nt_3d
             )
 
   
-- 
2.43.0


From 6af102e641843e9ef86b2e321c396b3afe071eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 05/42] fix: Jaumann rotation in druckerprager rotated against
 the motion (L is compression positive)

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..7bfc80e 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = -get_spin_tensor(L)
         deps = D * dt
 
         # objective rate correction (Jaumann)
-- 
2.43.0


From f654aa8e0f91261703585f932eeec748123edab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 06/42] fix: Jaumann rotation in modifiedcamclay rotated
 against the motion (L is compression positive)

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..2190c94 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = -get_spin_tensor(L) # skew-symmetric part
 
 
         deps_next = D * dt
-- 
2.43.0


From 6c97eedc51cab2405d86787a2b26aaefd40c4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 07/42] fix: Newton fluid pressure had tension positive sign

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..dbc4e3b 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # sigma = pI + 2*mu*dev(D), compression positive
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From d4a8cf1c3fd9dc1db3e52640f0e51b0c09ee7c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 08/42] fix: NewtonFluid.create_state passed the density twice

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index dbc4e3b..b358627 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From fff2ac95ed5e26c07ebb6c049989e1b7796b63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 09/42] fix: 2D shear reset produced a singular deformation
 gradient

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6269cee 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
-- 
2.43.0


From d067ad086856df329119bcca3edc127bdb93a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 10/42] fix: shear reset overwrote the stored deformation
 history

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 6269cee..3399b66 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,7 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
-
+        # F_store_stack keeps the full history and is not reset
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
         return new_mp
-- 
2.43.0


From b2337fc7ec02701136805ff9804e8d46dd92548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 11/42] fix: USL did not update the stored deformation history

---
 hydraxmpm/solvers/usl.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 7657c74..4296b06 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -710,6 +710,13 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -722,9 +729,10 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L, p_F_store_next),
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From 266786f3848c19292d4015014b930dfaa7fdfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 12/42] fix: USL lost the particle axis of the volume for
 single particle bodies

---
 hydraxmpm/solvers/usl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 4296b06..ae98325 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists
                         for s in range(num_sdfs)
                     ]
                 )
@@ -721,7 +721,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
-- 
2.43.0


From c50fcb1fc64b47940f8168879e2cafe05a8635e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 13/42] fix: AFLIP lost the particle axis of the volume for
 single particle bodies

---
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index ca19ace..669f697 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From cc0342d0a2b6be2828cc1cd43081fa8e2313720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 14/42] fix: usl p2g discarded the forces of earlier bodies on
 a shared grid

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index ae98325..26d2e69 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
-- 
2.43.0


From 8d56139eac7f21f0cee8887cba20fdec8995188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 15/42] fix: usl_asflip p2g discarded the forces of earlier
 bodies on a shared grid

---
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 669f697..44ace26 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From 5cd26a041307bf60a05496fbceade59ea82b23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 16/42] fix: dynamic alpha ignored alpha_support_min and
 alpha_support_max

---
 hydraxmpm/solvers/usl_asflip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 44ace26..ef36363 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -471,7 +471,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From a748f42c43cdbc296db69b5ef366f584849129eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 17/42] fix: gather_from_grid read a missing cache attribute

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 283d07b8780076fba63e59a553d2945989a33313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 18/42] fix: solver bound grids and laws per coupling but
 indexes them by registration

---
 hydraxmpm/common/builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..0e91fef 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,9 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        # couplings refer to grids and laws by their registered index
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From df0d889a52e30f57a31d9385fbd92926fbf0c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 19/42] fix: colliders did not occupy a force state so later
 forces read the wrong state

---
 hydraxmpm/common/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 0e91fef..2997823 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -439,6 +439,7 @@ class SimBuilder:
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)  # Stateless force
 
         return f_idx
 
-- 
2.43.0


From 75737149837a12e6901c6210c8deddbc36f94316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 20/42] fix: add_sdf_collider dropped its friction argument

---
 hydraxmpm/common/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 2997823..b91085a 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -420,7 +420,7 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
         """Convenience method for adding objects."""
@@ -436,6 +436,7 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
-- 
2.43.0


From 992e84f44e33107bd76aac81fce1f6bf1d124c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 21/42] fix: solver state index was wrong when a solver takes a
 subset of the couplings

---
 hydraxmpm/common/builder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index b91085a..9faf40d 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -1,4 +1,6 @@
 
+import dataclasses
+
 import jax
 
 from hydraxmpm.solvers.usl import USLSolver
@@ -314,7 +316,15 @@ class SimBuilder:
             list(range(len(self.sdf_logics))) if sdf_idx_list is None else sdf_idx_list
         )
         
-        couplings = tuple(self.couplings[i] for i in b_idx_list)
+        # solver states are created below, one per selected coupling
+        couplings = tuple(
+            self.couplings[i]
+            if self.couplings[i].s_idx is None
+            else dataclasses.replace(
+                self.couplings[i], s_idx=len(self.solver_states) + n
+            )
+            for n, i in enumerate(b_idx_list)
+        )
         forces = tuple(self.force_logics[i] for i in f_idx_list)
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
-- 
2.43.0


From 413e4fa70387f1a677dc4c169101367ee9e41370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 22/42] fix: Drucker-Prager dilatancy moved the cone return off
 the yield surface

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 7bfc80e..aa0b7a4 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From a5b066c8ea5eee3e9d1ba6d1fe0ef2b8fb9ef6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 23/42] fix: Drucker-Prager apex return decreased the
 accumulated plastic strain

---
 hydraxmpm/constitutive_laws/druckerprager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index aa0b7a4..1ec6978 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -184,10 +184,10 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From 0bec764cc1a726602b3902fe110523599c7426b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 24/42] fix: DruckerPrager.get_dt_crit read a missing attribute

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 1ec6978..7390116 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From 7adbc1fd348d95be0733b1e3e0099db95466a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 25/42] fix: MCC OCR initialisation projected admissible stress
 states onto the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 2190c94..34f6a08 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From 08102145abf97914ccf2d306744ae1377ddad98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 26/42] fix: MCC states created from stress, density or
 material points could not be updated

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 34f6a08..c5d04a3 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,12 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+        ), density_stack
 
 
     def create_state_from_density(
@@ -327,7 +332,14 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack,
+                stress_ref_stack=stress_ref_stack,
+                eps_e_stack=eps_e,
+            ), specific_volume_stack
 
     def create_state(
         self,
@@ -337,7 +349,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack =jnp.full((mp_state.position_stack.shape[0],), 1.0)
         )
 
         return mcc_state
-- 
2.43.0


From 1a8765d9d3424f83c2bedf5c5e438f962a26cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 27/42] fix: grid lost a row of nodes when the extent over cell
 size ratio rounds down

---
 hydraxmpm/grid/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..41d9e48 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,7 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # tolerate rounding of the ratio (e.g. 13.999999999999998)
+        grid_size = tuple(int(s + 1e-6) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 3bdbd5741b153510300792af157dc75cc441966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 28/42] fix: default material point volume used an area in 3D

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..ea4b530 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -201,7 +201,7 @@ class MaterialPointState(BaseMaterialPointState):
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
             points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 6f49b6553febadf5651d40183d2e21f9332aab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 29/42] fix: regular particle generation did not scale the
 in-cell offsets

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..b9d2107 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -67,7 +67,7 @@ def generate_particles_in_sdf(
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
 
             offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim) * cell_size
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
-- 
2.43.0


From 95fffb49da984fbbc5d0e02c07b0734991c9ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 30/42] fix: 3D hollow cylinder ignored its height

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..c74b017 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,7 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From ddb7e17589c6e05c70ce9f7f9ecf120a7c136088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 31/42] fix: get_dev_strain_stack recursed forever and
 get_scalar_shear_strain passed an extra argument

---
 hydraxmpm/utils/math_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..a6e2874 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -286,7 +286,7 @@ def get_hencky_strain_stack(F_stack):
 
 def get_dev_strain_stack(strain_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
-- 
2.43.0


From 8157b86b1b3ba260739012f118cf135aaf718aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 32/42] fix: mu(I) mobilised half of its friction (stress is 2
 eta D)

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..a643e3d 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,7 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From f889cae4679fdbfd0f5f314c49c48daf6b3047f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 33/42] fix: signed distances have finite gradients at the
 centre, axis and surface

---
 hydraxmpm/sdf/sdfcollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index c74b017..9c15a98 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From 3bb160d9baf3396e5d5f8cfa9a2671847f152d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 34/42] fix: a grid reaches the end of its domain when the
 extent is no multiple of the cell size

---
 hydraxmpm/grid/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 41d9e48..5bc1ab2 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -9,6 +9,8 @@ Explanation:
     This module contains the `GridState` class which contains the state of the computational grid.
 """
 
+import math
+
 import jax.numpy as jnp
 
 from jaxtyping import Array, Float, UInt
@@ -62,8 +64,9 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        # tolerate rounding of the ratio (e.g. 13.999999999999998)
-        grid_size = tuple(int(s + 1e-6) + 1 for s in raw_size)
+        # enough nodes to reach the end, tolerating rounding of the ratio
+        # (e.g. 13.999999999999998 or 14.000000000000002)
+        grid_size = tuple(math.ceil(s - 1e-6) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 9852752be1088905ae8d23f7c2f2e203a9618636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 35/42] fix: the void ratio from bulk density was the specific
 volume

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index a6e2874..9920b5a 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From 0b8c2fd45d6e1697995ce27f8bbe6619458f6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 36/42] fix: the clamped scalar inverse was NaN at and near
 zero

---
 hydraxmpm/utils/math_helpers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 9920b5a..df04100 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -602,12 +602,9 @@ def safe_inv_scalar_clamped(d, gradient_clip_val=1e6):
     inv_d = 1.0 / d_safe
 
     # 2. Gradient Clipping Trick so the derivative does not explode.
-    true_grad = -1.0 / (d_safe * d_safe)
-
-    grad_mag = jnp.abs(true_grad)
-    scale = jnp.minimum(1.0, gradient_clip_val / (grad_mag + 1e-12))
-
-    effective_grad = true_grad * scale
+    # The magnitude is infinite close to zero (float32): it is clipped, not scaled.
+    grad_mag = 1.0 / (d_safe * d_safe)
+    effective_grad = -jnp.minimum(grad_mag, gradient_clip_val)
 
     # 3. Construct the output with modified gradients
     # Use stop_gradient to treat 'effective_grad' as a constant slope.
-- 
2.43.0


From f89ca5ed752e8894f47740b7fba6cef0e0cf57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:19 +0000
Subject: [PATCH 37/42] fix: two of the documented modes of
 generate_particles_in_sdf crashed

---
 hydraxmpm/utils/generate_body.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index b9d2107..27dd93c 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -14,7 +14,7 @@ def generate_particles_in_sdf(
     center_of_mass=None,
     rotation=None,
     shapefunction="cubic",
-    mode="uniform",
+    mode="regular",
     cell_size=None,  # For 'regular'/'gauss_legendre' modes
     ppc=None,  # For 'regular'/'gauss_legendre' modes
 ):
@@ -22,9 +22,9 @@ def generate_particles_in_sdf(
     Generates particles inside the SDF using Rejection Sampling.
 
     mode options:
-    "rejection" - rejection sampling monte carlo
+    "random" - rejection sampling monte carlo (requires num_particles and key)
     "regular" - uniform grid sampling (requires cell_size and ppc)
-    "gauss_legendre - gauss legendre quadrature sampling (requires cell_size and ppc)
+    "gauss_legendre" - gauss legendre quadrature sampling (requires cell_size and ppc)
     """
     dim = len(bounds_min)
 
@@ -55,19 +55,24 @@ def generate_particles_in_sdf(
         meshes = jnp.meshgrid(*id_ranges, indexing="ij")
 
         grid_origins_flat = jnp.stack(meshes, axis=-1).reshape(-1, dim) * cell_size
-        offsets = None
 
-        if mode == "regular":
+        # e.g., ppc=4 (2D) -> 2x2 grid inside cell
+        pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
 
-            # Do linear subdivision: e.g., ppc=4 (2D) -> 2x2 grid inside cell
-            pts_per_dim = int(np.ceil(ppc ** (1 / dim)))
+        if mode == "regular":
 
+            # Do linear subdivision
             # Linspace from 0 to 1 to shift center points
             # e.g., 2 points -> [0.25, 0.75]
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
 
-            offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim) * cell_size
+        else:
+
+            # Gauss-Legendre points of the cell, mapped from (-1, 1) to (0, 1)
+            lin = jnp.array(0.5 * (np.polynomial.legendre.leggauss(pts_per_dim)[0] + 1.0))
+
+        offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
+        offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim) * cell_size
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
@@ -76,6 +81,8 @@ def generate_particles_in_sdf(
         candidate_point_stack = (
             grid_origins_flat[:, None, :] + offsets[None, :, :]
         ).reshape(-1, dim)
+    else:
+        raise ValueError(f"Unknown mode '{mode}'.")
 
     dists = sdf_obj.get_signed_distance_stack(sdf_state, candidate_point_stack)
     mask = dists < 0.0
-- 
2.43.0


From 554b7e82f50597bec67700f3100761e82351af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 38/42] fix: VTK particle output without a property or with one
 the state does not have

---
 hydraxmpm/common/vtk_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..008c230 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -81,10 +82,8 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
-        # print(prop_data.shape)
-
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -94,7 +93,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
-- 
2.43.0


From 741851eb10c8ab67640b5af58097191f39b36954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 39/42] fix: VTK output of a static boundary (no step) crashed

---
 hydraxmpm/common/vtk_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 008c230..f60811c 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -212,4 +212,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From 14e236e5ecc32494e4c3e1e23ae09ef567fb1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 40/42] fix: boundaries were sampled on a window that depends
 on where the origin is

---
 hydraxmpm/common/rerun.py  | 2 +-
 hydraxmpm/common/vtk_io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..0c00940 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,7 +324,7 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
         aspect_size = np.ceil(domain_size / step_size).astype(int)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index f60811c..f1b9f4e 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -151,7 +151,7 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
             aspect_size = np.ceil(domain_size / step_size).astype(int)
             
-- 
2.43.0


From 04298c100d384d7125defc3242f6de8adfaf3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 41/42] fix: normals of 3D boundaries had x and y exchanged in
 Rerun

---
 hydraxmpm/common/rerun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 0c00940..80a45e4 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,9 +383,8 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
+                # normals align with the index axes, which are X, Y, Z here
+                world_normals = normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
-- 
2.43.0


From f927c52718c7de841e7a66673dbe4e0038ff6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 42/42] fix: a first Rerun visualizer in save mode did not save

---
 hydraxmpm/common/rerun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 80a45e4..002ea07 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -133,8 +133,10 @@ class RerunVisualizer:
 
         self.root_path = root_path
 
+        if mode == "save":
+            rr.save("simulation.rrd")
         # Serve viewer once
-        if not RerunVisualizer._viewer_started:
+        elif not RerunVisualizer._viewer_started:
             if mode == "spawn":
                 rr.spawn()
             elif mode == "serve":
@@ -142,8 +144,6 @@ class RerunVisualizer:
 
             # Mark as started so we don't open a second window next time
             RerunVisualizer._viewer_started = True
-        elif mode == "save":
-            rr.save("simulation.rrd")
 
         if is_3d:
             view = rrb.Spatial3DView(
-- 
2.43.0

