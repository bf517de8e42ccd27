From eacf9a0eb7a01a43e2e4ebb6899f14e4cc855ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 01/57] fix: nested dictionary conversion to tensors passes
 unknown keyword and drops other entries

---
 src/hookeai/utilities/type_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..01ca9bd 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +69,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep as is
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From e1e78c5ae6b9eca8678abe213e6d5522f21d8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:42 +0000
Subject: [PATCH 02/57] fix: out-of-place dictionary precision conversion
 modifies nested dictionaries of the input

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 01ca9bd..dff3b1e 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -145,7 +145,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -221,7 +222,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 1017176d5cf20f327b38e64198e051d08ef6bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 03/57] fix: mixed hardening back-stress update leaves the
 returned state off the yield surface

The kinematic hardening stress enters the yield residual as an equivalent
stress; along the flow vector (norm sqrt(3/2)) this is two thirds of it.
---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..cbef060 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                * flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..bb3d662 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+            * flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 6fb715119a19c4ce9c8ed6b209ad9fdbff6f2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 04/57] fix: vectorised mixed hardening tangent ignores the
 kinematic hardening slope

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index bb3d662..23dc641 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 5e5f888eb079b1701cb10fddc3b4c0684b39724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 05/57] fix: Drucker-Prager cone tangent normalised by the
 total instead of the deviatoric trial strain

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 30e227aea5d6d2a1f83e5224eb9a8808781a0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:23 +0000
Subject: [PATCH 06/57] fix: sequential element mode ignores the feature
 normalisation of the material model

---
 .../model/material_discovery.py                     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..634aff6 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,11 +1411,22 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        model_features_in = features_in
+        if self.check_model_in_normalized(constitutive_model):
+            model_features_in = data_scaler_transform(constitutive_model,
+                features_in, 'features_in', mode='normalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            features_out = data_scaler_transform(constitutive_model,
+                features_out, 'features_out', mode='denormalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
             # Build and store strain and stress tensors
-- 
2.43.0


From c7ebb9a8f635b265fe119c48bb4859276133c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:23 +0000
Subject: [PATCH 07/57] fix: vectorised local strain paths store normalised
 strains for models with normalised input

---
 .../material_model_finder/model/material_discovery.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 634aff6..5a4e5b8 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2512,13 +2512,14 @@ class MaterialModelFinder(torch.nn.Module):
         features_in = torch.stack(features_in_data, dim=0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
+        model_features_in = features_in
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 7637166ff9147eb492932f00dd7ffb9cafac2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:23 +0000
Subject: [PATCH 08/57] fix: loss components history normalises the whole force
 history instead of each time step

---
 .../model/material_discovery.py               | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 5a4e5b8..ebb443c 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2872,21 +2872,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2903,6 +2888,21 @@ class MaterialModelFinder(torch.nn.Module):
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize external forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize reaction forces
+                reaction_forces_mesh = data_scaler_transform(
+                    self, reaction_forces_mesh, features_type='forces',
+                    mode='normalize')
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
                 # Force equilibrium strictly based on pointwise internal,
-- 
2.43.0


From b22b8ca71c018a456b9eb07bc4a5ab48d286e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:23 +0000
Subject: [PATCH 09/57] fix: deviatoric gradient operator of 2D problems built
 with a 2D projection of 3D components

---
 src/hookeai/material_model_finder/model/material_discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index ebb443c..109fa6d 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2455,7 +2455,8 @@ class MaterialModelFinder(torch.nn.Module):
         _, comp_order_sym, _ = get_problem_type_parameters(4)
         # Get volumetric and deviatoric projection tensors
         _, dev_proj_vmf = \
-            get_projection_tensors_vmf(n_dim, comp_order_sym, device=device)
+            get_projection_tensors_vmf(n_dim=3, comp_order_sym=comp_order_sym,
+                                       device=device)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute discrete deviatoric symmetric gradient operator
         dev_grad_operator_sym = torch.matmul(dev_proj_vmf, grad_operator_sym)
-- 
2.43.0


From a698c839415c9680669c7ec30ae2bb88176084f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:32 +0000
Subject: [PATCH 10/57] fix: get_device reads attributes that do not exist

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 .../hybrid_base_model/model/hybrid_model.py                   | 2 +-
 .../hybrid_base_model/model/hybridized_layers.py              | 4 ++--
 .../hybrid_base_model/model/transfer_learning.py              | 4 ++--
 .../rc_base_model/model/recurrent_model.py                    | 2 +-
 .../model_architectures/rnn_base_model/model/gru_model.py     | 2 +-
 src/hookeai/simulators/fetorch/element/type/interface.py      | 2 +-
 src/hookeai/simulators/fetorch/material/models/interface.py   | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 109fa6d..98e8f5e 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -826,7 +826,7 @@ class MaterialModelFinder(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, sequential_mode='sequential_element'):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..f354128 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -491,7 +491,7 @@ class HybridModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def get_detached_model_parameters(self, is_normalized_out=False):
         """Get model parameters detached of gradients.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..418a3ed 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -170,7 +170,7 @@ class BatchedElasticModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
@@ -331,7 +331,7 @@ class VolDevCompositionModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..124e0a0 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -174,7 +174,7 @@ class PolynomialLinearRegressor(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
@@ -521,7 +521,7 @@ class BatchedElasticModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..ca695a2 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -483,7 +483,7 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def _set_model_parameters(self, learnable_parameters):
         """Set recurrent constitutive model learnable parameters.
diff --git a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
index db460be..3dc46d3 100644
--- a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
+++ b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
@@ -319,7 +319,7 @@ class GRURNNModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in, hidden_features_in=None):
         """Forward propagation.
diff --git a/src/hookeai/simulators/fetorch/element/type/interface.py b/src/hookeai/simulators/fetorch/element/type/interface.py
index fe2905d..09252ef 100644
--- a/src/hookeai/simulators/fetorch/element/type/interface.py
+++ b/src/hookeai/simulators/fetorch/element/type/interface.py
@@ -251,7 +251,7 @@ class ElementType(ABC):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def check_shape_functions_properties(self):
         """Check if element shape functions satisfy known properties."""
diff --git a/src/hookeai/simulators/fetorch/material/models/interface.py b/src/hookeai/simulators/fetorch/material/models/interface.py
index 211945d..00ae410 100644
--- a/src/hookeai/simulators/fetorch/material/models/interface.py
+++ b/src/hookeai/simulators/fetorch/material/models/interface.py
@@ -184,4 +184,4 @@ class ConstitutiveModel(ABC):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
\ No newline at end of file
+        return self._device_type, self._device
\ No newline at end of file
-- 
2.43.0


From 81fefc50dd94773e6d823a3a7135878d6ccb106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:32 +0000
Subject: [PATCH 11/57] fix: setting fitted data scalers calls a missing method
 and mangles the min-max scaler arguments

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From 18ae92e3c13e190991f2d3242e28ef93a0059520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 12/57] fix: hybrid model forward calls a data scaling method
 that hybridized models do not have

---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f354128..621ce8a 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From a8c454155d1031ed25f9dca1c88babd32de4cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 13/57] fix: GRU material initialisation of a structure calls a
 missing data scaling method

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..7740685 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -24,6 +24,8 @@ from simulators.fetorch.material.models.standard.drucker_prager import \
 from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
 from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 from model_architectures.hybrid_base_model.model.hybrid_model import \
     HybridModel
 #
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From c0b9f2b19cab890a89fcc43410f77dda19f46df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 14/57] fix: data scalers of hybridized GRU models are refused

---
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
-- 
2.43.0


From 8561dd7c7c473da8f036eb9b98224350a4e988e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 15/57] fix: volumetric-deviatoric composition overwrites its
 input

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 418a3ed..6d53e26 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From 8e0d15b67953c617331f8ee120f52b5ba2a82117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 16/57] fix: batched elastic model ignores the requested
 elastic symmetry

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 6d53e26..973e528 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 124e0a0..df0c4d1 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From 7e27df5e43a0bb0cfa1a819aeab5e9b54d71fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 17/57] fix: moving a stored data set passes an unknown
 argument to the directory update

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..d989452 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -829,8 +829,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From 716d609bc6fe70d16139c891a1b7ac8929530942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 18/57] fix: summing data set features without weights raises
 instead of using unit weights

---
 src/hookeai/time_series_data/time_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index d989452..fbd939c 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -394,7 +394,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if (features_weights is not None
+                and feature_label in features_weights.keys()):
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From 59abfb0ad57378b7103967b3b2b3fc75dcaf5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 19/57] fix: relabelling features of an in-memory data set
 assigns to items it does not support

---
 src/hookeai/time_series_data/time_dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index fbd939c..9037589 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -232,8 +232,6 @@ def change_dataset_features_labels(dataset, features_label_map):
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From f66ae23580fb512f3b816017199d196070b9da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:39 +0000
Subject: [PATCH 20/57] fix: seeded training and prediction hand the data
 loader an unknown argument

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..0d8c637 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..e5efff6 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..09fc5fd 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..fa3f833 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..ea4812c 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..bf46cd9 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From d89712f024f0c1d9f85df05ca1361208b7d3140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:39 +0000
Subject: [PATCH 21/57] fix: failing to load a model state deletes the
 posterior state files

---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..38dfc58 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +257,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
-- 
2.43.0


From 7fba4d3fee39115f86d10e9985f7606bfc45765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:39 +0000
Subject: [PATCH 22/57] fix: best model state stored without training epoch
 cannot be recognised

---
 .../model_architectures/procedures/model_state_files.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index 38dfc58..4f6f8df 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -320,11 +320,11 @@ def check_best_state_file(model, filename):
     """
     # Check if file is model epoch best state file
     is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
+                                        + r'(-[0-9]+)?' + r'-best' + r'\.pt',
                                         filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and filename != model.model_name + '-best.pt':
         # Get model state epoch
         epoch = int(os.path.splitext(filename)[0].split('-')[-2])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 3bb8affec4c18f119b5f4afcc091bc6e8d3b23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:43 +0000
Subject: [PATCH 23/57] fix: initialization file of recurrent constitutive
 model drops two options

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index ca695a2..ff71dc8 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1666,6 +1666,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
             self._material_model_parameters
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
+        model_init_args['is_auto_sync_parameters'] = \
+            self._is_auto_sync_parameters
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['state_features_out'] = self._state_features_out
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
-- 
2.43.0


From c9d3c23b667eff35f362b9a4921aaa96538e9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:43 +0000
Subject: [PATCH 24/57] fix: early stopping validation saves the training state
 without its type

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index e5efff6..691b695 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index fa3f833..5427d52 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From 8d6f97b4d5a7c8cffd0c1e868a180ad303425f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:56 +0000
Subject: [PATCH 25/57] fix: parameters convergence check cancels a triggered
 early stopping

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 5427d52..9bccf14 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From a54fb8d0e74b592654ce7911b7b9f04c028b4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:56 +0000
Subject: [PATCH 26/57] fix: training that ends in its first epoch divides by
 zero

---
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 691b695..619d863 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/len(loss_history_epochs)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 9bccf14..64c749c 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/len(loss_history_epochs)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index bf46cd9..baf2a08 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/len(loss_history_epochs)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From a9745bf5fcefe7a15cd78066415e4dc9ec209ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 27/57] fix: cross-validation reads the model before it exists

---
 .../rnn_base_model/train/cross_validation.py             | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..d0b803b 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -127,7 +127,7 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
+    start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -153,10 +153,6 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_training_losses = []
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
-    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -194,6 +190,9 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
             is_early_stopping=is_early_stopping,
             early_stopping_kwargs=early_stopping_kwargs,
             device_type=device_type, seed=None, is_verbose=False)
+        # Get model input and output features normalization
+        is_model_in_normalized = model.is_model_in_normalized
+        is_model_out_normalized = model.is_model_out_normalized
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with recurrent neural network model
         _, avg_valid_loss_sample = predict(
-- 
2.43.0


From 4d8bef3d12db7b901b5bd3ee05bc4567b768e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 28/57] fix: model discovery that ends in its first epoch
 divides by zero

---
 src/hookeai/material_model_finder/train/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..2916224 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/len(loss_history_epochs)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 045e2000dc6526e0d1be037902598c0871a30bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 29/57] fix: mean relative error loss has undefined gradient
 for null targets

---
 src/hookeai/utilities/loss_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..719b5df 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,12 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
+            # Set unit denominator (absolute error) for target values below
+            # minimum threshold
+            denominator = torch.where(target.abs() < small,
+                                      torch.ones_like(target), target.abs())
             # Compute relative error
-            relative_error = absolute_error/target.abs()
-            # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            relative_error = absolute_error/denominator
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From 801b0a1dec7e90aa82033853ef9190fd6c311c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:40 +0000
Subject: [PATCH 30/57] fix: vectorized recurrent model fails for strain state
 features

The strain-like state variables were stored as one-dimensional tensors while
all other features of the time step are two-dimensional, so that collecting
them raised an error.
---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index ff71dc8..697b6b8 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 8a6c66d8319f5419c339126c9d707e9f4b247a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:34 +0000
Subject: [PATCH 31/57] fix: prediction without ground-truth fails

The output features ground-truth is documented to be None when it is not
available in the data set, but it was read unconditionally from the batch.
---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 0d8c637..daf5f35 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 09fc5fd..90c1b02 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index ea4812c..0bc6b55 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From ac28e44c0af75a8f157ba7711080a1073075546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 32/57] fix: denoise features in the precision of the features
 tensor

---
 src/hookeai/utilities/data_denoisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..7317247 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size,
+                            dtype=tensor.dtype)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,8 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(
+            coeffs, dtype=tensor.dtype).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 9d6c0bdc7117002cd672d4d56b9075c3a32f133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 33/57] fix: skip processes whose label is not a training data
 set size

---
 src/hookeai/utilities/output_prediction_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..f76fa35 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -479,7 +479,7 @@ def plot_prediction_metrics_convergence(
         # Check if process label is training data set size
         training_size = re.search(r'^n([0-9]+)$', process_label)
         # Store prediction process training data set size
-        if id is not None:
+        if training_size is not None:
             # Get training data set size
             training_size = int(training_size.groups()[0])
             # Store training data set size
-- 
2.43.0


From f2ff95471764698bdb3d5a7c25c5113a2afffd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 34/57] fix: report number of expected symmetric strain
 components

---
 src/hookeai/data_generation/strain_paths/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..b9d5da1 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -137,7 +137,7 @@ class StrainPathGenerator(ABC):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check strain components completeness
         if is_symmetric and len(strain_comp_order) != 0.5*n_dim*(n_dim + 1):
-            raise RuntimeError(f'Expecting {0.5*n_dim(n_dim + 1)} independent '
+            raise RuntimeError(f'Expecting {n_dim*(n_dim + 1)//2} independent '
                                f'strain components under symmetry, but '
                                f'{len(strain_comp_order)} were provided.')
         elif not is_symmetric and len(strain_comp_order) != n_dim**2:
-- 
2.43.0


From 4ebb3bf680082e40a9247aff47eafc3954bce248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 35/57] fix: enforce both strain bounds in strict bound scaling

---
 .../strain_paths/random_path.py               | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..beca177 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,14 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Compute linear scale factor (enforce both bounds)
+                    scale_factor = 1.0
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
+                        scale_factor = min(scale_factor,
+                                           np.abs(lbound/min_strain))
                     if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                        scale_factor = min(scale_factor,
+                                           np.abs(ubound/max_strain))
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From e2db5977485b129815ac9182a5091a07ac99611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 36/57] fix: hydrostatic and deviatoric stress features missed
 the factor 1/3

---
 .../model_architectures/materials/stress_features.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..fea94a3 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = (1.0/3.0)*torch.trace(stress)
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,9 +161,10 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = (1.0/3.0)*torch.trace(stress)
         # Compute deviatoric stress
-        dev_stress = stress - vol_stress*torch.eye(n_dim)
+        dev_stress = stress - vol_stress*torch.eye(
+            n_dim, dtype=stress.dtype, device=stress.device)
         # Store deviatoric stress components
         stress_feature = store_stress_comps(stress_comps_order, dev_stress)
     else:
-- 
2.43.0


From adccdddd574e2f7e012aba72eae3d50599f76cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 37/57] fix: plotted equivalent strain and stress subtracted
 the mean from every component

---
 .../user_scripts/synthetic_data/gen_response_dataset.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..4365f37 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1092,9 +1092,9 @@ class MaterialResponseDatasetGenerator():
                 # Compute equivalent strain and stress
                 if strain_formulation == 'infinitesimal':
                     eq_strain[i, 0] = np.sqrt(2.0/3.0)*np.linalg.norm(
-                        strain - (1.0/3.0)*np.trace(strain))
+                        strain - (1.0/3.0)*np.trace(strain)*np.eye(n_dim))
                     eq_stress[i, 0] = np.sqrt(3.0/2.0)*np.linalg.norm(
-                        stress - (1.0/3.0)*np.trace(stress))
+                        stress - (1.0/3.0)*np.trace(stress)*np.eye(n_dim))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store equivalent strain and stress path
             eq_strain_paths.append(eq_strain)
-- 
2.43.0


From dfb95b1630d4418a89ce3c2cfcfaaf9b8c3c57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 38/57] fix: stored data set could not be generated from csv
 files (undefined dataset_basename)

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4365f37..83a2558 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -577,7 +577,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
-- 
2.43.0


From aff904b410fb26191e2772c7c26728c01c15938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 39/57] fix: heteroscedastic noise used script globals and
 normalized every path by the first one

---
 .../synthetic_data/gen_noisy_response_dataset.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..fffb736 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -402,16 +402,18 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order, is_symmetric=(
+                                self._strain_formulation == 'infinitesimal'))
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 0968244f6c9d9519992b303faaede4be2c24ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 40/57] fix: initial strain of denoised paths was set to its
 normalized value

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index fffb736..ec6370e 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -453,7 +453,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From 2e24f3382de22ab14f7c1891160e6183f556a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 41/57] fix: noisy response path failed for state variables the
 model does not have

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ec6370e..ddc3bf4 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -609,7 +609,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From 3cd4a86886909ff7dbc66aa9ebec59c56b205f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 42/57] fix: noisy data set generator imported a module that is
 not on its path

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ddc3bf4..ae183ea 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 8294c40025940e25f4e34e2c71544abdacdac624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 43/57] fix: vectorized 2D state reduction did not raise its
 error

---
 src/hookeai/simulators/fetorch/math/matrixops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..96b7699 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -828,8 +828,8 @@ def vget_state_2Dmf_from_3Dmf(mf_3d, device=None):
         index_map = list(zip(*it.product(index_map, repeat=2)))
         mf_2d = mf_3d[index_map].view(len(comp_order_2d), len(comp_order_2d))
     else:
-        RuntimeError('The 3D matricial form must correspond to 1d or 2d '
-                     'torch.Tensor (second- or fourth-order strain/stress '
-                     'tensor).')
+        raise RuntimeError('The 3D matricial form must correspond to 1d or '
+                           '2d torch.Tensor (second- or fourth-order '
+                           'strain/stress tensor).')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return mf_2d
\ No newline at end of file
-- 
2.43.0


From ff95f951748423c6841bc8252c88f0a33ea1bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 44/57] fix: Dirichlet sets generation called with an unknown
 parameter

---
 src/hookeai/simulators/links/utilities/links_data_to_adimu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 355de00..bf29788 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -817,7 +817,7 @@ if __name__ == '__main__':
                 generate_pointwise_sets(n_node_mesh, dirichlet_bcs)
         elif force_equilibrium_loss_type == 'dirichlet_sets':
             # Build Dirichlet boundary conditions sets
-            dirichlet_bcs_mesh = generate_dirichlet_sets(n_node_mesh, n_dim=3)
+            dirichlet_bcs_mesh = generate_dirichlet_sets(n_node_mesh)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update ADiMU mesh history data files Dirichlet boundary conditions
         update_adimu_mesh_hist_data_files_dirichlet(specimen_history_paths,
-- 
2.43.0


From 19676e7d9476d80636943ec6148ea30e871728c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 45/57] fix: material model prediction script imported a module
 that does not exist

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From fd0ac3ea5207042624b583aa422fdfefe5381edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 46/57] fix: default ratios of random strain paths leaked
 between calls

---
 .../user_scripts/complete_pipelines/local_model_update.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..5293c7a 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -148,6 +148,7 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
                                   strain_path_type='proportional')
     # Set default ratio of random strain path samples for each data set type
     # (remaining samples will be proportional strain path samples)
+    rnd_strain_path_ratio = dict(rnd_strain_path_ratio)
     for dataset_type in n_sample_type.keys():
         # All samples are random strain path samples by default
         if dataset_type not in rnd_strain_path_ratio.keys():
-- 
2.43.0


From 7ccd533d91de9ae29feec7f65f41d1b0d2b410af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:44 +0000
Subject: [PATCH 47/57] fix: k-fold cross-validation default loss nature was
 not available

---
 .../rnn_base_model/train/cross_validation.py             | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index d0b803b..f62aaad 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -35,7 +35,7 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
                            dataset, model_init_args, lr_init,
                            opt_algorithm='adam', lr_scheduler_type='steplr',
                            lr_scheduler_kwargs={},
-                           loss_nature='node_features_out',
+                           loss_nature='features_out',
                            loss_type='mse', loss_kwargs={}, batch_size=1,
                            is_sampler_shuffle=False,
                            is_early_stopping=False, early_stopping_kwargs={},
@@ -84,13 +84,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
 
     lr_scheduler_kwargs : dict, default={}
         Arguments of torch.optim.lr_scheduler.LRScheduler initializer.
-    loss_nature : {'node_features_out', 'global_features_out'}, \
-                  default='node_features_out'
+    loss_nature : {'features_out',}, default='features_out'
         Loss nature:
         
-        'node_features_out' : Based on node output features
-
-        'global_features_out' : Based on global output features
+        'features_out' : Based on output features
 
     loss_type : {'mse',}, default='mse'
         Loss function type:
-- 
2.43.0


From 363f3e11d573973d3f1a2a490525e3d3cd73a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:54 +0000
Subject: [PATCH 48/57] fix: patch generation without rigid body motion

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From b41cd7e74c84d323df13f4d10fb5fc28a4446d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:54 +0000
Subject: [PATCH 49/57] fix: fixed corner joined by a zero order edge is not
 displaced

---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..f568824 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,7 +947,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From c32dc81c26d85df1db0fb84f5bed51547508da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:54 +0000
Subject: [PATCH 50/57] fix: weights of face displacement interpolation

---
 src/hookeai/data_generation/spdg/patch_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index f568824..9d09c0f 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,15 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From b9bfde39b693494b0e6ad6db8020678370548440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 51/57] fix: separate prescribed displacements in Links
 Dirichlet file

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..4642334 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From 99c431e65dedf1666f4e4f6a42d800adc4a76c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 52/57] fix: include negative prescribed displacements in
 reaction group

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 4642334..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From 4955c2a7a518d4c32af5486a527fde1afcda76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:52 +0000
Subject: [PATCH 53/57] fix: specimen dataset generation when output is not
 saved

---
 .../material_finder/gen_specimen_data.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..eb2fa21 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -98,11 +98,12 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         
     Returns
     -------
-    specimen_data_path : str
+    specimen_data_path : {str, None}
         Path of file containing the specimen numerical data translated from
-        experimental results.
-    specimen_material_state_path : str
-        Path of file containing the FETorch specimen material state.
+        experimental results (None if not saved).
+    specimen_material_state_path : {str, None}
+        Path of file containing the FETorch specimen material state (None if
+        not saved).
     """
     # Initialize specimen numerical data
     specimen_data = SpecimenNumericalData()
@@ -134,6 +135,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize specimen data and material state file paths
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From a901e51b81d360afc8856c47998be80dc425253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:13 +0000
Subject: [PATCH 54/57] fix: refuse loss time weights that are not a tensor
 instead of silently ignoring them

---
 src/hookeai/material_model_finder/model/material_discovery.py  | 3 +++
 .../material_finder/gen_specimen_local_paths.py                | 3 ++-
 .../global_model_update/material_finder/train_model.py         | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 98e8f5e..0ef5eab 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -516,6 +516,9 @@ class MaterialModelFinder(torch.nn.Module):
                                    f'{loss_time_weights.shape[0]}).')
             # Set loss time weights
             self._loss_time_weights = loss_time_weights
+        elif loss_time_weights is not None:
+            raise RuntimeError('Loss time weights must be provided as '
+                               'torch.Tensor(1d) of shape (n_time).')
         else:
             # Get number of time steps
             n_time = len(self._specimen_data.time_hist)
diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..421d7a1 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -128,7 +128,8 @@ def gen_specimen_local_dataset(specimen_data_path,
     is_loss_time_weights = False
     # Set loss time weights
     if is_loss_time_weights:
-        loss_time_weights = 201*[0.005,]
+        loss_time_weights = torch.full((201,), 0.005,
+                                       device=device_type)
     else:
         loss_time_weights = None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py b/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
index e57b365..a358963 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
@@ -125,7 +125,8 @@ def perform_model_standard_training(specimen_data_path,
     is_loss_time_weights = True
     # Set loss time weights
     if is_loss_time_weights:
-        loss_time_weights = 201*[0.005,]
+        loss_time_weights = torch.full((201,), 0.005,
+                                       device=device_type)
     else:
         loss_time_weights = None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 3301b86046729b3bf33280e88b02adba25e7c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:13 +0000
Subject: [PATCH 55/57] fix: save pruning step testing data set in its own
 directory

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..47b269f 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From c4ed69eb5b39fa87cd4731cd02375b899527a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:13 +0000
Subject: [PATCH 56/57] fix: compare pruning testing data set size with its own
 minimum

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 47b269f..b4c7e44 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -709,8 +709,8 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
     if n_dev <= n_dev_min:
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
-        step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+        step_status = 'Minimum development data set size ratio reached.'
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From dc2ec9f77abc684f08d2ad0af50ec77eb9871803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:34 +0000
Subject: [PATCH 57/57] fix: check the given target directory when setting the
 dependencies directory of local model updating

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 5293c7a..9c03f39 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -680,7 +680,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0

