From 0a44506d277811bd7a8adaeeb89997c57779f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 01/47] fix: use_backend restores the backend in force at
 entry, not at construction

---
 lumos/numpy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..560f544 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,17 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
         self._target_backend = backend
+        # Stack of the backends to restore, so that one instance (eg. a decorated
+        # function) can be entered more than once.
+        self._original_backends = []
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From a7544e147809d6050d5ff8391321ac595ee720de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 02/47] fix: log the mesh from the unscaled decision variables

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..d7fb1f2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -989,7 +989,7 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self.get_mesh_from_dec_var(unscaled_dec_var)
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 16931984bbcbc0fe77fc9a01fe83b54a6dddc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 03/47] fix: ModelSolver hessian looked up a non-existent
 implicit function

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From 9c996a00ee806fd8f667f0c4eca49337cbeaf483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 04/47] fix: Model.apply_and_forward_with_arrays called a
 non-existent method

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..77694c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From 07614db988bf3480df203b0c4dbde4c184a39a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 05/47] fix: np.int was removed from numpy, condensed hessian
 structure crashed

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index d7fb1f2..4aaff44 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From 3321e2c0dd45b6319a58bc34672256c804029084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 06/47] fix: do not modify the caller's config when building a
 condensed problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4aaff44..5482454 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,17 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = sim_config.bounds
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            bounds = tuple(bounds) + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From 2c5666a2ed1643222916436edc44140ace402067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 07/47] fix: LTCConfig must not append to the list passed in by
 the caller

---
 lumos/simulations/laptime_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..d9ecd75 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -133,7 +133,7 @@ class LTCConfig(SimConfig):
                 logger.warning(
                     f"{name} must be non-cyclic, automatically adding it to the list."
                 )
-                self.non_cyclic_vars.append(name)
+                self.non_cyclic_vars = [*self.non_cyclic_vars, name]
 
 
 class LaptimeSimulation(FixedMeshOCP):
-- 
2.43.0


From 5696e070999df276478bac64989dedf5fcd653bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 08/47] fix: restore logging_config when a SimConfig is rebuilt
 from a dictionary

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From fcdfce504e37c568d5433fdb811e8f998fa937ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 09/47] fix: parameter updates reach the constraints stored by
 a condensed problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 5482454..ea9117d 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -163,7 +163,9 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        # A condensed problem keeps the parameterized constraints in its storage.
+        constraints = self._con_storage if self.is_condensed else self._constraints
+        constraints["model_algebra"].set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From 1989ba6c8f7baa506bf2e4d4276d332ae2b246ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 10/47] fix: a new normalized mesh reaches the model
 constraints of an existing problem

---
 lumos/optimal_control/convolution.py     | 14 +++++---------
 lumos/optimal_control/scaled_mesh_ocp.py |  3 +--
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..81021e9 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -16,8 +16,7 @@ class ConvConstraints(MappedConstraints):
         self,
         unit_problem: MappedConstraints,
         dec_var_op: DecVarOperator,
-        normalized_mesh: np.ndarray,
-        mesh_scale_fn: Callable,
+        mesh_fn: Callable,
         params: Dict[str, Any],
     ):
         """An NLP problem formulated by convoluting some unit problems over the decision variable.
@@ -30,10 +29,8 @@ class ConvConstraints(MappedConstraints):
 
         Args:
             unit_problem (UnitProblem): The unit_problem that acts as a convolution kernel
-            normalized mesh: the normalized mesh [0, 1] that is needed for the unit
-            problem, with lead dimension = batch.
-            mesh_scale_fn: a function that takes the decision variable and returns the
-            mesh scale.
+            mesh_fn: a function that takes the decision variable and returns the current
+            mesh that is needed for the unit problem, with lead dimension = batch.
 
         FIXME: Currently for non-fixed grid problems, the derivative w.r.t. mesh is not
         taken into account! This means that it only works for 'time-invariant' ODE/DAE
@@ -45,8 +42,7 @@ class ConvConstraints(MappedConstraints):
         """
 
         self._unit_problem = unit_problem
-        self._normalized_mesh = normalized_mesh
-        self._mesh_scale_fn = mesh_scale_fn
+        self._mesh_fn = mesh_fn
         self._op = dec_var_op
         self._batch = dec_var_op.num_stages
         self._stride = dec_var_op.num_var_stage
@@ -117,7 +113,7 @@ class ConvConstraints(MappedConstraints):
         return batch_conv1d(stage_vars, width=self._width, stride=self._stride,)
 
     def _get_mesh(self, x):
-        return self._normalized_mesh * self._mesh_scale_fn(x)
+        return self._mesh_fn(x)
 
     def _build_jac_and_hess_struct(self, unit_problem):
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index ea9117d..40e9f1d 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1291,8 +1291,7 @@ class ScaledMeshOCP(CompositeProblem):
         stage_cons = ConvConstraints(
             unit_problem=self.model.model_algebra,
             dec_var_op=self.dec_var_operator,
-            normalized_mesh=self._flat_normalized_mesh,
-            mesh_scale_fn=self._get_mesh_scale,
+            mesh_fn=self.get_mesh_from_dec_var,
             params=self._params,
         )
 
-- 
2.43.0


From d5beb0c71c35a9ae8e2d3aaa94b3d5cb1f977c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 11/47] fix: adding or deleting constraints and objectives
 invalidates the hessian mask

---
 lumos/optimal_control/nlp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..7cfb4c1 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,9 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
+        self._idx_triu = None
 
 
     def _compute_objective(self, x):
-- 
2.43.0


From db5635e53bd63b1866aa589127e68fe6408a2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 12/47] fix: reject objectives whose number of inputs does not
 match the problem

---
 lumos/optimal_control/nlp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 7cfb4c1..1637c32 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -740,6 +740,12 @@ class CompositeProblem(NLPFunction):
                 f"Currently used names are {self._objectives.keys()}",
             )
 
+        if not (o.num_in == self.num_dec):
+            raise ValueError(
+                f"Mismatch number of inputs: expected {self.num_dec} but "
+                f"got an objective {name} with {o.num_in}"
+            )
+
         # Update the decision variable scale for the objective, using the current nlp's
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
-- 
2.43.0


From a5a57e0db615575a4e38ba332b4324446b32a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 13/47] fix: hsllib was unbound on platforms other than Linux
 and Darwin

---
 lumos/optimal_control/nlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 1637c32..ddd4fad 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -566,11 +566,11 @@ class NLPFunction(ABC):
             hsllib = "hsl/libcoinhsl.dylib"
         elif platform.system() == "Linux":
             hsllib = "hsl/libcoinhsl.so"
-        elif platform.system() == "Widows":
+        elif platform.system() == "Windows":
             hsllib = "hsl/libcoinhsl.dll"
         else:
             # what can it be?
-            pass
+            hsllib = ""
 
         if exists(hsllib):
             hsl_args = {"hsllib": hsllib, "linear_solver": "ma27"}
-- 
2.43.0


From c5c1c34c05188ce6a824cc9ddfd8ee57114c6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 14/47] fix: start a new metrics history for every solve

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 40e9f1d..17bf7b6 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -193,6 +193,8 @@ class ScaledMeshOCP(CompositeProblem):
 
     def solve(self, *args, **kwargs):
         """Overwrite to add the logging of last iteration"""
+        self._metrics_history_list = []
+        self._num_iter = None
         x0 = self.get_init_guess()
         # If jax backend, do one call to invoke jit first
         if self.backend == "jax":
-- 
2.43.0


From 1ff59ca75f473820655e256c63e67348e918b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 15/47] fix: scales must be positive

---
 lumos/optimal_control/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 4bab520..7446801 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -43,15 +43,15 @@ class BoundConfig:
 
 @dataclass
 class ScaleConfig:
-    """Config for the scale on variables
-    
-    TODO: check all values are postiive!
-    """
+    """Config for the scale on variables, which must be positive."""
 
     group: str
     name: str
     value: float
 
+    def __post_init__(self):
+        assert self.value > 0, f"scale of {self.group}:{self.name} must be positive!"
+
 
 @dataclass
 class BoundaryConditionConfig:
-- 
2.43.0


From b68573bb07d532717fb3c7ef3d7b407261dc89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 16/47] fix: ConstAero must not hand out its own parameter
 dictionary as outputs

---
 lumos/models/aero/aero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..ee05482 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,7 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        return ModelReturn(outputs=dict(self._params))
 
 
 class GPAero(AeroModel):
-- 
2.43.0


From 92a02573cfa87663d8a797aeee7403bbd51928be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 17/47] fix: honour custom path delimiters in nested parameter
 paths

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..ee9a235 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 740ffe87f82741dd459a3b420d59e55718fb9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 18/47] fix: flatten and unflatten casadi matrices in the same
 order as numpy arrays

---
 lumos/models/tree_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index ee9a235..89386e5 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,20 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column major: transpose to flatten in row-major order, like numpy.
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        # casadi is column major: fill in row-major order, like numpy.
+        return x.reshape((shape[1], shape[0])).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +316,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From d3f8a72073fa7555cda795e392c05de59d353e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 19/47] fix: keep the shape of arrays with one or no element
 when unravelling parameters

---
 lumos/models/tree_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 89386e5..e30ffe2 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -316,7 +316,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if shape else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 4d3754d16e7fd861455fcd5fb4c95b3975335a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 20/47] fix: infinity norm of casadi arrays

---
 lumos/numpy/casadi_numpy/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..5ec9b98 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -83,8 +83,8 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif _onp.isinf(ord):
+            return _cas.norm_inf(x)
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From eff409b3fc1e9c6217b28f0d944759a75a681195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 21/47] fix: n-th difference of casadi arrays

---
 lumos/numpy/casadi_numpy/calculus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..8f2ed69 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -20,7 +20,7 @@ def diff(a, n=1, axis=-1):
 
         result = a
         for i in range(n):
-            result = _cas.diff(a)
+            result = _cas.diff(result)
         return result
 
 
-- 
2.43.0


From 2b9d9427b71657225aced6f0f0fe671df2ea8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 22/47] fix: mean over all elements of casadi matrices

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..42371b0 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / x.numel()
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 4e8902f4aa87b4eaa13a59ffdb995ead6eade62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 23/47] fix: geometric spacing of casadi values

---
 lumos/numpy/casadi_numpy/spacing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..b05ac2c 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -58,4 +58,4 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     else:
         if start <= 0 or stop <= 0:
             raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From d8a20dfa96b721497403f3013080787c643b11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 24/47] fix: raise NotImplementedError for periodic
 interpolation

---
 lumos/numpy/casadi_numpy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/interpolate.py b/lumos/numpy/casadi_numpy/interpolate.py
index 4dc9b87..a9470d7 100644
--- a/lumos/numpy/casadi_numpy/interpolate.py
+++ b/lumos/numpy/casadi_numpy/interpolate.py
@@ -9,7 +9,7 @@ def interp(x, xp, fp, left=None, right=None, period=None):
     see: https://jax.readthedocs.io/en/latest/_autosummary/jax.numpy.interp.html
     """
     if period is not None:
-        raise NotImplemented("Handling of period are not implemented yet")
+        raise NotImplementedError("Handling of period are not implemented yet")
     # Casadi supports 'bspline' and 'linear'
     lut = cas.interpolant("LUT", "linear", [xp], fp)
     f = lut(x)
-- 
2.43.0


From 61f125b06acb5e0b56d6e3e72b11d0d18a9a1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 25/47] fix: raise NotImplementedError for unknown collocation
 schemes

---
 lumos/optimal_control/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/collocation.py b/lumos/optimal_control/collocation.py
index 7df9e00..5f143d9 100644
--- a/lumos/optimal_control/collocation.py
+++ b/lumos/optimal_control/collocation.py
@@ -61,7 +61,7 @@ def get_collocation_points(
             np.insert(characteristic_polynomial.roots(), 0, -1), 1
         )
     else:
-        raise NotImplemented(scheme)
+        raise NotImplementedError(scheme)
     return collocation_points
 
 
-- 
2.43.0


From 4137a42ae1ccb598f9212b9e760cb6bd2613e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 26/47] fix: raise the errors of finite_difference_coefficients
 instead of returning them

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From 82148916fbcdd65ba751be177bc1249387882a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 27/47] fix: evaluating a model with given parameters must not
 replace its own parameters

---
 lumos/models/base.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 77694c3..fc020ab 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from contextlib import contextmanager
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -145,13 +146,26 @@ class Model(CompositeModel):
         """
         pass
 
+    @contextmanager
+    def _temporary_params(self, params: ParameterTree):
+        """Use the given params for an evaluation, and restore the original ones after.
+
+        Otherwise the symbols or tracers used by the backends would leak into the model.
+        """
+        original_params = self.get_recursive_params()
+        try:
+            self.set_recursive_params(params)
+            yield
+        finally:
+            self.set_recursive_params(original_params)
+
     def apply_and_forward(self, inputs, params):
-        self.set_recursive_params(params)
-        return self.forward(inputs)
+        with self._temporary_params(params):
+            return self.forward(inputs)
 
     def apply_and_forward_with_arrays(self, inputs, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(inputs)
+        with self._temporary_params(params):
+            return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
@@ -437,12 +451,12 @@ class StateSpaceModel(Model):
         pass
 
     def apply_and_forward(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward(states, inputs, mesh)
+        with self._temporary_params(params):
+            return self.forward(states, inputs, mesh)
 
     def apply_and_forward_with_arrays(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(states, inputs, mesh)
+        with self._temporary_params(params):
+            return self.forward_with_arrays(states, inputs, mesh)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin.
@@ -583,7 +597,6 @@ class StateSpaceModel(Model):
     def _apply_and_flat_implicit(
         self, flat_vars: lnp.ndarray, mesh: float, params,
     ) -> lnp.ndarray:
-        self.set_recursive_params(params)
         # TODO: split to dict of arrays -> call in implicit with forward_with_arrays
         # -> convert to dict again, call with dict, can we simplify?
         #
@@ -592,7 +605,8 @@ class StateSpaceModel(Model):
         # as arrays!
         dict_vars = self._split_flat_vars(flat_vars)
 
-        return self.implicit(**dict_vars, mesh=mesh)
+        with self._temporary_params(params):
+            return self.implicit(**dict_vars, mesh=mesh)
 
     def _implicit_jac(self, flat_vars, mesh, params):
         raise NotImplementedError(
@@ -769,8 +783,8 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            with self._temporary_params(_params):
+                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From bc79ae11aa974ab636558957bdf79e82fa6d141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 28/47] fix: do not reuse the library of a failed or
 interrupted compilation

---
 lumos/models/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index fc020ab..f5d6ed7 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -1,5 +1,6 @@
 import hashlib
 import logging
+import os
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
@@ -857,9 +858,11 @@ class StateSpaceModel(Model):
             logger.info(f"{library_path} already exists, no compliation is needed.")
         else:
             logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            # Only a complete library may end up at the path that is reused.
+            tmp_path = library_path + f".{os.getpid()}.tmp"
+            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", tmp_path]
+            subprocess.run(cmd, check=True)
+            os.replace(tmp_path, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0


From feeb5503a3c29c63be4f91656282daf9d06286bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 29/47] fix: left and right distance of ConstCurvTrack

---
 lumos/models/tracks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumos/models/tracks.py b/lumos/models/tracks.py
index f0ad0ac..eff1d23 100644
--- a/lumos/models/tracks.py
+++ b/lumos/models/tracks.py
@@ -199,3 +199,9 @@ class ConstCurvTrack(Track):
     def half_width_at(self, s: float) -> float:
         """Constant halfwidth for now"""
         return self._half_wdith
+
+    def left_distance_at(self, s: float) -> float:
+        return self.half_width_at(s)
+
+    def right_distance_at(self, s: float) -> float:
+        return self.half_width_at(s)
-- 
2.43.0


From 6917a9043e28c04224ca3d3d8b326bcb4b1b12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 30/47] fix: the structure of the condensed jacobian must not
 depend on a random point

---
 lumos/optimal_control/scaled_mesh_ocp.py | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 17bf7b6..4dadaf2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -333,25 +333,25 @@ class ScaledMeshOCP(CompositeProblem):
 
     def _condensed_jacobianstructure(self):
         """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
+        # Use jacobians without explicit zeros: values that happen to be zero at some
+        # point (eg: a derivative of a piecewise function) are not structural zeros.
+        def _make_structure_jac(con):
+            rows, cols = con.jacobianstructure()
+            rows, cols = np.ravel(rows), np.ravel(cols)
+            return sparse.csc_matrix((np.ones(len(rows)), (rows, cols)), con.jac_shape)
+
+        algebraic_jac = _make_structure_jac(self._con_storage["model_algebra"])
+        continuity_jac = _make_structure_jac(self._con_storage["continuity"])
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
             continuity_jac, algebraic_jac
         )
 
-        return structure_jac.nonzero()
+        # The condensed constraints do not depend on the states_dot variables
+        rows, cols = structure_jac.nonzero()
+        idx_states_dot = self.dec_var_operator.get_group_indcies_in_dec("states_dot")
+        keep = ~np.isin(cols, idx_states_dot)
+        return rows[keep], cols[keep]
 
     def _condensed_hessian(self, x, lagrange):
         """Compute the condensed hessian values.
-- 
2.43.0


From 218afe1c45b7d7a14e18116493dfd87ab0d3876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 31/47] fix: give a problem without objectives its constant
 objective before the jit warm-up

---
 lumos/optimal_control/nlp.py             | 19 +++++++++++--------
 lumos/optimal_control/scaled_mesh_ocp.py |  1 +
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index ddd4fad..42c146a 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -578,14 +578,7 @@ class NLPFunction(ABC):
 
         return default_options
 
-    def solve(
-        self,
-        init_guess: Optional[lnp.ndarray] = None,
-        lagrange=[],
-        zl=[],
-        zu=[],
-        **user_options,
-    ):
+    def _ensure_objective(self):
         # If the problem has no objectives defined (feasibility solve), define a
         # constatn objective
         if not self._objectives:
@@ -598,6 +591,16 @@ class NLPFunction(ABC):
             )
             self.add_objective("const_obj", const_obj)
 
+    def solve(
+        self,
+        init_guess: Optional[lnp.ndarray] = None,
+        lagrange=[],
+        zl=[],
+        zu=[],
+        **user_options,
+    ):
+        self._ensure_objective()
+
         ipopt_options = self._get_default_ipopt_options()
         ipopt_options.update(user_options)
         nlp = self._construct_ipopt_problem(ipopt_options)
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4dadaf2..f10e358 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -195,6 +195,7 @@ class ScaledMeshOCP(CompositeProblem):
         """Overwrite to add the logging of last iteration"""
         self._metrics_history_list = []
         self._num_iter = None
+        self._ensure_objective()
         x0 = self.get_init_guess()
         # If jax backend, do one call to invoke jit first
         if self.backend == "jax":
-- 
2.43.0


From 88ac8b02ea58a054d14811403637d6b056b44055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 32/47] fix: keep the stacked hessian structure integer for a
 feasibility problem

---
 lumos/optimal_control/nlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 42c146a..00632db 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -586,8 +586,8 @@ class NLPFunction(ABC):
                 num_in=self.num_dec,
                 objective=lambda x: 0,
                 gradient=lambda x: np.zeros(self.num_dec),
-                hessian=lambda x: [],
-                hessian_structure=([], []),
+                hessian=lambda x: np.array([]),
+                hessian_structure=(np.array([], dtype=int), np.array([], dtype=int)),
             )
             self.add_objective("const_obj", const_obj)
 
-- 
2.43.0


From 06f06ca49baf18bba03df36637a9797ef32d219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 33/47] fix: keep the stacked hessian structure integer for
 objectives made from a variable

---
 lumos/optimal_control/model_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index cc96f55..b2a4385 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -246,13 +246,13 @@ class ModelSolver(CompositeProblem):
                 return grad
 
             def hessian(x):
-                return []
+                return np.array([])
 
             return {
                 "objective": obj,
                 "gradient": gradient,
                 "hessian": hessian,
-                "hessian_structure": ([], []),
+                "hessian_structure": (np.array([], dtype=int), np.array([], dtype=int)),
             }
 
         obj_name = f"{group}.{name}.weight={weight}"
-- 
2.43.0


From 20ca0fb71785123ba82f9d8c8d65553f1a964956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 34/47] fix: a new normalized mesh moves the track bounds of a
 lap simulation

---
 lumos/simulations/laptime_simulation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index d9ecd75..5030b7d 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -139,6 +139,9 @@ class LTCConfig(SimConfig):
 class LaptimeSimulation(FixedMeshOCP):
     ConfigClass: type = LTCConfig
 
+    # Only set after problem construction, see set_track
+    _track: RaceTrack = None
+
     def __init__(
         self,
         model_params: Dict[str, Any] = {},
@@ -164,6 +167,13 @@ class LaptimeSimulation(FixedMeshOCP):
     def distance_mesh(self):
         return self._flat_normalized_mesh * self._track.total_distance
 
+    def set_normalized_mesh(self, interval_points=None):
+        """Overwrite to move the track related bounds to the new mesh points."""
+        super().set_normalized_mesh(interval_points)
+        # The track is set after the mesh during problem construction.
+        if self._track is not None:
+            self._update_track_bounds()
+
     def set_track(self, track_file):
         """Set the track and update the variable bounds accordingly.
 
@@ -185,6 +195,10 @@ class LaptimeSimulation(FixedMeshOCP):
         self.set_mesh_scale(self._track.total_distance)
 
         # update variable bounds
+        self._update_track_bounds()
+
+    def _update_track_bounds(self):
+        """Update the variable bounds defined by the track at the mesh points."""
         curvature = self._track.curvature_at(self.distance_mesh)
         heading = self._track.heading_at(self.distance_mesh)
         left_distance = self._track.left_distance_at(self.distance_mesh)
-- 
2.43.0


From 8528f0e5da9b4142ea11106711901ef983b1a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 35/47] fix: lap time configurations must not share their
 default bounds, scales and boundary conditions

---
 lumos/simulations/laptime_simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 5030b7d..3d2a55a 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -110,12 +110,12 @@ class LTCConfig(SimConfig):
     # Overwrite the default factory to those specific to LTC
     # FIXME: default_factory only takes zero argument functions. So here we could end up
     # with a config that has is_cycli==False, but with the default for is_cyclic==True
-    boundary_conditions: Tuple[
-        BoundaryConditionConfig
-    ] = get_default_boundary_conditions()
-    bounds: Tuple[BoundConfig] = get_default_bounds()
-    scales: Tuple[ScaleConfig] = get_default_scales()
-    con_output_names: Tuple[str] = get_default_con_output_names()
+    boundary_conditions: Tuple[BoundaryConditionConfig] = field(
+        default_factory=get_default_boundary_conditions
+    )
+    bounds: Tuple[BoundConfig] = field(default_factory=get_default_bounds)
+    scales: Tuple[ScaleConfig] = field(default_factory=get_default_scales)
+    con_output_names: Tuple[str] = field(default_factory=get_default_con_output_names)
 
     def __post_init__(self):
         super().__post_init__()
-- 
2.43.0


From 226ad82956f8f23bb081f868ca4e4e71b24b81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 36/47] fix: models and parameter trees must not share mutable
 parameter values

---
 lumos/models/composition.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lumos/models/composition.py b/lumos/models/composition.py
index 5e201f0..25526a5 100644
--- a/lumos/models/composition.py
+++ b/lumos/models/composition.py
@@ -1,5 +1,6 @@
 from __future__ import annotations  # Model referencing Model
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 from lumos.models.tree_utils import ParameterTree, ConfigTree
 
@@ -207,10 +208,9 @@ class CompositeModel:
         """Set the parameteres recursively including the children"""
 
         # The direct parameters of the model
-        # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
-        # which if we don't copy, then we'll be making the new ParameterTree a mutable
-        # copy of the old params!
-        self._params = params.data.copy()
+        # NOTE: we must deep copy, as the direct data could contain mutable arrays, which
+        # if we don't copy, then the ParameterTree and the model would share them!
+        self._params = deepcopy(params.data)
 
         # The parameters of the children
         if not self.is_leaf():
@@ -220,10 +220,9 @@ class CompositeModel:
     def get_recursive_params(self) -> ParameterTree:
         """Assmeble the parameter tree including the children"""
 
-        # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
-        # which if we don't copy, then we'll be making the new ParameterTree a mutable
-        # copy of the old params!
-        param_tree = ParameterTree(data=self._params.copy())
+        # NOTE: we must deep copy, as the direct data could contain mutable arrays, which
+        # if we don't copy, then the ParameterTree and the model would share them!
+        param_tree = ParameterTree(data=deepcopy(self._params))
         if not self.is_leaf():
             for n, m in self._submodels.items():
                 param_tree.add_child(name=n, subtree=m.get_recursive_params())
-- 
2.43.0


From 9e71fe3e4876aae254aefa4332e8dca194130c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 37/47] fix: call custom hessians with their arguments in the
 documented order

---
 lumos/models/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index f5d6ed7..a6be13c 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -773,7 +773,10 @@ class StateSpaceModel(Model):
             "constraints": self._apply_and_flat_implicit,
             "jacobian": self._implicit_jac,
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": self._implicit_hess,
+            # MappedConstraints passes the multipliers directly after the variables
+            "hessian": lambda flat_vars, mult, mesh, params: self._implicit_hess(
+                flat_vars, mesh, params, mult
+            ),
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
-- 
2.43.0


From e920fb6755073cbfea49b52b76d7ba21068918ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 38/47] fix: the batched forward of custom models takes arrays

---
 lumos/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index a6be13c..5743afe 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -787,9 +787,9 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            with self._temporary_params(_params):
-                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
-            return StateSpaceModelReturn(*out)
+            return lnp.lmap(
+                self.apply_and_forward_with_arrays, in_axes=[0, 0, 0, None]
+            )(_states, _inputs, _mesh, _params)
 
         self._batched_forward = custom_batched_forward
 
-- 
2.43.0


From 0e61fd11e51ddb1e226721c3cd0160392d85374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 39/47] fix: model returns must not share their default
 dictionaries

---
 lumos/models/base.py | 49 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 5743afe..cba7a72 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -88,20 +88,53 @@ def state_space_io(
     return wrapper
 
 
-class ModelReturn(NamedTuple):
+class _ModelReturn(NamedTuple):
+    outputs: Dict
+    residuals: Dict
+
+
+class ModelReturn(_ModelReturn):
     """Return data structure for a static model."""
 
-    outputs: Dict = {}
-    residuals: Dict = {}
+    __slots__ = ()
+
+    def __new__(cls, outputs: Optional[Dict] = None, residuals: Optional[Dict] = None):
+        # A group that is left out is a new dictionary for every return, so that
+        # changing one return never shows up in another.
+        return super().__new__(
+            cls,
+            outputs={} if outputs is None else outputs,
+            residuals={} if residuals is None else residuals,
+        )
+
 
+class _StateSpaceModelReturn(NamedTuple):
+    states_dot: Dict
+    outputs: Dict
+    con_outputs: Dict
+    residuals: Dict
 
-class StateSpaceModelReturn(NamedTuple):
+
+class StateSpaceModelReturn(_StateSpaceModelReturn):
     """Return data structure for state space model."""
 
-    states_dot: Dict = {}
-    outputs: Dict = {}
-    con_outputs: Dict = {}
-    residuals: Dict = {}
+    __slots__ = ()
+
+    def __new__(
+        cls,
+        states_dot: Optional[Dict] = None,
+        outputs: Optional[Dict] = None,
+        con_outputs: Optional[Dict] = None,
+        residuals: Optional[Dict] = None,
+    ):
+        # See ModelReturn
+        return super().__new__(
+            cls,
+            states_dot={} if states_dot is None else states_dot,
+            outputs={} if outputs is None else outputs,
+            con_outputs={} if con_outputs is None else con_outputs,
+            residuals={} if residuals is None else residuals,
+        )
 
 
 class ArrayModelReturn(NamedTuple):
-- 
2.43.0


From 8f5076d1587cc558fa9907da0d21ac06b69a24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 40/47] fix: the structures returned to the solver must not
 alias our own

---
 lumos/optimal_control/nlp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 00632db..20e2160 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -127,10 +127,11 @@ class BaseConstraints:
         )
 
     def jacobianstructure(self):
-        return self._jacobian_structure
+        # Copies, as writing to the returned indices must not change our own
+        return tuple(np.array(idx) for idx in self._jacobian_structure)
 
     def hessianstructure(self):
-        return self._hessian_structure
+        return tuple(np.array(idx) for idx in self._hessian_structure)
 
     def get_csc_jacobian(self, x):
         """Helper function to return the csc matrix using the sparse entries"""
@@ -420,7 +421,7 @@ class BaseObjective:
             (rows, cols) that gives the row and column indices of the non-sparse
             elements.
         """
-        return self._hessian_structure
+        return tuple(np.array(idx) for idx in self._hessian_structure)
 
     def hessian(self, x: np.ndarray) -> np.ndarray:
         """Call the hessian with scaled inputs.
-- 
2.43.0


From 8aee6fc2cf7cff354ab662dff7ad9351c50d8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 41/47] fix: cmap and lmap must not ignore the axes they are
 given

---
 lumos/numpy/utils.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 560f544..65fc693 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -96,6 +96,25 @@ def vector_tile(vec, reps: int):
         return lnp.tile(vec, (reps, 1))
 
 
+def _make_full_in_axes(
+    in_axes: Union[int, List[Union[int, None]]], num_args: int
+) -> List[Union[int, None]]:
+    """Make a list with the axis to map for each argument, None if it is not mapped.
+
+    Only mapping over the first axis is supported.
+    """
+    if isinstance(in_axes, (list, tuple)):
+        assert len(in_axes) == num_args
+        full_in_axes = list(in_axes)
+    else:
+        full_in_axes = [in_axes] * num_args
+
+    if not all(axis is None or axis == 0 for axis in full_in_axes):
+        raise NotImplementedError(f"in_axes must be 0 or None, but got {in_axes}")
+
+    return full_in_axes
+
+
 def cmap(
     fn,
     in_axes: Union[int, List[Union[int, None]]] = 0,
@@ -122,11 +141,7 @@ def cmap(
     """
 
     def fmapped(*args):
-        if isinstance(in_axes, list):
-            assert len(in_axes) == len(args)
-            full_in_axes = in_axes
-        else:
-            full_in_axes = [in_axes] * len(args)
+        full_in_axes = _make_full_in_axes(in_axes, len(args))
 
         # First find an argument that needs to be mapped
         sample_arg = next(a for a in args if a is not None)
@@ -219,11 +234,7 @@ def lmap(
     """
 
     def fmapped(*args):
-        if isinstance(in_axes, list):
-            assert len(in_axes) == len(args)
-            full_in_axes = in_axes
-        else:
-            full_in_axes = [in_axes] * len(args)
+        full_in_axes = _make_full_in_axes(in_axes, len(args))
 
         # First find an argument that needs to be mapped
         sample_arg = next(a for a in args if a is not None)
-- 
2.43.0


From e1552cfff681b3179324822ba346241eeadbe70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 42/47] fix: setting an unknown model parameter must be
 rejected

---
 lumos/models/tree_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index e30ffe2..bb5df11 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -177,6 +177,8 @@ class ParameterTree(Tree):
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
+        # Ensure the parameter to be set does actually exist, raises KeyError otherwise
+        self.get_param(path, delimiter)
         self._set_leaf(path, value, delimiter)
 
     # Methods required to register jax pytree
-- 
2.43.0


From 588ff07d0f9b4ac44c7ff179d9eace545a6f2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 43/47] fix: casadi norm must not ignore the axis for infinity
 and Frobenius norms

---
 lumos/numpy/casadi_numpy/linalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 5ec9b98..0649dd6 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -64,6 +64,10 @@ def norm(x, ord=None, axis=None):
         if axis is not None:
             if not (axis == 0 or axis == 1 or axis == -1):
                 raise ValueError("`axis` must be -1, 0, or 1 for CasADi types.")
+            # These norms are taken over all the entries: right only along the one vector.
+            other = x.shape[0 if axis else 1]
+            if ord == "fro" or (ord in (_onp.inf, -_onp.inf) and other != 1):
+                raise ValueError(f"`axis` is not supported for norms with ord: {ord}.")
         elif x.shape[0] == 1:
             axis = 1
         elif x.shape[1] == 1:
-- 
2.43.0


From c20c1c90e6b16c30a42cd5d7e56b5e7835245cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:56 +0000
Subject: [PATCH 44/47] fix: casadi reshape and roll must order elements as
 numpy does

---
 lumos/numpy/casadi_numpy/array.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..9126fe2 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,14 +244,13 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
+    else:
+        if axis == 0:
+            split_at = a.shape[0] - shift % a.shape[0]
+            return _cas.vertcat(a[split_at:, :], a[:split_at, :])
         elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
+            split_at = a.shape[1] - shift % a.shape[1]
+            return _cas.horzcat(a[:, split_at:], a[:, :split_at])
         elif axis is None:
             return roll(a, shift=shift, axis=0)
         else:
@@ -288,7 +287,10 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        newshape = (newshape,) if isinstance(newshape, int) else tuple(newshape)
+        nrow, ncol = (*newshape, 1) if len(newshape) == 1 else newshape
+        # numpy goes through the elements row by row, casadi column by column
+        return _cas.reshape(a.T, ncol, nrow).T
 
 
 def zeros(shape):
-- 
2.43.0


From d4394bb45072f0af8ae62c9af4e9a609140128eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:56 +0000
Subject: [PATCH 45/47] fix: casadi dot of matrices must be the matrix product

---
 lumos/numpy/casadi_numpy/linalg_top_level.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..f82e2c7 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -4,6 +4,11 @@ from lumos.numpy.casadi_numpy.arithmetic import sum, abs
 from lumos.numpy.casadi_numpy.determine_type import is_casadi_type
 
 
+def _is_matrix(x):
+    shape = getattr(x, "shape", ())
+    return len(shape) == 2 and 1 not in shape
+
+
 def dot(a, b):
     """
     Dot product of two arrays.
@@ -14,6 +19,8 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
+        if _is_matrix(a) or _is_matrix(b):
+            return _cas.mtimes(a, b)
         return _cas.dot(a, b)
 
 
-- 
2.43.0


From 703d7022c447a678379365b66d99aa9a2fe2be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:56 +0000
Subject: [PATCH 46/47] fix: casadi norm must refuse matrix norms it does not
 compute

---
 lumos/numpy/casadi_numpy/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 0649dd6..d1a8c0c 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -72,6 +72,8 @@ def norm(x, ord=None, axis=None):
             axis = 1
         elif x.shape[1] == 1:
             axis = 0
+        elif ord is not None and ord != "fro":
+            raise ValueError(f"Norms with ord: {ord} are not supported for matrices.")
 
         if ord is None:
             if axis is not None:
@@ -88,7 +90,7 @@ def norm(x, ord=None, axis=None):
         elif ord == "fro":
             return _cas.norm_fro(x)
         elif _onp.isinf(ord):
-            return _cas.norm_inf(x)
+            return _cas.norm_inf(x) if ord > 0 else _cas.mmin(abs(x))
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 59b819aa2555ef7d0fb45c95774a61723cef1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:56 +0000
Subject: [PATCH 47/47] fix: casadi diff must take differences along the last
 axis

---
 lumos/numpy/casadi_numpy/calculus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 8f2ed69..2263a55 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -18,9 +18,12 @@ def diff(a, n=1, axis=-1):
                 "This could be implemented, but haven't had the need yet."
             )
 
+        # by default casadi takes the first axis of a matrix
+        axis = -1 if 1 in a.shape else 1
+
         result = a
         for i in range(n):
-            result = _cas.diff(result)
+            result = _cas.diff(result, 1, axis)
         return result
 
 
-- 
2.43.0

