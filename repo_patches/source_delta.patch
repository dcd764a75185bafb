From 2315474241ae8d8b54e53fe12ae43951503d3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 01/26] fix: do not accumulate DRGEP limbo species in the
 shared default list

run_drgep appended to ReducedModel.limbo_species, which is the class-level
default list shared by every ReducedModel: a second reduction in the same
process (and every other model) inherited the earlier limbo species. Build a
new list per run instead; targets are never limbo species.
---
 src/pymars/drgep.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..a454a6b 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -530,9 +530,15 @@ def run_drgep(
         )
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if importance_coeffs[sp] < threshold_upper
+                and sp not in species_safe
+                and sp not in species_targets
+            ]
+        )
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From fb2642e454810b553681342fd9e19beaba3820f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 02/26] fix: do not treat missing saved metrics as zeros when
 reusing them

sample_metrics(reuse_saved=True) preallocated zeros of exactly the expected
length for autoignition and flames, so with no saved output file the zeros
were taken for saved metrics and nothing was simulated.
---
 src/pymars/sampling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..3516263 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -406,8 +406,6 @@ def sample_metrics(
 
     ignition_delays = np.array([])
     if ignition_conditions:
-        ignition_delays = np.zeros(len(ignition_conditions))
-
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
             ignition_delays = np.atleast_1d(
@@ -465,8 +463,6 @@ def sample_metrics(
 
     flame_speeds = np.array([])
     if flame_conditions:
-        flame_speeds = np.zeros(len(flame_conditions))
-
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
             flame_speeds = np.atleast_1d(
-- 
2.43.0


From f259e91483ccda52abbdd66b93d2b20e8885ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 03/26] fix: tolerate a saved data file with a single row

np.genfromtxt returns a one-dimensional array for a one-row file, so checking
its shape raised IndexError instead of recomputing the samples.
---
 src/pymars/sampling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 3516263..015930c 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -558,7 +558,9 @@ def sample(
             ignition_delays = np.genfromtxt(
                 data_files["output_ignition"], delimiter=","
             )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -610,7 +612,9 @@ def sample(
             psr_metrics = np.atleast_1d(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_psr"], delimiter=",")
+            )
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
@@ -655,7 +659,9 @@ def sample(
             flame_speeds = np.atleast_1d(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_flame"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
-- 
2.43.0


From 70797a105aa950c84278e1b3599c230d62b8dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 04/26] fix: sensitivity analysis must not remove protected
 limbo species

Species listed as limbo were removed even when they are in species_safe, and
the caller's limbo list was emptied in place.
---
 src/pymars/sensitivity_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..b10f25f 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -175,10 +175,12 @@ def run_sa(
         path=path,
     )
 
-    if not species_limbo:
-        species_limbo = [
-            sp for sp in current_model.model.species_names if sp not in species_safe
-        ]
+    # never consider protected species, and leave the caller's list alone
+    species_limbo = [
+        sp
+        for sp in species_limbo or current_model.model.species_names
+        if sp not in species_safe
+    ]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From 44cfd8e62499e81204060973bee82e1d5ddbbdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 05/26] fix: greedy sensitivity analysis crashed after removing
 its last candidate

min() of the empty error array raised ValueError once every limbo species had
been removed within the error limit.
---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index b10f25f..34bf4b5 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -257,7 +257,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From 7912c3e41b9dc1558c1f31dee1fa575151e4172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 06/26] fix: sensitivity analysis returns the path its model
 was written to

With a non-empty path the returned filename lacked the directory, so it did not
name the file that was written.
---
 src/pymars/sensitivity_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 34bf4b5..08961ee 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -261,12 +261,14 @@ def run_sa(
                     break
 
     # Final model; may need to rewrite
+    reduced_model_filename = soln2yaml.write(
+        current_model.model, f"reduced_{current_model.model.n_species}.yaml", path=path
+    )
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
+        filename=reduced_model_filename,
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From c55e37becf1d24f05c74293ca1ebae92a404eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 07/26] fix: rebuild the final model at the threshold that was
 accepted

Subtracting the increments from the current threshold accumulates rounding, so
the final model could be built at a slightly different threshold than the last
one that met the error limit (0.1 + 0.01 + 0.01 - 0.02 != 0.1).
---
 src/pymars/drg.py   | 5 +++--
 src/pymars/drgep.py | 5 +++--
 src/pymars/pfa.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..54a103b 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -357,6 +357,8 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -372,12 +374,11 @@ def run_drg(
         )
 
     if error_current > error_limit:
-        threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
             model_file,
             species_targets,
             species_safe,
-            threshold,
+            threshold_accepted,
             matrices,
             ignition_conditions,
             sampled_metrics,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index a454a6b..05de0e7 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -494,6 +494,8 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -509,11 +511,10 @@ def run_drgep(
         )
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
             model_file,
             species_safe,
-            threshold,
+            threshold_accepted,
             importance_coeffs,
             ignition_conditions,
             sampled_metrics,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..1155b9a 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -383,6 +383,8 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -398,12 +400,11 @@ def run_pfa(
         )
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
             model_file,
             species_targets,
             species_safe,
-            threshold,
+            threshold_accepted,
             matrices,
             ignition_conditions,
             sampled_metrics,
-- 
2.43.0


From a968f9f717556f7cba9e083a251083f70d939f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 08/26] fix: end the threshold search once nothing more can be
 removed

If the error limit was still met with only target and retained species left,
run_drg and run_pfa looped forever, while run_drgep raised the threshold past
1.0 and removed the target species as well. After leaving the loop that way the
final write was given the ReducedModel tuple instead of its Cantera model.
---
 src/pymars/drg.py   |  8 +++++++-
 src/pymars/drgep.py | 12 ++++++++++--
 src/pymars/pfa.py   |  8 +++++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 54a103b..9661c9a 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -373,6 +373,10 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # nothing more can be removed
+        if num_species <= len(set(species_targets) | set(species_safe)):
+            break
+
     if error_current > error_limit:
         reduced_model = reduce_drg(
             model_file,
@@ -392,7 +396,9 @@ def run_drg(
         )
     else:
         soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
 
     logging.info(45 * "-")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 05de0e7..3482640 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -449,6 +449,9 @@ def run_drgep(
         solution.species_names, species_targets, matrices
     )
 
+    # targets have an importance of 1.0, but must also survive higher thresholds
+    species_safe = species_safe + [sp for sp in species_targets if sp not in species_safe]
+
     # begin reduction iterations
     logging.info("Beginning DRGEP reduction loop")
     logging.info(45 * "-")
@@ -510,6 +513,10 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # nothing more can be removed
+        if num_species <= len(set(species_safe)):
+            break
+
     if reduced_model.error > error_limit:
         reduced_model = reduce_drgep(
             model_file,
@@ -527,7 +534,9 @@ def run_drgep(
         )
     else:
         soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
 
     if threshold_upper:
@@ -537,7 +546,6 @@ def run_drgep(
                 for sp in reduced_model.model.species_names
                 if importance_coeffs[sp] < threshold_upper
                 and sp not in species_safe
-                and sp not in species_targets
             ]
         )
 
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 1155b9a..4160f69 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -399,6 +399,10 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # nothing more can be removed
+        if num_species <= len(set(species_targets) | set(species_safe)):
+            break
+
     if reduced_model.error > error_limit:
         reduced_model = reduce_pfa(
             model_file,
@@ -418,7 +422,9 @@ def run_pfa(
         )
     else:
         soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
 
     logging.info(45 * "-")
-- 
2.43.0


From 4458cd07955b6514f97705ea65e37073c8172fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 09/26] fix: never overwrite the starting model with a reduced
 model of the same name

Starting from a file called reduced_N.yaml, a candidate with N species was
written over it (and possibly deleted again afterwards).
---
 src/pymars/drg.py                  | 10 ++++++----
 src/pymars/drgep.py                | 10 ++++++----
 src/pymars/pfa.py                  | 10 ++++++----
 src/pymars/reduce_model.py         | 24 ++++++++++++++++++++++++
 src/pymars/sensitivity_analysis.py |  6 ++++--
 5 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 9661c9a..84a1753 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -8,7 +8,7 @@ import cantera as ct
 
 from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, reduced_filename, ReducedModel
 
 
 def create_drg_matrix(state, solution):
@@ -205,7 +205,9 @@ def reduce_drg(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
     reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
+        reduced_model,
+        reduced_filename(model_file, reduced_model.n_species, path),
+        path=path,
     )
 
     reduced_model_metrics = sample_metrics(
@@ -394,10 +396,10 @@ def run_drg(
             num_threads=num_threads,
             path=path,
         )
-    else:
+    elif reduced_model.filename != model_file:
         soln2yaml.write(
             reduced_model.model,
-            f"reduced_{reduced_model.model.n_species}.yaml",
+            reduced_filename(model_file, reduced_model.model.n_species, path),
             path=path,
         )
 
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 3482640..cf5c69e 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -11,7 +11,7 @@ import cantera as ct
 
 from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, reduced_filename, ReducedModel
 
 
 def mod_dijkstra(
@@ -352,7 +352,9 @@ def reduce_drgep(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
     reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
+        reduced_model,
+        reduced_filename(model_file, reduced_model.n_species, path),
+        path=path,
     )
 
     reduced_model_metrics = sample_metrics(
@@ -532,10 +534,10 @@ def run_drgep(
             num_threads=num_threads,
             path=path,
         )
-    else:
+    elif reduced_model.filename != model_file:
         soln2yaml.write(
             reduced_model.model,
-            f"reduced_{reduced_model.model.n_species}.yaml",
+            reduced_filename(model_file, reduced_model.model.n_species, path),
             path=path,
         )
 
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 4160f69..db70e4e 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -8,7 +8,7 @@ import cantera as ct
 
 from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, reduced_filename, ReducedModel
 
 
 def create_pfa_matrix(state, solution):
@@ -229,7 +229,9 @@ def reduce_pfa(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
     reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
+        reduced_model,
+        reduced_filename(model_file, reduced_model.n_species, path),
+        path=path,
     )
 
     reduced_model_metrics = sample_metrics(
@@ -420,10 +422,10 @@ def run_pfa(
             num_threads=num_threads,
             path=path,
         )
-    else:
+    elif reduced_model.filename != model_file:
         soln2yaml.write(
             reduced_model.model,
-            f"reduced_{reduced_model.model.n_species}.yaml",
+            reduced_filename(model_file, reduced_model.model.n_species, path),
             path=path,
         )
 
diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..375d1e6 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -15,6 +15,30 @@ class ReducedModel(NamedTuple):
     limbo_species: list = []
 
 
+def reduced_filename(model_file, n_species, path=""):
+    """Name for a reduced model file that is not the starting model file itself.
+
+    Parameters
+    ----------
+    model_file : str
+        Filename for the starting model
+    n_species : int
+        Number of species of the reduced model
+    path : str, optional
+        Path the reduced model file is written to
+
+    Returns
+    -------
+    str
+        Name of the reduced model file (without path)
+
+    """
+    filename = f"reduced_{n_species}.yaml"
+    if os.path.realpath(os.path.join(path, filename)) == os.path.realpath(model_file):
+        filename = f"reduced_{n_species}_new.yaml"
+    return filename
+
+
 def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
     """Function to eliminate species and corresponding reactions from model
 
diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 08961ee..33ba0d1 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -7,7 +7,7 @@ import cantera as ct
 
 from . import soln2yaml
 from .sampling import sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, reduced_filename, ReducedModel
 
 # Taken from http://stackoverflow.com/a/22726782/1569494
 try:
@@ -262,7 +262,9 @@ def run_sa(
 
     # Final model; may need to rewrite
     reduced_model_filename = soln2yaml.write(
-        current_model.model, f"reduced_{current_model.model.n_species}.yaml", path=path
+        current_model.model,
+        reduced_filename(model_file, current_model.model.n_species, path),
+        path=path,
     )
     reduced_model = ReducedModel(
         model=current_model.model,
-- 
2.43.0


From 46d31b8ef82026f1c12d829ff365d027a4d93504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 10/26] fix: hand sensitivity analysis the limbo species of DRG
 and PFA reductions

run_drg returned the species that the upper threshold keeps (targets included)
instead of those it would remove, and PFA never had any: reduce_pfa added the
species kept at the upper threshold to those kept at the lower one, and main()
did not pass the threshold on.
---
 src/pymars/drg.py    | 13 +++++++++++++
 src/pymars/pfa.py    | 13 +++++++++++++
 src/pymars/pymars.py |  1 +
 3 files changed, 27 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 84a1753..5883d22 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -403,6 +403,19 @@ def run_drg(
             path=path,
         )
 
+    # limbo species are those in the final model that the upper threshold would remove
+    if threshold_upper:
+        species_kept = list(species_targets) + list(species_safe)
+        for matrix in matrices:
+            species_kept += trim_drg(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp for sp in reduced_model.model.species_names if sp not in species_kept
+            ]
+        )
+
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
     logging.info(
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index db70e4e..0d32d95 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -429,6 +429,19 @@ def run_pfa(
             path=path,
         )
 
+    # limbo species are those in the final model that the upper threshold would remove
+    if threshold_upper:
+        species_kept = list(species_targets) + list(species_safe)
+        for matrix in matrices:
+            species_kept += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp for sp in reduced_model.model.species_names if sp not in species_kept
+            ]
+        )
+
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
     logging.info(
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..1276fcd 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 8434cf501b986b04cd2de893aff0446f1008d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 11/26] fix: compare_models ignored whether reactions are
 reversible

---
 src/pymars/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..8fb474f 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -82,6 +82,8 @@ def compare_models(model1, model2):
 
         if rxn1.duplicate != rxn2.duplicate:
             return False
+        if rxn1.reversible != rxn2.reversible:
+            return False
 
         # Check primary rate object (present on all reactions in Cantera 3)
         if hasattr(rxn1, "rate") and hasattr(rxn2, "rate"):
-- 
2.43.0


From 5e475472553c01f739549f06cc52f7b67b1a4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 12/26] fix: compare_models missed transport data present in
 the second model only

---
 src/pymars/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 8fb474f..87905b0 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -53,6 +53,8 @@ def compare_models(model1, model2):
 
         if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
             if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
+                if (sp1.transport is None) != (sp2.transport is None):
+                    return False
                 # iterate over transport parameters
                 params = [
                     a
-- 
2.43.0


From eff70bec1cccbf55f8a5cd4660641ecae24edea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 13/26] fix: compare_models treated all small pre-exponential
 factors as equal

np.isclose's default absolute tolerance of 1e-8 hides any difference between
rate parameters below that magnitude, which is common for SI pre-exponential
factors of high-order reactions.
---
 src/pymars/tools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 87905b0..c245a80 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -102,9 +102,13 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                    ):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                    ):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -131,7 +135,7 @@ def compare_models(model1, model2):
                         "activation_energy",
                     ):
                         if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
+                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
                         ):
                             return False
 
@@ -152,7 +156,7 @@ def compare_models(model1, model2):
                     "activation_energy",
                 ):
                     if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
+                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
                     ):
                         return False
 
-- 
2.43.0


From 9be5de9e49762b098bfd2603c0dc76fa1eaad32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 14/26] fix: compare_models raised for falloff or Chebyshev
 rates of different size

Three- and four-parameter Troe functions, or Chebyshev tables of different
shape, made np.allclose raise ValueError instead of reporting a difference.
---
 src/pymars/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index c245a80..22f25d5 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -114,6 +114,8 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
+                    if np.shape(rate1.falloff_coeffs) != np.shape(rate2.falloff_coeffs):
+                        return False
                     if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
@@ -145,6 +147,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if np.shape(rate1.data) != np.shape(rate2.data):
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
-- 
2.43.0


From d387b28fbd9581602701cbe4209e6e808a20fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 15/26] fix: Chemkin export failed for three-parameter Troe and
 SRI falloff functions

---
 src/pymars/soln2ck.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..cafb856 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,16 +128,11 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        # the fourth Troe parameter is optional
+        falloff_string = "TROE / " + "  ".join(f"{p}" for p in parameters) + " /\n"
     elif falloff_function == "SRI":
-        falloff_string = (
-            "SRI / "
-            + f"{parameters[0]}  {parameters[1]}  "
-            + f"{parameters[2]}  {parameters[3]}  {parameters[4]} /\n"
-        )
+        # the last two SRI parameters are optional
+        falloff_string = "SRI / " + "  ".join(f"{p}" for p in parameters) + " /\n"
     else:
         raise NotImplementedError(f"Falloff function not supported: {falloff_function}")
 
-- 
2.43.0


From e23622ddd61d002454636eed3c9eca84e38f2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 16/26] fix: Chemkin export ran long equations into the rate
 coefficients

Equations of 51 characters or more left no blank before the pre-exponential
factor, which corrupts the last species name.
---
 src/pymars/soln2ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index cafb856..05ca0d6 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -290,7 +290,7 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From 9408096a02458dbbbe731e7f5ba35c12c32243de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 17/26] fix: convert Chebyshev rate coefficients to Chemkin
 units on export

The coefficients hold log10 of the rate constant in kmol and m; they were
written unchanged, so bimolecular Chebyshev rates came out 1000 times too small.
---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 05ca0d6..1696ae9 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -394,7 +394,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # log10 of the rate constant: convert from kmol and m to mol and cm
+                data = cheb.data.copy()
+                data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 842b160b021cf858ebeb0e1c2e22eb4d851a717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 18/26] fix: do not write efficiencies for explicit colliders
 to Chemkin files

H + O2 + AR <=> HO2 + AR was followed by AR/1.0/, which Chemkin only accepts for
reactions with a generic third body M.
---
 src/pymars/soln2ck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 1696ae9..80d12b8 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -332,7 +332,8 @@ def write(
             reaction_string += arrhenius + "\n"
 
             # print third-body efficiencies when a third body is present
-            if reaction.third_body is not None:
+            # (an explicit collider is part of the equation)
+            if reaction.third_body is not None and reaction.third_body.name == "M":
                 tb = reaction.third_body
                 reduced_efficiencies = {
                     s: v
-- 
2.43.0


From e02fff091349f8bb444fa11807431a572fa932b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 19/26] fix: keep a default third-body efficiency other than
 one in Chemkin export

---
 src/pymars/soln2ck.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 80d12b8..fdd6929 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -340,6 +340,10 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                # Chemkin's default efficiency is one, so list any other one explicitly
+                if tb.default_efficiency != 1.0:
+                    for s in solution.species_names:
+                        reduced_efficiencies.setdefault(s, tb.default_efficiency)
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From 9a3848644186e0d8325f1e7a363ecdd1bd73904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 20/26] fix: accept an ignition run that finishes exactly on
 its last permitted step

Reaching steady state (or the requested ignition stop) on step max_steps was
reported as running out of steps.
---
 src/pymars/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..b86e052 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -336,7 +336,7 @@ class IgnitionSimulation(BaseSimulation):
                     if residual < residual_threshold:
                         break
 
-                if step == self.max_steps - 1:
+                else:
                     logging.error(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From 8e56243fe2d457bd874b5914fa02f01d21274b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 21/26] fix: the final temperature always reaches the last
 sampling threshold

T0 + 1.0 * (Tn - T0) can round to just above Tn, which left the last sampled
state unset (all zeros).
---
 src/pymars/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index b86e052..6e4438e 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -127,8 +127,10 @@ class BaseSimulation(ABC):
         for point in range(len(temperatures)):
             if idx >= len(deltas):
                 break
-            if temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
+            # rounding must not put the full rise above the final temperature
+            if temperatures[point] >= min(
+                temperature_initial + (deltas[idx] * temperature_diff),
+                temperatures[-1],
             ):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
-- 
2.43.0


From 96c56410f8405058b3b30eb55b331d3acadce8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 22/26] fix: convert a Chemkin model before reading the
 reduction inputs

---
 src/pymars/pymars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 1276fcd..befc644 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -380,12 +380,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From b838b17598b01e2e5e676d133d88f01369c89bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 23/26] fix: remove reactions whose order depends on a removed
 species

---
 src/pymars/reduce_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 375d1e6..a0d8538 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -77,8 +77,11 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
             ):
                 continue
 
-        reaction_species = list(reaction.products.keys()) + list(
-            reaction.reactants.keys()
+        # species with explicit reaction orders need not be reactants or products
+        reaction_species = (
+            list(reaction.products.keys())
+            + list(reaction.reactants.keys())
+            + list(reaction.orders.keys())
         )
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
-- 
2.43.0


From 4b7561bf04c6606d0919022bb6fac9d4d5fe787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 24/26] Revert "fix: compare_models missed transport data
 present in the second model only"

This reverts commit 5e475472553c01f739549f06cc52f7b67b1a4648.
---
 src/pymars/tools.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 22f25d5..2d32340 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -53,8 +53,6 @@ def compare_models(model1, model2):
 
         if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
             if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
-                if (sp1.transport is None) != (sp2.transport is None):
-                    return False
                 # iterate over transport parameters
                 params = [
                     a
-- 
2.43.0


From 59a6093a9894620875c1eb6ac33b3866c4af1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 25/26] fix: keep written models loadable when all third-body
 efficiencies are removed

---
 src/pymars/reduce_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index a0d8538..4ed0bab 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -86,11 +86,15 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
             if tb is not None:
-                tb.efficiencies = {
+                efficiencies = {
                     sp: val
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                if tb.efficiencies and not efficiencies:
+                    # otherwise the original efficiencies are written with the model
+                    reaction.clear_user_data()
+                tb.efficiencies = efficiencies
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From 84257bfe9253263b0f2c6d3e479af6c6f024aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:14 +0000
Subject: [PATCH 26/26] fix: write species of more than four elements so that
 they can be read

---
 src/pymars/soln2ck.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index fdd6929..a430824 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -160,6 +160,13 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
+            extended_composition = ""
+            if len(species.composition) > 4:
+                # does not fit in the columns, so goes on a continuation line
+                composition_string = ""
+                extended_composition = "&\n" + "  ".join(
+                    [f"{s} {int(v)}" for s, v in species.composition.items()]
+                )
 
             species_string = (
                 f"{species.name:<18}"
@@ -170,7 +177,9 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                 + f"{species.thermo.max_temp:10.3f}"
                 + f"{species.thermo.coeffs[0]:8.2f}"
                 + 6 * " "
-                + "1\n"
+                + "1"
+                + extended_composition
+                + "\n"
             )
 
             species_string += (
-- 
2.43.0

