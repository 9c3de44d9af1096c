From f788a177f7dee4775596d701b9e36e31a9933c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 01/24] fix: continuum-trap integration limit must scale with
 the release timescale

The upper limit added the dimensionless log-normal width to a time, so for
timescales much larger than one unit the integral was truncated and results
depended on the unit in which times were given.
---
 src/traps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..f44b5a1 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -264,7 +264,7 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     // Prep the integration
     double result, error;
     const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double max = release_timescale * (1.0 + 100.0 * release_timescale_sigma);
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -595,7 +595,7 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     // Prep the integration
     double result, error;
     const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double max = release_timescale * (1.0 + 100.0 * release_timescale_sigma);
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
@@ -855,7 +855,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     // Prep the integration
     double result, error;
     const double min = 0.0;
-    const double max = release_timescale + 100 * release_timescale_sigma;
+    const double max = release_timescale * (1.0 + 100.0 * release_timescale_sigma);
     const double epsabs = 0.0;
     const double epsrel = 1e-6;
     const int limit = 100;
-- 
2.43.0


From bc8a45a46fe1325bd8a2a265aea87ec8f5aae944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 02/24] fix: only print instant-capture watermarks when there
 are instant-capture traps

---
 src/cti.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..164778f 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -400,9 +400,11 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
+                        if (trap_manager_manager.n_traps_ic > 0) {
                         print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
+                        }
 
                         print_v(2, "n_free_electrons  %g \n", n_free_electrons);
 
-- 
2.43.0


From 974b6fbb98f896513c08da7f8f1cd7b79e20ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:19 +0000
Subject: [PATCH 03/24] fix: clock columns one after another when traps are not
 emptied between them

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 164778f..04814d6 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -313,7 +313,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
     #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
-                             firstprivate(trap_manager_manager)
+                             firstprivate(trap_manager_manager) if(roe->empty_traps_between_columns)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
         column_index = column_start + i_column;
 
-- 
2.43.0


From 6e02d81a431c1a5b7598d3ec6d22f65e0a30114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 04/24] fix: readout objects keep their own dwell times instead
 of a reference to the caller's or the default

---
 include/roe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..de7aa64 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -44,7 +44,7 @@ class ROE {
 
     ROE& operator=(const ROE& roe);
 
-    std::valarray<double>& dwell_times;
+    std::valarray<double> dwell_times;
     int prescan_offset;
     int overscan_start;
     bool empty_traps_between_columns;
-- 
2.43.0


From b928fc1c3b49c2d84de1445f2aa99cfbb56eac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 05/24] fix: the read-noise routine no longer prints debugging
 text at every verbosity

---
 src/read_noise.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9e0b9fa..aebd0eb 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -16,9 +16,6 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
   double readNoiseAmp2 = SQUARE(readNoiseAmp);
 
     int idx;
-    print_v(1, "hello");
-    cout << "Hello World!";
-    
     for (int i = 0; i < rows * cols; i++) {
         dval0[i] = imageIn[i] - imageOut[i];
         dval9[i] = dval0[i];
-- 
2.43.0


From 2e660a76abf878cd2925f55e2c524015f61d1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 06/24] fix: remove_cti with read-noise removal prints nothing
 at verbosity 0

---
 python/arcticpy/cti.py        | 10 +++++++---
 python/arcticpy/read_noise.py | 21 +++++++++++++--------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..b02c02e 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -461,9 +461,13 @@ def remove_cti(
     if remove_read_noise > 0:
         sigma_readnoise = 1. * remove_read_noise
         read_noise = ReadNoise(sigma_readnoise=sigma_readnoise)
-        print(read_noise.sigmaRN)
-        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(image_remove_cti)
-        print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
+        if verbosity >= 1:
+            print(read_noise.sigmaRN)
+        image_remove_cti,image_read_noise = read_noise.generate_SR_frames_from_image(
+            image_remove_cti, verbosity=verbosity
+        )
+        if verbosity >= 1:
+            print("\nMean and rms of modelled read noise:",np.mean(image_read_noise),np.std(image_read_noise))        
 
     # =======================
     # Estimate the image with removed CTI more accurately each iteration
diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..0c485ad 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -173,7 +173,7 @@ class ReadNoise:
 
     ###############
     ###############
-    def generate_SR_frames_from_image(self, image, sr_fraction=None):
+    def generate_SR_frames_from_image(self, image, sr_fraction=None, verbosity=1):
         """
         Function for generating a model of read noise in an image, using the level specified in the
         initial ReadNoise call. Once modeled, the read noise component is separated from the data,
@@ -191,6 +191,9 @@ class ReadNoise:
             frame. Default is set to the optimised value measured in <optimise_SR_frac>, or 100%
             if <optimise_SR_frac> has not been previously run.
 
+        verbosity: int
+            The amount of printed information. 0: none, >=1: the progress of each iteration.
+
 
         """
         ampReadNoise = self.sigmaRN
@@ -213,7 +216,8 @@ class ReadNoise:
         nrmsGlobal = 0.0
 
         smoother = 1
-        print("iter", "model_rms", "target_rms", "residual")
+        if verbosity >= 1:
+            print("iter", "model_rms", "target_rms", "residual")
         for s in range(self.n_iter):
             oldchk = ampReadNoise - rmsGlobal
             imageAdj = self._determine_noise_model(imageIn, imageOut)
@@ -230,12 +234,13 @@ class ReadNoise:
             nrmsGlobal = noiseImage[cond].size
 
             rmsGlobal = np.sqrt(rmsGlobal / nrmsGlobal)
-            print("\033[K", end="\r")
-            print(
-                "%4d  %f    %5.2f    %f"
-                % (s, rmsGlobal, self.sigmaRN, (ampReadNoise - rmsGlobal)),
-                end="",
-            )
+            if verbosity >= 1:
+                print("\033[K", end="\r")
+                print(
+                    "%4d  %f    %5.2f    %f"
+                    % (s, rmsGlobal, self.sigmaRN, (ampReadNoise - rmsGlobal)),
+                    end="",
+                )
 
             chk = ampReadNoise - rmsGlobal
             if chk * oldchk < 0:
-- 
2.43.0


From ad4f4ea5ae4fa584f27c678d0ac0fceef93e16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 07/24] fix: release GSL workspaces and root solvers

---
 src/traps.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index f44b5a1..dd35f3e 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -269,7 +269,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrICCo_ff_from_te_params params = {
@@ -281,6 +282,7 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -340,7 +342,8 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -375,6 +378,8 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         x_hi = gsl_root_fsolver_x_upper(s);
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     return root;
 }
@@ -430,6 +435,8 @@ void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -600,7 +607,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_from_te_params params = {
@@ -612,6 +620,7 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -646,7 +655,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -681,6 +691,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         x_hi = gsl_root_fsolver_x_upper(s);
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     return root;
 }
@@ -710,6 +722,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -860,7 +874,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_after_sc_params params = {
@@ -873,6 +888,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -935,6 +951,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_capture_table[i] =
             fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
-- 
2.43.0


From 4686546f4bb05dc90d48e3e7d9a37ee6df554666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 08/24] fix: report failed root finding

---
 src/traps.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index dd35f3e..cd2b0ae 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -369,10 +369,12 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
 
     // Iterate the root finder
     int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    status = gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    if (status) error("Root finder set-up failed, status %d", status);
     do {
         iter++;
         status = gsl_root_fsolver_iterate(s);
+        if (status) break;
         root = gsl_root_fsolver_root(s);
         x_lo = gsl_root_fsolver_x_lower(s);
         x_hi = gsl_root_fsolver_x_upper(s);
@@ -381,6 +383,8 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
     gsl_root_fsolver_free(s);
     if (own_workspace) gsl_integration_workspace_free(workspace);
 
+    if (status) error("Root finding failed, status %d", status);
+
     return root;
 }
 
@@ -682,10 +686,12 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
 
     // Iterate the root finder
     int iter = 0;
-    gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    status = gsl_root_fsolver_set(s, &F, x_lo, x_hi);
+    if (status) error("Root finder set-up failed, status %d", status);
     do {
         iter++;
         status = gsl_root_fsolver_iterate(s);
+        if (status) break;
         root = gsl_root_fsolver_root(s);
         x_lo = gsl_root_fsolver_x_lower(s);
         x_hi = gsl_root_fsolver_x_upper(s);
@@ -694,6 +700,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
     gsl_root_fsolver_free(s);
     if (own_workspace) gsl_integration_workspace_free(workspace);
 
+    if (status) error("Root finding failed, status %d", status);
+
     return root;
 }
 
-- 
2.43.0


From d387c0aea632af58fbdd1a1ceafcc02d071ab645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 09/24] fix: report a failed write of an image file

---
 src/util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..93887d1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -273,7 +273,10 @@ void save_image_to_txt(
         fprintf(f, "\n");
     }
 
-    fclose(f);
+    // Make sure that everything was written
+    int failed = ferror(f);
+    failed |= fclose(f);
+    if (failed) error("Failed to write image file '%s'", filename);
 
     return;
 }
-- 
2.43.0


From 7792922a8eaafc6955d11cfd7a0558c4ff4f434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 10/24] fix: a failed benchmark download ended with exit status
 0

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 64e0cc5..c9af899 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -117,7 +117,7 @@ int run_benchmark() {
             "wget http://www.astro.dur.ac.uk/~rjm/ArCTIc/benchmark_2k2k_image.txt";
         printf("%s\n", command);
         int status = system(command);
-        if (status != 0) exit(status);
+        if (status != 0) error("Failed to download '%s'", filename);
     } else
         fclose(f);
 
-- 
2.43.0


From 1a91591613a7aa88a0d28e7510fe3f898fb13fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 11/24] fix: clocking several phases accessed rows beyond the
 image

---
 src/cti.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 04814d6..74a71a8 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -140,8 +140,8 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
 
     unsigned int column_index;
     unsigned int row_index;
-    unsigned int row_read;
-    unsigned int row_write;
+    int row_read;
+    int row_write;
     double n_free_electrons;
     double n_electrons_released_and_captured;
     double express_multiplier;
@@ -362,6 +362,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // Nothing to capture beyond the edges of the image
+                            if ((row_read < 0) || (row_read >= (int)n_rows)) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -414,6 +417,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Charge released beyond the edges leaves the image
+                            if ((row_write < 0) || (row_write >= (int)n_rows)) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 4d85edcd2561e88b816fcfc33c5eba10ee5794e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 12/24] fix: add_cti calls the pixel bounce method that exists

---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index b02c02e..0992d72 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From b9b53a9b24f823ea087b041891514fbe64eaecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 13/24] fix: PixelBounce.omega0 reads the attributes of its
 object

---
 python/arcticpy/pixel_bounce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..5ef2a9c 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
-- 
2.43.0


From 9f6d83d471863e1e3a68805d5305b16b5c09ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 14/24] fix: from_normal_roe takes prescan length and read
 noise from the given ROE

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From b52e3086b1beca56be18e597d1de71f18c937284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 15/24] fix: CovarianceMatrix.ringabs calls np.abs

---
 python/arcticpy/read_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 0c485ad..543eaa0 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1125,5 +1125,5 @@ class CovarianceMatrix(np.ndarray):
         middle = self.middle
         subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),
                         max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]
-        return npabs(subarray).sum() - self.autocorrelation
+        return np.abs(subarray).sum() - self.autocorrelation
 
-- 
2.43.0


From 586322ab85cfa6ea428957fbffe5521e4a0ee2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 16/24] fix: optimising the read noise fraction called methods
 that do not exist

---
 python/arcticpy/read_noise.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 543eaa0..aaf679e 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1,5 +1,6 @@
 import numpy as np
 import matplotlib as mpl
+import arcticpy as arctic
 from scipy.optimize import curve_fit
 
 try:
@@ -337,10 +338,8 @@ class ReadNoise:
 
         # create "simulation noise" covariance matrix (estimated from the sky+readnoise image)
         # in this case, the fpr decrement is set to zero, because there is no CTI trailing
-        sim_matrix = self.covariance_matrix_from_image(
-            self.skyFrameSim + self.readnoiseFrameSim,
-            matrix_size=matrix_size,
-            fprSize=5,
+        sim_matrix = CovarianceMatrix().from_image(
+            self.skyFrameSim + self.readnoiseFrameSim, matrix_size=matrix_size
         )
 
         # ideally, the matrix should be all zeros except for the centre square (== sigmaSky**2 + sigmaReadnoise**2)
@@ -759,7 +758,7 @@ class ReadNoise:
         Estimate a covariance matrix for an optimising simulation, assuming the sky/noise frames have already been created
         """
         # add CTI effects to skyFrame
-        ctiTrailedFrame = w.add_cti(skyFrame, **kwargs)
+        ctiTrailedFrame = arctic.add_cti(skyFrame, **kwargs)
         # add read noise to CTI-trailed image
         readNoiseAddedFrame = ctiTrailedFrame + noiseFrame
         # do S+R routine
@@ -771,13 +770,13 @@ class ReadNoise:
         ##rFrame*=sr_fraction
         ##sFrame-=rFrame
         # clean CTI from S frame
-        ctiCorrectedFrame = w.remove_cti(sFrame, 1, **kwargs)
+        ctiCorrectedFrame = arctic.remove_cti(sFrame, 1, **kwargs)
         # re-add R frame to correction
         outputFrame = ctiCorrectedFrame + rFrame
 
         # determine covariance FOMs
-        fomSR = self.covariance_matrix_from_image(outputFrame, matrix_size=matrix_size)
-        fomBenchmark = self.covariance_matrix_from_image(
+        fomSR = CovarianceMatrix().from_image(outputFrame, matrix_size=matrix_size)
+        fomBenchmark = CovarianceMatrix().from_image(
             skyFrame + noiseFrame, matrix_size=matrix_size
         )
         fomDiff = fomSR - fomBenchmark
-- 
2.43.0


From 6ca86fe6f989bdc6500d99b00e7e0fcd44c573a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 17/24] fix: pixel bounce of integer images

---
 python/arcticpy/pixel_bounce.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 5ef2a9c..4ea5c09 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -93,6 +93,9 @@ class PixelBounce:
         bias : [[float]]
             The output bias image array of pixel values.
         """
+        # Work with doubles: differences of unsigned integers would wrap around
+        image = np.asarray(image, dtype=np.double)
+
         # Initialise bias offset voltage, which should settle during prescan
         # of each row
         bias = np.zeros(image.shape)
-- 
2.43.0


From 17d3f055728656372da89df153f0cec4b312e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 18/24] fix: add_pixel_bounce_slow for images of several rows

---
 python/arcticpy/pixel_bounce.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 4ea5c09..5ca0856 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -239,7 +239,9 @@ class PixelBounce:
         # omega = np.sqrt(self.omegaO**2 - self.gamma**2)
         coeffA = 2 * np.exp(-1 * self.gamma * epsilon) * np.cos(self.omega * epsilon)
         coeffB = np.exp(-2 * self.gamma * epsilon)
-        biasm1 = 0.0
+
+        # Avoid overwriting the input image
+        image = np.copy(image).astype(np.double)
 
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
@@ -251,6 +253,7 @@ class PixelBounce:
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -258,7 +261,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
-- 
2.43.0


From cfadd62016cfec9f24a581db866fcc63b33819c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 19/24] fix: read noise model of images in any memory layout
 and type

---
 python/arcticpy/read_noise.py | 2 +-
 python/arcticpy/wrapper.pyx   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index aaf679e..6197fc8 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -206,7 +206,7 @@ class ReadNoise:
             if sr_fraction == None:
                 sr_fraction = 1.0
 
-        imageIn = image
+        imageIn = np.asanyarray(image, dtype=np.double)
         imageAdj = np.zeros_like(imageIn)  # adjustment image (for read noise modeling)
         imageOut = imageIn.copy()  # output ("smoothed") image
 
diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 2e131c8..4bee559 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -8,6 +8,8 @@ cdef extern from "read_noise.hpp":
     void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
 
 def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
     cdef int rows = arr1.shape[0]
     cdef int cols = arr1.shape[1]
     cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
-- 
2.43.0


From 2237d5cd49156b058205f249f9e8c35cfb592e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 20/24] fix: refuse a CCD without one fraction of traps per
 phase

---
 python/arcticpy/ccd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/arcticpy/ccd.py b/python/arcticpy/ccd.py
index a58acb8..41cc224 100644
--- a/python/arcticpy/ccd.py
+++ b/python/arcticpy/ccd.py
@@ -63,6 +63,12 @@ class CCD(object):
             fraction_of_traps_per_phase, dtype=np.double
         )
 
+        if self.fraction_of_traps_per_phase.size != len(self.phases):
+            raise Exception(
+                "Need one fraction of traps for each of the %d phases (got %d)"
+                % (len(self.phases), self.fraction_of_traps_per_phase.size)
+            )
+
         # Extract convenient arrays
         self.full_well_depths = np.array(
             [phase.full_well_depth for phase in self.phases], dtype=np.double
-- 
2.43.0


From 18fb2ee6a1988405f6aa3059b83a2f6de8ac3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 21/24] fix: express one below the number of rows built a table
 too small when first transfers see empty traps

---
 src/roe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..b1154ed 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -280,7 +280,7 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && (express >= n_rows + offset)) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -291,7 +291,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if ((empty_traps_for_first_transfers) && (express < n_rows + offset)) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From 6edad6542375bf43e0504f95b3612b52404610f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 22/24] fix: reserve trap occupancy levels for every pump of
 trap pumping

The trap states are kept from one pump to the next, but storage was
reserved for a single transfer, so that a decreasing cloud of charge wrote
past the end of the watermark arrays after a few pumps.
---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 74a71a8..460ad71 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -109,6 +109,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         error(
             "Number of CCD phases (%d) and ROE phases (%d) don't match.", ccd->n_phases,
             roe->n_phases);
+    if (roe->type == roe_type_trap_pumping) {
+        // The trap states are carried over from each pump to the next
+        max_n_transfers *= roe->n_express_passes;
+    }
     if (!roe->empty_traps_between_columns) {
         // Account for the complete set of capture/release events that might
         // need to be tracked if the traps are never reset
-- 
2.43.0


From 879fb8e7b42a9d7aa0282de223751c1f35607123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 23/24] fix: a shortage of electrons below the first level
 filled the new level from a stale one

---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..247574d 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -832,7 +832,7 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities; // is this wrong? the new watermark level should be created full
 
@@ -1690,7 +1690,7 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities;
 
-- 
2.43.0


From 29e960d7b9c7f060abecab688e52f680cd1e6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 24/24] fix: slow-capture traps kept no record of electrons
 released into an empty cloud

---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 247574d..903d5b9 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1304,7 +1304,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2062,7 +2062,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0

