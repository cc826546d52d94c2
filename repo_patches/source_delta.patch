From 0131a981c2d67cd413bcb530fe8d4bbaf2acb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 01/55] fix: reject padded binning with no more bins than
 padded bins

The linpad and logpad schemes always prepend a fixed number of padded bins, so
with fewer bins requested the edges, centres and widths disagree in number and
the remaining width is computed from a division by zero or a negative count.
---
 src/triumvirate/src/dataobjs.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..29b404a 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -141,6 +141,16 @@ void Binning::compute_binning() {
     dbin_pad = this->dbin_pad_config;
   }
 
+  if (
+    (this->scheme == "linpad" || this->scheme == "logpad")
+    && this->num_bins <= this->nbin_pad
+  ) {
+    throw trvs::InvalidParameterError(
+      "Number of bins must exceed the number of padded bins "
+      "for padded binning schemes."
+    );
+  }
+
   // Implement binning scheme.
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From 0251eddae612d0b3c69b3d6d9d711597f30b5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 02/55] fix: wrap half-cell-shifted positions landing exactly
 on the upper mesh boundary

---
 src/triumvirate/src/field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..3be2209 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -689,7 +689,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -800,7 +800,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -929,7 +929,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1067,7 +1067,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 2204f31d8d1905c2fc5d8e6592f70216aa9f5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 03/55] fix: wrap the last cell of the interlaced
 triangular-shaped cloud periodically

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 3be2209..6ec418b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -945,7 +945,7 @@ OMP_ATOMIC
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From 9294f413f519184e6147ec47b80004179b783455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 04/55] fix: subtract the mean density from the interlaced
 companion field as well

---
 src/triumvirate/src/field.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 6ec418b..c9d3c9f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1241,6 +1241,16 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+      // this->field_s[gid][1] -= 0.; (unused)
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
-- 
2.43.0


From a3dfd91206d5b5c60c50c2c4d1a4d4f5ba3455b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 05/55] fix: apply the alpha contrast to the interlaced
 companion of single-catalogue fields

---
 src/triumvirate/src/field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index c9d3c9f..dd7e8d5 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1369,6 +1369,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1496,6 +1506,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From 2aa5e9691abd3feff1699b5c6bce29d3768a7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 06/55] fix: compare the volume of both mesh fields when
 checking compatibility

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index dd7e8d5..4db775f 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2322,7 +2322,7 @@ bool FieldStats::if_fields_compatible(
   if (
     this->params.nmesh != field_a.params.nmesh
     || this->params.nmesh != field_b.params.nmesh
-    || this->params.volume != field_b.params.volume
+    || this->params.volume != field_a.params.volume
     || this->params.volume != field_b.params.volume
   ) {
     flag_compatible = false;
-- 
2.43.0


From b0868a47a102f4f4758b83d1c49dc09f7c1248cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 07/55] fix: return a zero field and the band centre for a band
 without modes

---
 src/triumvirate/src/field.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 4db775f..5f31b7b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1923,6 +1923,13 @@ void MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited(
   }
   trvs::count_ifft += 1;
 
+  // An empty band has no modes to average over: the field is zero and
+  // the effective wavenumber is the band centre.
+  if (nmodes == 0) {
+    k_eff = (k_lower + k_upper) / 2.;
+    return;
+  }
+
   // Average over wavevector modes in the band.
 #ifdef TRV_USE_OMP
 #pragma omp parallel for simd
-- 
2.43.0


From 0b3cf79927d5a4d8a1bf54579da07d60fd99d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 08/55] fix: keep the bispectrum shot-noise loop of the full
 layout inside its arrays

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From d2604d2d077f6976d9aeb2c9696888fcbb4bc237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 09/55] fix: lay out three-point data vectors by the number of
 bins of the binning given

---
 src/triumvirate/src/threept.cpp | 162 ++++++++++++++++----------------
 1 file changed, 81 insertions(+), 81 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 6a38c39..3fd9b60 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -649,9 +649,9 @@ trv::BispecMeasurements compute_bispec(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
               double k_lower_a = kbinning.bin_edges[idx_row];
               double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -709,9 +709,9 @@ trv::BispecMeasurements compute_bispec(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               double k_lower_a = kbinning.bin_edges[idx_row];
@@ -847,12 +847,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
               }
@@ -860,13 +860,13 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+              for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -920,12 +920,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "full") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
               }
@@ -933,12 +933,12 @@ trv::BispecMeasurements compute_bispec(
           }
 
           if (params.shape == "triu") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
               for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -1263,9 +1263,9 @@ trv::ThreePCFMeasurements compute_3pcf(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = idx_row * params.num_bins + idx_row;
+            int idx_dv = idx_row * rbinning.num_bins + idx_row;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -1274,9 +1274,9 @@ trv::ThreePCFMeasurements compute_3pcf(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+            int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -1334,9 +1334,9 @@ trv::ThreePCFMeasurements compute_3pcf(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
                 r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -1349,10 +1349,10 @@ trv::ThreePCFMeasurements compute_3pcf(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -1847,9 +1847,9 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
       }
 
       if (params.shape == "full") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-            int idx_dv = idx_row * params.num_bins + idx_col;
+        for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+            int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
             double k_lower_a = kbinning.bin_edges[idx_row];
             double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -1907,9 +1907,9 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
       }
 
       if (params.shape == "triu") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-          for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+        for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+          for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+            int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
               + (idx_col - idx_row);
 
             double k_lower_a = kbinning.bin_edges[idx_row];
@@ -2027,12 +2027,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
             std::complex<double> S_i_jk_row_ = coupling * (
               stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
             );
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
             }
@@ -2040,12 +2040,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
             std::complex<double> S_i_jk_row_ = coupling * (
               stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
             );
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
               sn_dv[idx_dv] +=
                 S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -2096,12 +2096,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
             }
@@ -2109,12 +2109,12 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+          for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
             for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2415,9 +2415,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       }
 
       if (params.shape == "full") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+        for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
-          int idx_dv = idx_row * params.num_bins + idx_row;
+          int idx_dv = idx_row * rbinning.num_bins + idx_row;
           sn_dv[idx_dv] += coupling * factor_parity * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2426,9 +2426,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
       }
 
       if (params.shape == "triu") {
-        for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+        for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
           // Note that ``idx_col == idx_row``.
-          int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+          int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
           sn_dv[idx_dv] += coupling * factor_parity * (
             stats_sn.xi[idx_row]
             + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2486,9 +2486,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
               r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
               r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -2501,9 +2501,9 @@ trv::ThreePCFMeasurements compute_3pcf_in_gpp_box(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++) {
+              int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -2864,9 +2864,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = idx_row * params.num_bins + idx_row;
+            int idx_dv = idx_row * rbinning.num_bins + idx_row;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2875,9 +2875,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+          for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
             // Note that ``idx_col == idx_row``.
-            int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2;
+            int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2;
             sn_dv[idx_dv] += coupling * factor_parity * (
               stats_sn.xi[idx_row]
               + factor_mirror_w3j * std::conj(stats_sn.xi[idx_row])
@@ -2934,9 +2934,9 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = 0; idx_col < rbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * rbinning.num_bins + idx_col;
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
                 r2bin_dv[idx_dv] = rbinning.bin_centres[idx_col];
@@ -2949,10 +2949,10 @@ trv::ThreePCFWindowMeasurements compute_3pcf_window(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+            for (int idx_row = 0; idx_row < rbinning.num_bins; idx_row++) {
+              for (int idx_col = idx_row; idx_col < rbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*rbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
 
                 r1bin_dv[idx_dv] = rbinning.bin_centres[idx_row];
@@ -3522,9 +3522,9 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
         }
 
         if (params.shape == "full") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = idx_row * params.num_bins + idx_col;
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = idx_row * kbinning.num_bins + idx_col;
 
               double k_lower_a = kbinning.bin_edges[idx_row];
               double k_upper_a = kbinning.bin_edges[idx_row + 1];
@@ -3582,9 +3582,9 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
         }
 
         if (params.shape == "triu") {
-          for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-            for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++) {
-              int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+          for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+            for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++) {
+              int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                 + (idx_col - idx_row);
 
               double k_lower_a = kbinning.bin_edges[idx_row];
@@ -3798,12 +3798,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "full") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
               }
@@ -3811,13 +3811,13 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "triu") {
-            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
               std::complex<double> S_i_jk_row_ = coupling * (
                 stats_sn.pk[idx_row] - stats_sn.sn[idx_row]
               );
-              for (int idx_col = idx_row; idx_col < params.num_bins; idx_col++)
+              for (int idx_col = idx_row; idx_col < kbinning.num_bins; idx_col++)
               {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_i_jk_row_ + factor_mirror * std::conj(S_i_jk_row_);
@@ -3872,12 +3872,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "full") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
-                int idx_dv = idx_row * params.num_bins + idx_col;
+              for (int idx_row = 0; idx_row < kbinning.num_bins; idx_row++) {
+                int idx_dv = idx_row * kbinning.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
               }
@@ -3885,12 +3885,12 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
           }
 
           if (params.shape == "triu") {
-            for (int idx_col = 0; idx_col < params.num_bins; idx_col++) {
+            for (int idx_col = 0; idx_col < kbinning.num_bins; idx_col++) {
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
               for (int idx_row = 0; idx_row <= idx_col; idx_row++) {
-                int idx_dv = (2*params.num_bins - idx_row + 1) * idx_row / 2
+                int idx_dv = (2*kbinning.num_bins - idx_row + 1) * idx_row / 2
                   + (idx_col - idx_row);
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 38a8b43672ff31b5027907deb9295b548238301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 10/55] fix: wrap particles whole box lengths below zero to the
 lower edge of the periodic box

---
 src/triumvirate/src/particles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..deefccb 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,10 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        // Whole box lengths below zero are the lower edge of the box.
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From 1739ba61ee2dee30dfb630a97ea24f66e22ed241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 11/55] fix: copy the shape parameter with the rest of the
 parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..dd46d30 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -69,6 +69,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->j_wa = other.j_wa;
   this->form = other.form;
   this->norm_convention = other.norm_convention;
+  this->shape = other.shape;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
   this->bin_max = other.bin_max;
-- 
2.43.0


From c20a2c237951ec3a1d842b542b55e1e3463f2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 12/55] fix: match parameter names in full when reading a
 parameter file

---
 src/triumvirate/src/parameters.cpp | 51 ++++++++++++++++--------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index dd46d30..a1080d0 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -138,7 +138,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
+  char par_str[1024], dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
@@ -147,7 +147,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     if (
       std::sscanf(
         line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
+        par_str, dummy_equal, dummy_str
       ) != 3
     ) {
       continue;
@@ -156,11 +156,16 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
       continue;
     }  // skip non-assignment lines
 
+    // Define convenience function for matching the parameter name in full.
+    auto is_par = [&par_str](const char* par_name) {
+      return std::strcmp(par_str, par_name) == 0;
+    };
+
     // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
+    auto scan_par_str = [is_par, line_str, dummy_str, dummy_equal](
       const char* par_name, const char* fmt, const char* par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
+      if (is_par(par_name)) {
         std::sscanf(
           line_str.data(), fmt, dummy_str, dummy_equal, par_value
         );
@@ -179,44 +184,44 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
+    if (is_par("boxsize_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_x
       );
     }
-    if (line_str.find("boxsize_y") != std::string::npos) {
+    if (is_par("boxsize_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_y
       );
     }
-    if (line_str.find("boxsize_z") != std::string::npos) {
+    if (is_par("boxsize_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_z
       );
     }
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
+    if (is_par("ngrid_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_x
       );
     }
-    if (line_str.find("ngrid_y") != std::string::npos) {
+    if (is_par("ngrid_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_y
       );
     }
-    if (line_str.find("ngrid_z") != std::string::npos) {
+    if (is_par("ngrid_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
       );
     }
 
-    if (line_str.find("expand") != std::string::npos) {
+    if (is_par("expand")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->expand
@@ -226,7 +231,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
     scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
+    if (is_par("padfactor")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->padfactor
@@ -244,65 +249,65 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
     scan_par_str("binning", "%1023s %1023s %1023s", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
+    if (is_par("ell1")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell1
       );
     }
-    if (line_str.find("ell2") != std::string::npos) {
+    if (is_par("ell2")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell2
       );
     }
-    if (line_str.find("ELL") != std::string::npos) {
+    if (is_par("ELL")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ELL
       );
     }
 
-    if (line_str.find("i_wa") != std::string::npos) {
+    if (is_par("i_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->i_wa
       );
     }
-    if (line_str.find("j_wa") != std::string::npos) {
+    if (is_par("j_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->j_wa
       );
     }
 
-    if (line_str.find("bin_min") != std::string::npos) {
+    if (is_par("bin_min")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_min
       );
     }
-    if (line_str.find("bin_max") != std::string::npos) {
+    if (is_par("bin_max")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_max
       );
     }
 
-    if (line_str.find("num_bins") != std::string::npos) {
+    if (is_par("num_bins")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->num_bins
       );
     }
-    if (line_str.find("idx_bin") != std::string::npos) {
+    if (is_par("idx_bin")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->idx_bin
       );
     }
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
+    if (is_par("cutoff_nyq")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->cutoff_nyq
@@ -318,7 +323,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     );
     scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
+    if (is_par("verbose")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->verbose
-- 
2.43.0


From a550caff5cf83d211b032f15d9a8da02b98bb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 13/55] fix: bound the strings scanned from a parameter file by
 their buffers

---
 src/triumvirate/src/parameters.cpp | 54 +++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index a1080d0..f459996 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -117,21 +117,21 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   double boxsize_x, boxsize_y, boxsize_z;
   int ngrid_x, ngrid_y, ngrid_z;
 
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
-
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
-
-  char fftw_scheme_[16] = "";
+  char alignment_[1024] = "";
+  char padscale_[1024] = "";
+  char assignment_[1024] = "";
+  char interlace_[1024] = "";
+
+  char catalogue_type_[1024] = "";
+  char statistic_type_[1024] = "";
+  char form_[1024] = "";
+  char norm_convention_[1024] = "";
+  char binning_[1024] = "";
+
+  char fftw_scheme_[1024] = "";
   char use_fftw_wisdom_[1024] = "";
   char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  char progbar_[1024] = "";
 
   // ---------------------------------------------------------------------
   // Extraction
@@ -174,13 +174,27 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str(
+      "catalogue_dir", "%1023s %1023s %1023s", catalogue_dir_
+    );
+    scan_par_str(
+      "measurement_dir", "%1023s %1023s %1023s", measurement_dir_
+    );
+    scan_par_str(
+      "data_catalogue_file", "%1023s %1023s %262143s", data_catalogue_file_
+    );
+    scan_par_str(
+      "rand_catalogue_file", "%1023s %1023s %262143s", rand_catalogue_file_
+    );
+    scan_par_str(
+      "catalogue_columns", "%1023s %1023s %1023s", catalogue_columns_
+    );
+    scan_par_str(
+      "catalogue_dataset", "%1023s %1023s %1023s", catalogue_dataset_
+    );
+    scan_par_str(
+      "output_tag", "%1023s %1023s %1023s", output_tag_
+    );
 
     // -- Mesh sampling --------------------------------------------------
 
-- 
2.43.0


From f104971a78242025801c85ac7cebbced78e63758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 14/55] fix: leave the box and mesh sizes absent from a
 parameter file unset

---
 src/triumvirate/src/parameters.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index f459996..21215a4 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -114,8 +114,12 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   char catalogue_dataset_[1024] = "";
   char output_tag_[1024] = "";
 
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
+  double boxsize_x = this->boxsize[0];
+  double boxsize_y = this->boxsize[1];
+  double boxsize_z = this->boxsize[2];
+  int ngrid_x = this->ngrid[0];
+  int ngrid_y = this->ngrid[1];
+  int ngrid_z = this->ngrid[2];
 
   char alignment_[1024] = "";
   char padscale_[1024] = "";
@@ -408,7 +412,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
-- 
2.43.0


From aae7052d1dec5e9cc064b740ccc67275af6e850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 15/55] fix: print the mesh total of a parameter set as a long
 integer

---
 src/triumvirate/src/parameters.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 21215a4..bc76658 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1318,6 +1318,9 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
+    std::fprintf(ofileptr, fmt, par_val);
+  };
   auto print_par_double = [ofileptr](const char* fmt, double par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
@@ -1339,7 +1342,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
   print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
   print_par_double("expand = %.4f\n", this->expand);
   print_par_str("alignment = %s\n", this->alignment);
-- 
2.43.0


From 295af89d8b0d08d38b3dfc0fe3071b470d5d7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 16/55] fix: print the Nyquist cutoff with the rest of the
 parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index bc76658..6bab8e3 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1345,6 +1345,7 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_longlong("nmesh = %lld\n", this->nmesh);
 
   print_par_double("expand = %.4f\n", this->expand);
+  print_par_double("cutoff_nyq = %.4f\n", this->cutoff_nyq);
   print_par_str("alignment = %s\n", this->alignment);
   print_par_str("padscale = %s\n", this->padscale);
   print_par_double("padfactor = %.4f\n", this->padfactor);
-- 
2.43.0


From cab35cca2ec36095c07bce379d53557995901e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 17/55] fix: reject Nyquist cutoffs from which the mesh grid
 numbers cannot be set

---
 src/triumvirate/src/parameters.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 6bab8e3..f9ed42e 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1461,22 +1461,39 @@ void set_boxsize_from_expand(
 
 void set_ngrid_from_cutoff(trv::ParameterSet& params) {
   for (int iaxis = 0; iaxis < 3; iaxis++) {
-    int ngrid_;
+    double ncell_;
     if (params.space == "fourier") {
-      ngrid_ = static_cast<int>(std::ceil(
+      ncell_ = std::ceil(
         params.boxsize[iaxis] * params.cutoff_nyq / M_PI
-      ));
+      );
     } else
     if (params.space == "config") {
-      ngrid_ = static_cast<int>(std::ceil(
+      ncell_ = std::ceil(
         2. * params.boxsize[iaxis] / params.cutoff_nyq
-      ));
+      );
     } else {
       throw trvs::InvalidParameterError(
         "Space must be 'fourier' or 'config': `space` = '%s'.",
         params.space.c_str()
       );
     }
+    // Only grid numbers within range and not requiring to be set again
+    // can be validated.
+    if (!(ncell_ > 0. && ncell_ <= 1048576.)) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Mesh grid numbers cannot be set from the Nyquist cutoff and "
+          "the box size: `cutoff_nyq` = %lg.",
+          params.cutoff_nyq
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "Mesh grid numbers cannot be set from the Nyquist cutoff and "
+        "the box size: `cutoff_nyq` = %lg.",
+        params.cutoff_nyq
+      );
+    }
+    int ngrid_ = static_cast<int>(ncell_);
     params.ngrid[iaxis] = ngrid_ + (ngrid_ % 2);
   }
 
-- 
2.43.0


From 52025b4a17b5ee871898394fab18da9e34eb4e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 18/55] fix: reject negative box sizes and mesh grid numbers

---
 src/triumvirate/src/parameters.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index f9ed42e..ab7cfe0 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1054,6 +1054,19 @@ int ParameterSet::validate(bool init) {
   this->nmesh = static_cast<long long>(this->ngrid[0])
     * this->ngrid[1] * this->ngrid[2];  // derivation
 
+  // Negative sizes in pairs would go unnoticed in the totals.
+  if (
+    *std::min_element(this->boxsize, this->boxsize + 3) < 0.
+    || *std::min_element(this->ngrid, this->ngrid + 3) < 0
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error("Box size and mesh grid number must not be negative.");
+    }
+    throw trvs::InvalidParameterError(
+      "Box size and mesh grid number must not be negative.\n"
+    );
+  }
+
   if (this->volume <= 0.) {
     if (trvs::currTask == 0) {
       trvs::logger.warn(
-- 
2.43.0


From 52e3b8cf48a511675953c32e1a87850ae929b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 19/55] fix: keep the case of the FFTW wisdom directory path

---
 src/triumvirate/parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..e6a0feb 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -531,8 +531,10 @@ cdef class ParameterSet:
         if (
             use_fftw_wisdom_ := self._params.get('use_fftw_wisdom')
         ) is not None:
-            self.thisptr.use_fftw_wisdom = \
-                str(use_fftw_wisdom_).lower().encode('utf-8')
+            use_fftw_wisdom_ = str(use_fftw_wisdom_)
+            if use_fftw_wisdom_.lower() == 'false':
+                use_fftw_wisdom_ = 'false'
+            self.thisptr.use_fftw_wisdom = use_fftw_wisdom_.encode('utf-8')
 
         if (verbose_ := self._params.get('verbose')) is not None:
             self.thisptr.verbose = verbose_
-- 
2.43.0


From 60b205e2cb7341d2e84c7b5feca615faf31fda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 20/55] fix: derive the box and mesh sizes left unset in Python
 measurements

---
 src/triumvirate/parameters.pyx |  9 +++++++--
 src/triumvirate/threept.py     | 12 ++++++------
 src/triumvirate/twopt.py       | 12 ++++++------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index e6a0feb..4015684 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -478,8 +478,6 @@ cdef class ParameterSet:
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -565,6 +563,13 @@ cdef class ParameterSet:
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
+        if (
+            None in self._params['ngrid'].values()
+            and self.thisptr.nmesh > 0
+        ):
+            for iax, ax in enumerate(['x', 'y', 'z']):
+                self._params['ngrid'][ax] = self.thisptr.ngrid[iax]
+            self._params['nmesh'] = self.thisptr.nmesh
         self._params['fftw_planner_flag'] = self.thisptr.fftw_planner_flag
         self._params['fftw_wisdom_file_f'] = \
             self.thisptr.fftw_wisdom_file_f.decode('utf-8')
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..df7ca83 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -540,8 +540,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_rand.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -553,7 +553,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1441,8 +1441,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_data.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1454,7 +1454,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..9d376ee 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -463,8 +463,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_rand.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -476,7 +476,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -997,8 +997,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
     if None in paramset['boxsize'].values():
         for ax in ['x', 'y', 'z']:
             paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+                float(catalogue_data.spans[ax]) * paramset['expand']
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1010,7 +1010,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 39f10cd8abb5292e3a83ce258023865bb9b45c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 21/55] fix: accept sorted arrays in the array sortedness
 checks

---
 src/triumvirate/_arrayops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..daa0d17 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -122,7 +122,7 @@ def _check_1d_array(a, check_sorted=False, check_epsign=False,
             )
 
     if check_sorted:
-        if (not np.all(a[:-1] <= a[1:])) or (not np.all(a[:-1] >= a[1:])):
+        if (not np.all(a[:-1] <= a[1:])) and (not np.all(a[:-1] >= a[1:])):
             raise OrderError("Input array is not a sorted sequence.")
     if check_epsign:
         _check_epsign(a)
@@ -211,7 +211,7 @@ def _check_2d_array(a, check_sorted=False, check_epsign=False,
                     not np.all([
                         np.all(a__row[:-1] <= a__row[1:]) for a__row in a_
                     ])
-                ) or (
+                ) and (
                     not np.all([
                         np.all(a__row[:-1] >= a__row[1:]) for a__row in a_
                     ])
-- 
2.43.0


From 6a0859cbf5a1eb09e7f65629c559bb5a9397cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 22/55] fix: extend rows and columns by their own numbers in
 two-dimensional padding

---
 src/triumvirate/_arrayops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index daa0d17..12c9fe9 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -637,15 +637,15 @@ def extrap2d_pad(a, n_ext, crow_lower, crow_upper, ccol_lower, ccol_upper):
     nrow_ext, ncol_ext = \
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
-    a_l = np.tile(crow_lower, (nrow_ext, 1)).T
-    a_r = np.tile(crow_upper, (nrow_ext, 1)).T
+    a_l = np.tile(crow_lower, (ncol_ext, 1)).T
+    a_r = np.tile(crow_upper, (ncol_ext, 1)).T
     a_ = np.c_[a_l, a, a_r]
 
     ccol_lower = np.concatenate([a_l[0], ccol_lower, a_r[0]])
     ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[-1]])
 
-    a__u = np.tile(ccol_lower, (ncol_ext, 1))
-    a__d = np.tile(ccol_upper, (ncol_ext, 1))
+    a__u = np.tile(ccol_lower, (nrow_ext, 1))
+    a__d = np.tile(ccol_upper, (nrow_ext, 1))
     a_out = np.r_[a__u, a_, a__d]
 
     return a_out
-- 
2.43.0


From 9beb01f42ba619139f9a3d8cb471f6812b21aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 23/55] fix: keep the imaginary part when reshaping
 upper-triangular data tables

---
 src/triumvirate/_arrayops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 12c9fe9..c677aa1 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -798,7 +798,9 @@ def reshape_threept_datatab(paired_coords, flat_multipole, shape='triu'):
 
         triu_indices = np.triu_indices(nbins)
 
-        multipole = np.zeros((nbins, nbins))
+        multipole = np.zeros(
+            (nbins, nbins), dtype=np.result_type(flat_multipole, float)
+        )
         multipole[triu_indices] = flat_multipole
         multipole.T[triu_indices] = flat_multipole
     elif shape == 'full':
-- 
2.43.0


From 37dc9d2177c9ff6d21ab9ce6b2505ca383f32304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 24/55] fix: ignore the number of processes when task numbers
 are given

---
 src/triumvirate/_mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..8c89a31 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -88,7 +88,7 @@ def distribute_tasks(ntasks=None, task_total=None, proc_total=None):
 
     """
     ntasks = ntasks if ntasks else allocate_tasks(task_total, proc_total)
-    proc_total = proc_total if proc_total else len(ntasks)
+    proc_total = len(ntasks)
 
     breakpoints = np.insert(np.cumsum(ntasks), 0, values=0)
     segments = [
-- 
2.43.0


From e8d6d32cd3406b427b93399becbed73ee1db66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 25/55] fix: accept arrays as padding factors of Python
 catalogues

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..7a69e0d 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -627,9 +627,9 @@ class ParticleCatalogue:
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
         ])
 
-        if boxsize_pad:
+        if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-        if ngrid_pad:
+        if ngrid_pad is not None:
             origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
 
         self.offset_coords(origin)
-- 
2.43.0


From b429935b1bd0ed440d73c260fde06b8ec75fdbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 26/55] fix: accept a single coordinate as the new origin of
 Python catalogues

---
 src/triumvirate/catalogue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 7a69e0d..50babd1 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -684,6 +684,9 @@ class ParticleCatalogue:
             Coordinates of the new origin.
 
         """
+        if np.isscalar(origin):
+            origin = [origin, origin, origin]
+
         for axis, coord in zip(['x', 'y', 'z'], origin):
             self._pdata[axis] -= coord
 
-- 
2.43.0


From dd94d141a3f98cd813215ee154c332b0c2b69127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 27/55] fix: refresh extents and totals when a catalogue column
 is set

---
 src/triumvirate/catalogue.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 50babd1..63c446d 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -135,10 +135,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_wtotals()
 
         if self._logger:
             self._logger.info(
@@ -377,10 +374,7 @@ class ParticleCatalogue:
         self._calc_bounds(init=True)
 
         self.ntotal = len(self._pdata)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_wtotals()
 
         if self._logger:
             self._logger.info(
@@ -431,6 +425,10 @@ class ParticleCatalogue:
         """
         if isinstance(key, str):
             self._pdata[key] = val
+            if key in ['x', 'y', 'z']:
+                self._calc_bounds()
+            if key in ['ws', 'wc']:
+                self._calc_wtotals()
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
@@ -737,6 +735,15 @@ class ParticleCatalogue:
                     self
                 )
 
+    def _calc_wtotals(self):
+        """Calculate total particle weights.
+
+        """
+        self.wtotal = self._compute(
+            (self._pdata['ws'] * self._pdata['wc']).sum()
+        )
+        self.wstotal = self._compute(self._pdata['ws'].sum())
+
     def _check_bounds_in_boxsize(self, boxsize):
         """Check if partice coordinate extents are covered by the box size
         in all dimensions, and return the axis name(s) if not.
-- 
2.43.0


From be670305b2f72313cd0ec308f2875050123c27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 28/55] fix: set the mean density of catalogues whose 'nz'
 column is of integers

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 63c446d..d49e487 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -483,7 +483,7 @@ class ParticleCatalogue:
 
         volume = volume or np.prod(boxsize)
 
-        self._pdata['nz'] = self.ntotal / volume
+        self._pdata['nz'] = np.full(len(self), self.ntotal / volume)
 
     def centre(self, boxsize, catalogue_ref=None):
         """Centre a (pair of) catalogue(s) in a box.
-- 
2.43.0


From 971f04cecc261f73f6dfa070d1ec8e734b832781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 29/55] fix: order multipoles by all of their degrees

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..b42f6ca 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From 2c3629e068d6b5dfd114c8c3f64054879da5262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 30/55] fix: keep the sample size when window functions are
 respaced by default

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index b42f6ca..38ed64b 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,8 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if isinstance(make_loglin, bool)
+                    else make_loglin
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From 9037531a8e9108c33badef2484570be8a372a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 31/55] fix: keep the sample points of each multipole in
 subselected windows

---
 src/triumvirate/winconv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 38ed64b..bdb8175 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1201,7 +1201,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From 6989c46caed4467b27cb7d8ff1861f652476ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 32/55] fix: subselect windows by index ranges of given
 multipoles

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index bdb8175..48e5bc6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1183,7 +1183,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
-- 
2.43.0


From e745bbc1af035f8a7bce5652426ae86d10322168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 33/55] fix: subselect windows by sample-point ranges of some
 multipoles

---
 src/triumvirate/winconv.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 48e5bc6..11c3f24 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1152,11 +1152,16 @@ class ThreePointWindow:
             }
         elif isinstance(rrange, dict):
             select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
-                )
-                for multipole, (rmin, rmax) in rrange.items()
+                multipole: np.full_like(self.r[multipole], True, dtype=bool)
+                for multipole in self.multipoles
             }
+            for key, (rmin, rmax) in rrange.items():
+                rmin = rmin or 0.
+                rmax = rmax or np.inf
+                select_range[Multipole(key)] = np.logical_and(
+                    rmin <= self.r[Multipole(key)],
+                    self.r[Multipole(key)] <= rmax
+                )
         else:
             rmin, rmax = rrange
             rmin = rmin or 0.
-- 
2.43.0


From 8e4b45691299640cf38c73b7fe7ce928bf7ec745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 34/55] fix: load sample points of windows by multipole from
 dictionaries

---
 src/triumvirate/winconv.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 11c3f24..0b8c799 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1050,7 +1050,16 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
+        if isinstance(dict_obj['r'], dict):
+            self.r = {
+                Multipole(multipole_in): r_in
+                for multipole_in, r_in in dict_obj['r'].items()
+            }
+        else:
+            self.r = {
+                Multipole(multipole_in): dict_obj['r']
+                for multipole_in in dict_obj['Q']
+            }
 
         self.Q = {}
         self.Q_diag = {}
-- 
2.43.0


From cd235ebb60ace637dc211a9b0f344f73c80fea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 35/55] fix: load multipoles and sources of windows from files
 as lists

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 0b8c799..d1d56d9 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1104,8 +1104,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = win_obj['multipoles'].tolist()
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From 17327769d13aa8ede8d346a5db66926946afa8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 36/55] fix: calculate integral constraints with common input
 sample points

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d1d56d9..e3f0bc3 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1693,7 +1693,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
-- 
2.43.0


From ecb3d2dc9d508ed8d0aaa6d06e99eedf572e4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 37/55] fix: accept any multipole representation as keys of
 convolved inputs

---
 src/triumvirate/winconv.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index e3f0bc3..de6fb43 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1875,6 +1875,8 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2123,6 +2125,8 @@ class PowspecWinConv(WinConvBase):
             (only returned if `ret_xi` is `True`).
 
         """
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         # Backward transform power spectrum multipoles to 2PCF multipoles.
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
@@ -2260,6 +2264,8 @@ class ThreePCFWinConv(WinConvBase):
             match the separation sample points of the input 3PCF.
 
         """
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             if self._catch_warnings:
@@ -2342,6 +2348,10 @@ class ThreePCFWinConv(WinConvBase):
             formulae but `ic` is `None`.
 
         """
+        zeta_diag_in = {
+            Multipole(key): val for key, val in zeta_diag_in.items()
+        }
+
         # Enforce integral constraint.
         if 'ic' in self._formulae.multipoles_Z and ic is None:
             raise ValueError(
@@ -2647,6 +2657,8 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
-- 
2.43.0


From 240e4817c10eb8d72a0c804fabcff33e0ccbff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 38/55] fix: return window convolution matrices without MPI and
 concatenated

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index de6fb43..6c94de6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2880,7 +2880,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2905,7 +2905,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From da231d3057a58d59d9d7a5ec546bead743d7f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 39/55] fix: respace bispectrum wavenumbers to their own number
 of points

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 6c94de6..67b5827 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2546,7 +2546,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(_k_in_),
+                    base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From 9e6b5a51977d27f6307ae52830b25c3d5c934dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 40/55] fix: leave given transform options of window
 convolution unchanged

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 67b5827..5cba15d 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1986,7 +1986,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2503,7 +2503,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From b786a9263aa2d6299f03e06d4358902d4dae6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 41/55] fix: leave input samples of spherical Bessel transforms
 unchanged

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..391986a 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = np.asarray(pre_samples) * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From 63e63501fe15f34741c84a6c33562434bffbf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 42/55] fix: return the pivots of double spherical Bessel
 transforms

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 391986a..af97258 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From 8ae0a95fca849e06fbd873dc4685e436adec79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 43/55] fix: order sources of windows loaded from text files by
 multipole

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 5cba15d..f214d1f 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -995,7 +995,9 @@ class ThreePointWindow:
         paired_sampts = {}
         flat_multipoles = {}
         sources = []
-        for multipole, filepath in sorted(filepaths.items()):
+        for multipole, filepath in sorted(
+            filepaths.items(), key=lambda item: Multipole(item[0])
+        ):
             if subtract_shotnoise:
                 if len(usecols) != 4:
                     raise ValueError(
-- 
2.43.0


From 90e5c12eeff97327b127cabf26454374c8ca3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 44/55] fix: select no window samples up to a vanishing
 separation

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index f214d1f..dd0b8c0 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1168,7 +1168,7 @@ class ThreePointWindow:
             }
             for key, (rmin, rmax) in rrange.items():
                 rmin = rmin or 0.
-                rmax = rmax or np.inf
+                rmax = np.inf if rmax is None else rmax
                 select_range[Multipole(key)] = np.logical_and(
                     rmin <= self.r[Multipole(key)],
                     self.r[Multipole(key)] <= rmax
@@ -1176,7 +1176,7 @@ class ThreePointWindow:
         else:
             rmin, rmax = rrange
             rmin = rmin or 0.
-            rmax = rmax or np.inf
+            rmax = np.inf if rmax is None else rmax
             select_range = {
                 multipole: np.logical_and(
                     rmin <= self.r[multipole],
-- 
2.43.0


From 80f92379a97eb3ea918f93a910de8357aded463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 45/55] fix: return post-transform sample points of both
 dimensions of double spherical Bessel transforms

---
 src/triumvirate/transforms.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index af97258..510f84a 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -389,9 +389,13 @@ class DoubleSphericalBesselTransform:
 
         self._logres = self._fbsjt[self._rep]._logres
         self._pre_sampts = np.asarray(self._fbsjt[self._rep]._pre_sampts)
-        self._post_sampts = np.asarray(self._fbsjt[self._rep]._post_sampts)[
-            self._post_slice
-        ]
+        # The pivots, and thus the post-transform sample points, may differ
+        # between the dimensions under the low-ringing condition.
+        self._post_sampts_2d = tuple(
+            np.asarray(fbsjt_._post_sampts)[self._post_slice]
+            for fbsjt_ in self._fbsjt
+        )
+        self._post_sampts = self._post_sampts_2d[self._rep]
 
     @property
     def size(self):
@@ -447,9 +451,7 @@ class DoubleSphericalBesselTransform:
         post_samples = np.asarray(post_samples_T).T
         post_samples = post_samples[self._post_slice, self._post_slice]
 
-        post_sampts = np.meshgrid(
-            self._post_sampts, self._post_sampts, indexing='ij'
-        )
+        post_sampts = np.meshgrid(*self._post_sampts_2d, indexing='ij')
 
         return post_sampts, post_samples
 
-- 
2.43.0


From 106e5cd4d20f4b8ab5fd64b9d831fec03aae59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 46/55] fix: use sample points of both dimensions in bispectrum
 window convolution

---
 src/triumvirate/winconv.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index dd0b8c0..b5335d5 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2677,8 +2677,17 @@ class BispecWinConv(WinConvBase):
         # Backward transform bispectrum multipoles to 3PCF multipoles.
         zeta_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
-            _, zeta_in[multipole_Z] = self._bdsjt[multipole_Z].\
+            (r1_in, r2_in), zeta_in_pole = self._bdsjt[multipole_Z].\
                 transform_cosmo_multipoles(-1, B_in[multipole_Z])
+            # Sample points differ between the dimensions when the
+            # degrees of the transform do.
+            if multipole_Z[0] != multipole_Z[1]:
+                r_in = self.r_in[multipole_Z]
+                zeta_in_pole = RectBivariateSpline(
+                    r1_in[:, 0], r2_in[0, :], zeta_in_pole.real,
+                    kx=self.spline[0], ky=self.spline[0]
+                )(r_in, r_in)
+            zeta_in[multipole_Z] = zeta_in_pole
 
         # Perform 3PCF convolution.
         zeta_conv = self._winconv.convolve(zeta_in, ic=ic)
@@ -2688,16 +2697,17 @@ class BispecWinConv(WinConvBase):
         for multipole in self._formulae.multipoles:
             transformer = self._fdsjt[multipole]
 
-            k_conv = transformer._post_sampts
-            _, bk_conv_pole = transformer.transform_cosmo_multipoles(
-                1, zeta_conv[multipole]
-            )
+            (k1_conv, k2_conv), bk_conv_pole = \
+                transformer.transform_cosmo_multipoles(
+                    1, zeta_conv[multipole]
+                )
+            k1_conv, k2_conv = k1_conv[:, 0], k2_conv[0, :]
 
             B_conv_out[multipole] = RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.real,
+                k1_conv, k2_conv, bk_conv_pole.real,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out) + 1j * RectBivariateSpline(
-                k_conv, k_conv, bk_conv_pole.imag,
+                k1_conv, k2_conv, bk_conv_pole.imag,
                 kx=self.spline[-1], ky=self.spline[-1]
             )(self.k_out, self.k_out)
 
-- 
2.43.0


From 5da210bba710b3570b1bf03c1a591cbe0f1b8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 47/55] fix: place extended post-transform sample points over
 the extended input sample points

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..37e0bdb 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From 4298a0e1af07108e18eed25a55927899b892a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 48/55] fix: transform two samples as initialised

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 37e0bdb..928b7f8 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -350,7 +350,7 @@ void HankelTransform::biased_transform(
   int N = this->nsamp;
   int N_trans = this->nsamp_trans;
 
-  if (this->kernel.empty() || N <= 2 || N_trans <= 2) {
+  if (this->kernel.empty() || N < 2 || N_trans < 2) {
     throw std::runtime_error(
       "This instance of trv::maths::HankelTransform has not been "
       "initialised with `initialise`."
-- 
2.43.0


From cc41473d44fdea6386e0ffeb508e058df78aba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 49/55] fix: resize output array of spherical Bessel transforms

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 928b7f8..25622ac 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,7 +532,7 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-- 
2.43.0


From 3e9a1b0c5a0fb71dcad2f3695976428e3354f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:06 +0000
Subject: [PATCH 50/55] fix: keep the full output tag in the names of saved
 measurement files

---
 src/triumvirate/threept.py | 12 ++++++------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index df7ca83..ac57838 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -720,14 +720,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1601,14 +1601,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2085,14 +2085,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 9d376ee..66f81f0 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -645,14 +645,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1156,14 +1156,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1567,14 +1567,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 15be9e1e5d82445757b500d555f52fa278130904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 51/55] fix: accept standard loggers in clustering measurements

---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index ac57838..91aac34 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -600,8 +600,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -617,8 +616,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -679,8 +677,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -700,8 +697,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1497,8 +1493,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1512,8 +1507,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1563,8 +1557,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1581,8 +1574,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2045,8 +2037,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2065,8 +2056,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 66f81f0..f688925 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -523,8 +523,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -540,8 +539,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -605,8 +603,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -626,8 +623,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1053,8 +1049,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1068,8 +1063,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1119,8 +1113,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1137,8 +1130,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1529,8 +1521,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1548,8 +1539,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 042b32fc0f454a4686d832fea403ec34dbb1b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:29 +0000
Subject: [PATCH 52/55] fix: name wide-angle window measurements by their
 correction orders

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 91aac34..984e755 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1934,7 +1934,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From 041b505105ee2833fe13b4685f4640bde64eedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 53/55] fix: reject samples of the wrong size in the Hankel
 transform

---
 src/triumvirate/_fftlog.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..372c3f5 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -119,7 +119,18 @@ cdef class HankelTransform:
         y, gy : array_like
             Post-transform sample points and samples.
 
+        Raises
+        ------
+        ValueError
+            When the size of `fx` differs from the number of sample points
+            initialised.
+
         """
+        if len(fx) != self._nsamp:
+            raise ValueError(
+                "The size of `fx` must be equal to the number of samples."
+            )
+
         fx_ = fx.astype(np.complex128)
         gy_ = np.zeros_like(fx, dtype=np.complex128)
         self._transform(fx_, gy_)
-- 
2.43.0


From 19553920aa9bacd250df19b5c04e9bbf7a509af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 54/55] fix: require the bin index for every spelling of the
 form

---
 src/triumvirate/parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4015684..f04d157 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -494,7 +494,7 @@ cdef class ParameterSet:
 
         if (form_ := self._params.get('form')) is not None:
             self.thisptr.form = form_.lower().encode('utf-8')
-            if form_ in {'off-diag', 'row'} \
+            if form_.lower() in {'off-diag', 'row'} \
                     and self._params.get('idx_bin') is None:
                 raise InvalidParameterError(
                     "`idx_bin` parameter must be set "
-- 
2.43.0


From 1065f1e0fa5c70a1f3f0536f051367073a65eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 55/55] fix: save parameter sets that can be read back

---
 src/triumvirate/parameters.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index f04d157..5aca9fb 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -418,17 +418,17 @@ cdef class ParameterSet:
 
         # Attribute derived parameters.
         try:
-            self._params['volume'] = np.prod(list(
+            self._params['volume'] = float(np.prod(list(
                 self._params['boxsize'].values()
-            ))
+            )))
         except TypeError:
             self._params['volume'] = 0.
         self.thisptr.volume = self._params['volume']
 
         try:
-            self._params['nmesh'] = np.prod(list(
+            self._params['nmesh'] = int(np.prod(list(
                 self._params['ngrid'].values()
-            ))
+            )))
         except TypeError:
             self._params['nmesh'] = 0
         self.thisptr.nmesh = self._params['nmesh']
-- 
2.43.0

