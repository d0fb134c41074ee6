From 01c5cb7e405441c605a2d8487e4cde74b2ab42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 1/8] fix: no wrap-around in the correlations when
 filter_length exceeds n_samples

---
 fast_bss_eval/numpy/metrics.py | 6 ++++--
 fast_bss_eval/torch/metrics.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..6bf616a 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the filter may be longer than the signals, the lags used must not wrap around
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +164,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the filter may be longer than the signals, the lags used must not wrap around
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..c08361f 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -108,7 +108,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the filter may be longer than the signals, the lags used must not wrap around
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -159,7 +160,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the filter may be longer than the signals, the lags used must not wrap around
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From 48abc1e0c8c780a9d36b48e6a8682e5670f61d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 2/8] fix: permutation solver crashed when all the losses are
 infinite

---
 fast_bss_eval/numpy/helpers.py | 3 +++
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..6530e43 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,6 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
+        if values.size == 0:
+            # all entries are infinite, all the assignments are equivalent
+            values = np.zeros_like(cost_matrix, shape=(1,))
         m = values.min()
         M = values.max()
         n = min(cost_matrix.shape)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..0ddb93a 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # all entries are infinite, all the assignments are equivalent
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From f70c988d92992420c090b94350111ebe2ed4e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 3/8] fix: float32 input gave float64 output with use_cg_iter,
 or load_diag and filter_length=1 (numpy)

---
 fast_bss_eval/numpy/cgd.py     | 3 +++
 fast_bss_eval/numpy/metrics.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..3ae4c2b 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -354,6 +354,9 @@ def conjugate_gradient(
         if x_true is not None:
             errors.append(np.mean(np.linalg.norm(x - x_true, axis=-2)))
 
+    # numpy's FFT always works in double precision
+    x = x.astype(b.dtype, copy=False)
+
     if add_axis:
         x = x[..., 0]
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 6bf616a..3620fd1 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From fdfb82e82e7ee5d95c97662ba7fb18a2e7013381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 4/8] fix: clamp_db was not enforced in single precision for
 large values

---
 fast_bss_eval/numpy/helpers.py | 5 +++++
 fast_bss_eval/torch/helpers.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 6530e43..3240523 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -65,6 +65,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may be rounded up to 1 in single precision
+        r_max = 10.0 ** (clamp_db / 10.0)
+        ratio = clamp(ratio, min=1.0 / r_max, max=r_max)
+
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
 
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 0ddb93a..e87a9aa 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -59,6 +59,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # 1 - eps may be rounded up to 1 in single precision
+        r_max = 10.0 ** (clamp_db / 10.0)
+        ratio = torch.clamp(ratio, min=1.0 / r_max, max=r_max)
+
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
 
-- 
2.43.0


From 1c6b9a0a9fb666148aeef344297eca98393eadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 5/8] fix: load_diag with filter_length=1 was rounded to single
 precision (torch)

---
 fast_bss_eval/torch/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index c08361f..7aef2c8 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,8 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            eye = torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+            acm = acm + eye * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 7e5a68ee0a17b9b9209b0f49f9b575848f9fa955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 6/8] fix: a rejected cost matrix was printed to standard
 output (torch)

---
 fast_bss_eval/torch/helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index e87a9aa..84ce62a 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -138,7 +138,6 @@ def _linear_sum_assignment_with_inf(
             max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
 
         if min_inf and max_inf:
-            print(cost_matrix)
             raise ValueError("matrix contains both inf and -inf")
 
         if min_inf or max_inf:
-- 
2.43.0


From 39481e4d87d6a799925e6dfbc45dde52c4ad3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 7/8] fix: no overflow in the gradient of the decibel mapping
 for small coherences (torch)

---
 fast_bss_eval/torch/helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 84ce62a..942787d 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -57,15 +57,15 @@ def _coherence_to_neg_sdr(
         eps = 0.0
     coh = torch.clamp(coh, min=eps, max=1 - eps)
 
-    ratio = (1 - coh) / coh
+    # difference of logarithms rather than logarithm of the ratio, because the
+    # gradient of the ratio (i.e., 1 / coh ** 2) overflows for small coh
+    neg_sdr = 10.0 * (torch.log10(1 - coh) - torch.log10(coh))
 
     if clamp_db is not None:
         # 1 - eps may be rounded up to 1 in single precision
-        r_max = 10.0 ** (clamp_db / 10.0)
-        ratio = torch.clamp(ratio, min=1.0 / r_max, max=r_max)
+        neg_sdr = torch.clamp(neg_sdr, min=-clamp_db, max=clamp_db)
 
-    # apply the SDR mapping
-    return 10.0 * torch.log10(ratio)
+    return neg_sdr
 
 
 def _solve_permutation(
-- 
2.43.0


From 2ecde92f26c2af2bd7d13d62cf3e0d4be12724fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 8/8] fix: the iterative solver works for single precision
 tensors when torch's default dtype is double

---
 fast_bss_eval/torch/cgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..0a91808 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,7 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device) / n
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +63,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / n
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
-- 
2.43.0

