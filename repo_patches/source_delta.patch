From ee861cb88e981255f8c02e83e3f98094a8d69ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 01/31] fix: 1-D inverse DCT left its input vector altered by
 rounding

---
 src/dct1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..5a51113 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -179,15 +179,17 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  // Leave the input vector unchanged.
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
+  x[0] = x0_tmp; // undo scaling
+
   // normalize
   for (int i = 0; i < dct_m; i++) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
-
-  x[0] = x[0] / sqrt(2.0); // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0


From 103202ee2423b5d5b57f9431e30737ce77447419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 02/31] fix: failed dct1 set-up destroyed the plans of an
 earlier set again

---
 src/dct1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dct1.c b/src/dct1.c
index 5a51113..83debb9 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -101,6 +101,10 @@ int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_f
   fftw_plan_with_nthreads(n_thread);
 #endif
 
+  /* The failure path must not see handles from an earlier, destroyed set. */
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
+
   dct_Ety_sparse = l1c_calloc_double(m);
   dct_x = l1c_calloc_double(m);
   dct_y = l1c_calloc_double(m);
-- 
2.43.0


From 70d94ac47231a635a032e2d91f614091e5b041f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 03/31] fix: failed dct2 set-up leaked its buffers and plan

---
 src/dct2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..3d0210f 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -125,6 +125,10 @@ int l1c_dct2_setup(
 #endif
 
   l1c_int i = 0;
+  /* The failure path must not see handles from an earlier, destroyed set. */
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
+
   dct2_Ety_sparse = l1c_malloc_double(mrow * mcol);
   dct2_x = l1c_malloc_double(mrow * mcol);
   dct2_y = l1c_malloc_double(mrow * mcol);
@@ -188,7 +192,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From a0c728d0fbe6eabd5c7a3a16331899f334f417e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 04/31] fix: rejected dctTV set-up overwrote the settings of
 the live transforms

---
 src/dct_tv_transforms.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..843cf6e 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -69,16 +69,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                BpMode bp_mode,
                                l1c_int* pix_idx,
                                l1c_AxFuns* ax_funs) {
-  jobs = 0;
   int status = L1C_SUCCESS;
-  _mrow = mrow;
-  _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
-  _alp_v = alp_v;
-  _alp_h = alp_h;
-  _inc_TVV = 0;
-  _inc_TVH = 0;
 
   if (n <= 0 || mrow <= 0 || mcol <= 0 || alp_v < 0 || alp_h < 0) {
     return L1C_INVALID_ARGUMENT;
@@ -92,6 +83,17 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* Only a valid request may replace the settings of the current transforms. */
+  jobs = 0;
+  _mrow = mrow;
+  _mcol = mcol;
+  _m = mrow * mcol;
+  _p = _m;
+  _alp_v = alp_v;
+  _alp_h = alp_h;
+  _inc_TVV = 0;
+  _inc_TVH = 0;
+
   /* For a matrix A=[M1; M2], ||A|| = ||A^TA||^1/2 = ||M_1^TM_1  +  M_2^TM_2||^1/2
     Thus,
     ||A|| <= \sqrt{ ||M_1||^2 + ||M_2||^2 }
-- 
2.43.0


From c17fb38e73ee3c8030b9b0b878de645237120932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 05/31] fix: dctTV transforms did not provide the normal
 operator AtAx

---
 src/dct_tv_transforms.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 843cf6e..68b1a85 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAv(double* v, double* z);
+static void RtRx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -31,6 +33,7 @@ static double _alp_v;
 
 static l1c_AxFuns ax_funs_local;
 static double* u;
+static double* y_work; // Length n, for the normal operators.
 static l1c_int _inc_TVH, _inc_TVV;
 static unsigned jobs;
 
@@ -135,8 +138,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
   u = l1c_malloc_double(_p);
 
-  if (!u) {
-    return L1C_OUT_OF_MEMORY;
+  y_work = l1c_malloc_double(n);
+
+  if (!u || !y_work) {
+    status = L1C_OUT_OF_MEMORY;
+    goto fail;
   }
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
@@ -150,6 +156,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -159,6 +166,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -169,12 +177,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
 fail:
   l1c_free_double(u);
+  l1c_free_double(y_work);
   return status;
 }
 
 static void destroy() {
   ax_funs_local.destroy();
   l1c_free_double(u);
+  l1c_free_double(y_work);
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(_m, x, 1, z, 1); }
@@ -240,6 +250,16 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+static void AtAv(double* v, double* z) {
+  Av(v, y_work);
+  Aty(y_work, z);
+}
+
+static void RtRx(double* x, double* z) {
+  Rx(x, y_work);
+  Rty(y_work, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From abae0979f030d987dd4e5ba43fc8f134972ea5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 06/31] fix: matrix transforms advertised norm 0 for the
 identity W

---
 src/matrix_transforms.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/matrix_transforms.c b/src/matrix_transforms.c
index 77c72fd..1402783 100644
--- a/src/matrix_transforms.c
+++ b/src/matrix_transforms.c
@@ -31,8 +31,8 @@ double* xfm_dwork = NULL;
  * @warning   Do not free `A` until you are done.
  *
  *
- * @note the ax_funs fields .Mx, .Mty, .Ex, .Ety and .data will be NULL on
- * exit. Additionally, .norm_M=0, and .n=n, .m=.p=m
+ * @note M and W are the identity, R=A, and .data will be NULL on
+ * exit. Additionally, .norm_W=1, and .n=n, .m=.p=.q=m
  */
 int l1c_setup_matrix_transforms(l1c_int n, l1c_int m, double* A, l1c_AxFuns* ax_funs) {
 
@@ -59,9 +59,8 @@ int l1c_setup_matrix_transforms(l1c_int n, l1c_int m, double* A, l1c_AxFuns* ax_
   ax_funs->p = m;
   ax_funs->q = m;
 
-  /** We dont populate M, so norm is "zero". If wed rather replace Mx
-      with the identity, then it would make sense to change this to 1.!*/
-  ax_funs->norm_W = 0;
+  /* W is the identity. */
+  ax_funs->norm_W = 1;
 
   ax_funs->Ax = Ax;
   ax_funs->Aty = Aty;
-- 
2.43.0


From 1fcd4e381840dfdc2ad7da549620d45c8d16d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 07/31] fix: nesta printed a debug line to standard output

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..ae69b57 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -371,7 +371,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From a63fbca9d9f9bdeed2c3ee9844ecc977ba93173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 08/31] fix: nesta leaked its problem instance when its set-up
 failed

---
 src/nesta.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nesta.c b/src/nesta.c
index ae69b57..a05ad58 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -384,6 +384,7 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
-- 
2.43.0


From c7e553c19e1900b6a2c3f9973467f5a473b9b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 09/31] fix: nesta did not check the allocation of its
 running-mean buffer

---
 src/nesta.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index a05ad58..b920b2e 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -43,11 +43,8 @@
    fvals initialized to zero.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
-  double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
-
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
-    fvals[i] = 0.0;
-  }
+  /* Aligned, since it is cleared with l1c_init_vec(). NULL if out of memory. */
+  double* fvals = l1c_calloc_double(L1C_NESTA_NMEAN);
 
   struct l1c_fmean_fifo fifo = {.f_vals = fvals, .n_total = 0, .next = fvals};
   return fifo;
@@ -389,6 +386,10 @@ int l1c_nesta(l1c_int m,
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
@@ -458,6 +459,6 @@ int l1c_nesta(l1c_int m,
 
   cblas_dcopy(m, NP->xk, 1, xk, 1);
   l1c_free_nesta_problem(NP);
-  free(fbar_fifo.f_vals);
+  l1c_free_double(fbar_fifo.f_vals);
   return status;
 }
-- 
2.43.0


From a089e2e7f0bfc2015666b7bbfd4a52178305daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 10/31] fix: nesta set-up took absolute values of only m of the
 p dictionary coefficients

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index b920b2e..95b46c8 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -298,7 +298,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From fa88f640ca7d2a492443e6e567ddcc1bde66505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:57 +0000
Subject: [PATCH 11/31] fix: nesta returned NaN for a zero measurement vector

---
 src/nesta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nesta.c b/src/nesta.c
index 95b46c8..d5976da 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -300,6 +300,10 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
   l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
+  if (mu0 == 0) {
+    /* b=0: there is nothing to continue from. */
+    mu0 = mu_final;
+  }
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
    */
-- 
2.43.0


From 5d4d838091db1ad8eacfd389e6589ff019d1b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 12/31] fix: l1qc_newton freed uninitialised pointers when its
 first allocation failed

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From e164deff3f4bf87bb860f14a895bc87757841ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 13/31] fix: l1qc_dct reported around the installed printer

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From fd5c1b0d8859ddc83194b32bdc96349905cecd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 14/31] fix: preconditioned CG compared residuals with the
 preconditioned residual of the start

---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..bd51684 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 9ade71dbd02fc1cb45f2e0dec163318569ad8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 15/31] fix: TV denoising accessed memory out of bounds for
 images with fewer than two rows or columns

---
 src/bregman.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bregman.c b/src/bregman.c
index b43ffc9..f7f719c 100644
--- a/src/bregman.c
+++ b/src/bregman.c
@@ -366,6 +366,11 @@ int l1c_breg_anistropic_TV(l1c_int n,
   double *dwork1 = NULL, *dwork2 = NULL, *rhs = NULL;
   double *Dxu_b = NULL, *Dyu_b = NULL;
 
+  /* The boundary stencils need at least two rows and columns. */
+  if (n < 2 || m < 2) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   uk_1 = l1c_calloc_double(N);
   d_x = l1c_calloc_double(N);
   d_y = l1c_calloc_double(N);
-- 
2.43.0


From b8991e7f1a0ce43e037a016fabca796b7e87f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 16/31] fix: load_file_to_json reported success for malformed
 files

---
 src/json_utils.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..c797368 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -59,12 +59,9 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   free(file_data);
 
-  if (data_json == NULL) {
-    const char* error_ptr = cJSON_GetErrorPtr();
-    if (error_ptr != NULL) {
-      fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
-    }
+  if (*data_json == NULL) {
+    fprintf(stderr, "Error parsing %s\n", fname);
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From e03797737428ceb1b728f3c1e53b5828484035dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 17/31] fix: load_file_as_text leaked its buffer when the read
 failed

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index c797368..fbe3c90 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -45,6 +45,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 8e6b5275a0850ca11b8f6a1ee7696ca97d3c0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:58 +0000
Subject: [PATCH 18/31] fix: extract_json_int_array did not check its
 allocation

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index fbe3c90..cfe2ed6 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -158,6 +158,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x && *N > 0) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From 7f05d2ed28907361a121c321219a04a04d677fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:57 +0000
Subject: [PATCH 19/31] fix: load_file_as_text crashed when given a directory

---
 src/json_utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index cfe2ed6..8119e78 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -2,6 +2,7 @@
 
 #include <cjson/cJSON.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,7 +20,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,6 +31,12 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
+  if (file_len < 0 || file_len == LONG_MAX) { /* Not a regular file. */
+    fprintf(stderr, "Cannot determine the length of %s\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
+
   *file_data = calloc(file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
-- 
2.43.0


From c810915a3ad3a8b67cd1b088e8406d65f09f2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 20/31] fix: Python functions leaked a reference to every array
 they returned

---
 interfaces/python/l1cPy.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..c721f65 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +319,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return uk_out_npA;
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +460,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From 84d73951fd3aec16b0cfc9fb016b4c3eefcff059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 21/31] fix: Python breg_anistropic_TV leaked a buffer when an
 allocation failed

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index c721f65..aa71eaf 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -298,7 +298,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From 03cfea9096a906c4a9ab288029e0075640eecf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 22/31] fix: Python nesta_dctTV never released its transforms

---
 interfaces/python/l1cPy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index aa71eaf..a97727f 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -446,6 +446,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
-- 
2.43.0


From 90db6614d938a790083a8de046d604d010686718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 23/31] fix: Python nesta_dctTV returned DCT coefficients
 instead of the image in synthesis mode

---
 interfaces/python/l1cPy.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index a97727f..abf9af0 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -333,7 +333,7 @@ fail1:
 
 static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   (void)self;
-  double *x_ours = NULL, *b = NULL, *b_ours = NULL;
+  double *x_ours = NULL, *f_ours = NULL, *b = NULL, *b_ours = NULL;
 
   PyObject *b_obj = NULL, *pix_idx_obj = NULL, *x_out_npA = NULL;
 
@@ -430,9 +430,9 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   pix_idx = (int*)PyArray_DATA(pix_idx_npA);
 
   /* Allocate memory for M*xk=f */
-  x_ours = l1c_calloc_double(mtot);
+  f_ours = l1c_malloc_double(mtot);
   b_ours = l1c_malloc_double(n);
-  if (!x_ours || !b_ours) {
+  if (!f_ours || !b_ours) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
     goto fail;
   }
@@ -445,13 +445,21 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
     goto fail;
   }
 
+  x_ours = l1c_calloc_double(ax_funs.m);
+  if (!x_ours) {
+    ax_funs.destroy();
+    PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
+    goto fail;
+  }
+
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  ax_funs.Mx(x_ours, f_ours); // A straight copy in analysis mode.
   ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
 
-  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, x_ours);
+  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, f_ours);
   if (!x_out_npA)
     goto fail;
 
@@ -460,12 +468,14 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
+  l1c_free_double(f_ours);
 
   return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
   l1c_free_double(x_ours);
+  l1c_free_double(f_ours);
   l1c_free_double(b_ours);
   Py_XDECREF(b_npA);
   Py_XDECREF(pix_idx_npA);
-- 
2.43.0


From ce03b983c8b4e8dd803629f06b667bdc1ed67715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 24/31] fix: mex breg_anistropic_TV scrambled non-square images

---
 interfaces/mex/breg_anistropic_TV_mex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..c34c68f 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -63,13 +63,14 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  /* Column major N by M is row major M by N. */
+  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From 3042924716552b49c42896e81d7e2cb7546c624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 25/31] fix: mex breg_anistropic_TV leaked a buffer when an
 allocation failed

---
 interfaces/mex/breg_anistropic_TV_mex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c34c68f..5a8f6b7 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -59,8 +59,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
+    l1c_free_double(f_ours);
+    l1c_free_double(uk);
     mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
-    goto exit;
+    return;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
   /* Column major N by M is row major M by N. */
-- 
2.43.0


From 066b5e267fdd6e99327f35718849a6e47d2e62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 26/31] fix: mex l1qc_dct ignored the dct_mode option

---
 interfaces/mex/l1qc_dct_mex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..0eeca79 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -93,6 +93,11 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   l1qc_opts.cg_maxiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "cgmaxiter");
   l1qc_opts.lbiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "lbiter");
 
+  if (mxGetField(prhs[4], 0, "dct_mode")) {
+    l1qc_opts.dct_mode =
+        (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
+  }
+
   if (l1qc_opts.verbose > 0) {
     l1c_printf("Input Parameters\n---------------\n");
     l1c_printf("   verbose:         %d\n", l1qc_opts.verbose);
-- 
2.43.0


From f416f3438b0f1ca086987711c18a21d2e6e79855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 27/31] fix: mex l1qc_dct and nesta_dctTV returned
 uninitialised memory when the solver failed

---
 interfaces/mex/l1qc_dct_mex.c    | 2 +-
 interfaces/mex/nesta_dctTV_mex.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 0eeca79..edb0b0b 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -118,7 +118,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* We are going to change x, so we must allocate and make a copy, so we
      dont change data in Matlabs workspace.
   */
-  x_ours = l1c_malloc_double(mrow * mcol);
+  x_ours = l1c_calloc_double(mrow * mcol);
   pix_idx = calloc(n, sizeof(l1c_int));
   if (!x_ours || !pix_idx) {
     status = L1C_OUT_OF_MEMORY;
diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..7e08dca 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -124,7 +124,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit1;
   }
 
-  x0 = l1c_malloc_double(ax_funs.m);
+  x0 = l1c_calloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
   if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
     status = L1C_OUT_OF_MEMORY;
-- 
2.43.0


From 97cb41924f8fbc558361e448e38a9feb27e0a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:36 +0000
Subject: [PATCH 28/31] fix: mex nesta_dctTV did not check an allocation and
 leaked its transforms when another failed

---
 interfaces/mex/nesta_dctTV_mex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 7e08dca..5dc380b 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (!pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -126,7 +130,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   x0 = l1c_calloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
+    ax_funs.destroy();
     status = L1C_OUT_OF_MEMORY;
     goto exit1;
   }
-- 
2.43.0


From 9a13aaffe0b7414a1845e31e8f4138edefe20ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:48 +0000
Subject: [PATCH 29/31] fix: l1qc_newton stopped one Newton iteration early and
 reported it as done

---
 src/l1qc_newton.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 5d094d5..c8edbcb 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -496,7 +496,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
     l1_prev = INFINITY;
     /* ---------------- MAIN Newton ITERATION --------------------- */
-    for (iter = 1; iter < +params.newton_max_iter; iter++) {
+    for (iter = 1; iter <= params.newton_max_iter; iter++) {
 
       /* Setup warm start for CG solver.
          warm_start_cg ==1 means we use dx itself, ie., a NOP.
@@ -574,7 +574,8 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
     } /* Newton iter*/
 
     /* ----- Update tau ------ */
-    lb_res.total_newton_iter += iter;
+    /* iter is one past the limit if the loop above was not left early. */
+    lb_res.total_newton_iter += (iter > params.newton_max_iter) ? iter - 1 : iter;
 
     params.tau = params.tau * params.mu;
     l1qc_prob.tau = params.tau;
-- 
2.43.0


From b871ec481a330b036fccc0d5563056347228cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:17 +0000
Subject: [PATCH 30/31] fix: l1qc_newton took a start whose residual is not a
 number for a feasible one

---
 src/l1qc_newton.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index c8edbcb..1d2f844 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -325,7 +325,8 @@ int _l1c_l1qc_check_feasible_start(l1c_l1qcProb* Prb, double* x) {
   cblas_daxpy(Prb->n, -1.0, b, 1, DWORK, 1);
 
   double tmp = cblas_dnrm2(Prb->n, DWORK, 1) - epsilon;
-  if (tmp > 0) {
+  /* Written so that a residual of NaN is not taken for a feasible one. */
+  if (!(tmp <= 0)) {
     /* Using minimum-2 norm  x0 = At*inv(AAt)*y.') as they
        will require updates to cgsolve.    */
     return L1C_INFEASIBLE_START;
-- 
2.43.0


From 5b5acb8d4b372cb5c6b935ab1fc51ee0d9064db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 31/31] fix: l1qc_newton returned the start as solved when the
 tolerance was loose

The number of barrier iterations computed from lbtol is zero or negative
when lbtol is at least (2m+1)/tau. As tau is clamped to one, this says
nothing about a start with a large 1-norm, which was returned unchanged
with status 0. Perform one barrier iteration at least.
---
 src/l1qc_newton.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 1d2f844..11b4165 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -309,7 +309,8 @@ int _l1c_l1qc_newton_init(l1c_int m, double* x, double* u, l1c_L1qcOpts* params)
   /* If user has set lbiter, dont compute a different one. */
   if (params->lbiter == 0) {
     tmp = log(2 * (double)m + 1) - log(params->lbtol) - log(params->tau);
-    params->lbiter = (int)ceil(tmp / log(params->mu));
+    /* The start is not centered: a loose tolerance takes one iteration too. */
+    params->lbiter = max((int)ceil(tmp / log(params->mu)), 1);
   }
   return 0;
 }
-- 
2.43.0

