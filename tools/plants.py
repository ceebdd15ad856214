#!/usr/bin/env python3
from plantlib import plant

plant("dct2-mty-nonsquare", "C01", [("src/dct2.c",
"""  // Down the rows of the first column.
  cblas_dscal(dct2_mrow - 1, one_by_root2, x + dct2_mcol, dct2_mcol);
}

/*
  Computes y = M * x
 */""",
"""  // Down the rows of the first column.
  cblas_dscal(dct2_mcol < dct2_mrow ? dct2_mcol - 1 : dct2_mrow - 1, one_by_root2, x + dct2_mcol, dct2_mcol);
}

/*
  Computes y = M * x
 */""")], "an image with more rows than columns, and the full adjoint Mty",
"Mty is no longer the transpose of Mx: the lower part of the first column is scaled by sqrt(2)", r'''
int main(void) {
  int pix[2] = {3, 7}; l1c_AxFuns f; int r = 5, c = 3, m = 15;
  if (l1c_setup_dct_transforms(2, r, c, dct2, pix, &f)) return 2;
  double *x = l1c_malloc_double(m), *y = l1c_malloc_double(m), *mx = l1c_malloc_double(m), *mty = l1c_malloc_double(m);
  for (int i = 0; i < m; i++) { x[i] = gen(i); y[i] = gen(i + 40); }
  f.Mx(x, mx); f.Mty(y, mty);
  double a = cblas_ddot(m, mx, 1, y, 1), b = cblas_ddot(m, x, 1, mty, 1);
  return close_(a, b, 1e-10) ? 0 : bad("<Mx,y> != <x,Mty>");
}''')

plant("dct1-mty-scratch", "C04", [("src/dct1.c",
"  fftw_execute_r2r(dct_plan_MtEty, y, x_a); //  M^T * dct_y_sparse",
"""  cblas_dcopy(dct_m, y, 1, dct_Ety_sparse, 1);
  fftw_execute_r2r(dct_plan_MtEty, dct_Ety_sparse, x_a); //  M^T * dct_y_sparse""")],
"a call of Mty before Aty or AtAx on the same set", "Mty leaves the full image in the zero-filled scratch buffer, so later Aty/AtAx results contain unsampled pixels", r'''
int main(void) {
  int pix[2] = {3, 1}; l1c_AxFuns f; int m = 6;
  if (l1c_setup_dct_transforms(2, m, 1, dct1, pix, &f)) return 2;
  double *x = l1c_malloc_double(m), *y = l1c_malloc_double(m), *a1 = l1c_malloc_double(m), *a2 = l1c_malloc_double(m);
  for (int i = 0; i < m; i++) { x[i] = gen(i); y[i] = gen(i + 40); }
  f.Aty(y, a1); f.Mty(x, a2); f.Aty(y, a2);
  for (int i = 0; i < m; i++) if (!close_(a1[i], a2[i], 1e-12)) return bad("Aty changed after Mty");
  return 0;
}''')

plant("dcttv-inc", "C02", [("src/dct_tv_transforms.c",
"    _inc_TVH = _inc_TVV + _m;", "    _inc_TVH = 2 * _m; /* behind the DCT and the vertical part */")],
"a horizontal weight together with a zero vertical weight", "the horizontal block is read and written behind the end of the coefficient vector", r"""
int main(void) {
  int pix[2] = {3, 1}; l1c_AxFuns f; int r = 4, c = 4, m = r * c;
  if (l1c_setup_dctTV_transforms(2, r, c, 0.0, 1.5, dct2, analysis, pix, &f)) return 2;
  if (f.p != 2 * m) return bad("p");
  double *x = l1c_malloc_double(m), *z = l1c_calloc_double(4 * m);
  for (int i = 0; i < m; i++) x[i] = gen(i);
  for (int i = 0; i < 4 * m; i++) z[i] = -99;
  f.Wtx(x, z);
  for (int i = 2 * m; i < 4 * m; i++) if (z[i] != -99) return bad("Wtx wrote more than p coefficients");
  for (int i = 0; i < r; i++) if (!close_(z[m + i * c], -1.5 * x[i * c], 1e-12)) return bad("horizontal block missing");
  return 0;
}""")

plant("matrix-tall-work", "C03", [("src/matrix_transforms.c",
"  int L = n > m ? n : m;", "  int L = m; /* AtAx maps R^m to R^m. */")],
"a matrix with more rows than columns", "AtAx writes n elements into a work array of m elements", r'''
#define L1CN 4000
int main(void) {
  int n = L1CN, m = 1; l1c_AxFuns f; double *A = l1c_malloc_double(n * m), x[1] = {1}, z[1];
  for (int i = 0; i < n; i++) A[i] = 1;
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  double* after[64]; for (int k = 0; k < 64; k++) { after[k] = l1c_malloc_double(8); for (int j = 0; j < 8; j++) after[k][j] = -7; }
  f.AtAx(x, z);
  for (int k = 0; k < 64; k++) for (int j = 0; j < 8; j++) if (after[k][j] != -7) return bad("AtAx overwrote another array");
  return close_(z[0], n, 1e-12) ? 0 : bad("wrong AtAx");
}''')

plant("pix-check-ends", "C05", [("src/dct_transforms.c",
"""  for (int i = 0; i < n; i++) {
    idx = pix_idx[i];""",
"""  /* The indeces are ordered: it suffices to look at the first and the last. */
  for (int i = 0; i < n; i += (n > 1 ? n - 1 : 1)) {
    idx = pix_idx[i];""")], "an unordered pixel list whose out-of-range index is neither first nor last",
"an out-of-range pixel index is accepted", r'''
int main(void) {
  int pix[3] = {0, 99, 2}; l1c_AxFuns f;
  if (l1c_setup_dct_transforms(3, 3, 3, dct2, pix, &f) == L1C_SUCCESS) return bad("index 99 of a 3x3 image accepted");
  int ok[3] = {4, 0, 2};
  return l1c_setup_dct_transforms(3, 3, 3, dct2, ok, &f) ? bad("valid list rejected") : 0;
}''')

plant("malloc2d-fail", "C06", [("src/l1c_memory.c",
"""  for (k = 0; k < nrow; k++) {
    dwork[k] = NULL;
  }

""", "")], "an allocation failure while the rows of a 2-D array are allocated", "uninitialised row pointers are freed", r'''
#include <errno.h>
static int left = -1, oom, foreign; static void* got[256]; static int ngot;
extern void* __libc_memalign(size_t, size_t); extern void* __libc_malloc(size_t); extern void __libc_free(void*);
static int watch;
int posix_memalign(void** p, size_t a, size_t n) { if (watch && left-- == 0) return ENOMEM; *p = __libc_memalign(a, n); if (watch) got[ngot++] = *p; return 0; }
void* malloc(size_t n) { void* p = __libc_malloc(n); if (watch) { memset(p, 0x5a, n); got[ngot++] = p; } return p; }
void free(void* p) { if (watch && p) { int k; for (k = 0; k < ngot && got[k] != p; k++); if (k == ngot) { foreign = 1; return; } got[k] = 0; } __libc_free(p); }
int main(void) {
  for (int k = 0; k < 5; k++) {
    ngot = 0; left = k; watch = 1;
    double** d = l1c_malloc_double_2D(5, 4);
    watch = 0;
    if (d) return bad("allocation did not fail");
    if (foreign) return bad("freed a pointer that was never allocated");
    for (int i = 0; i < ngot; i++) if (got[i]) return bad("leak");
  }
  return 0;
}''', cf="-rdynamic")

plant("logsum-pairs", "C07", [("src/vcl/vcl_math.cpp",
"""  for (i = 0; i < regularpart; i += VECTORSIZE) {
    xvec.load_a(x + i);
    sum_vec += vcl::log(xvec * alpha);
  }
  // }""",
"""  for (i = 0; i + VECTORSIZE < regularpart; i += 2 * VECTORSIZE) {
    // log(a) + log(b) = log(a*b): saves every second logarithm
    Vec4d xnext;
    xvec.load_a(x + i);
    xnext.load_a(x + i + VECTORSIZE);
    sum_vec += vcl::log((xvec * alpha) * (xnext * alpha));
  }
  for (; i < regularpart; i += VECTORSIZE) {
    xvec.load_a(x + i);
    sum_vec += vcl::log(xvec * alpha);
  }
  // }""")], "two negative arguments exactly four positions apart", "the log-sum of negative arguments is a number instead of NaN, so infeasible points look feasible", r'''
double vcl_logsum(int, double, double*);
int main(void) {
  double* x = l1c_malloc_double(16); for (int i = 0; i < 16; i++) x[i] = 1 + i;
  x[1] = -2; x[5] = -3;
  return isnan(vcl_logsum(16, 1.0, x)) ? 0 : bad("log-sum of negative values is not NaN");
}''')

plant("dy-zero-row", "C08", [("src/TV.c",
"""  for (int i = (n - 1) * m; i < n * m; i++) {
    Dy[i] = 0;""",
"""  for (int i = (n - 1) * m; i < n * m - (m & 1 && n == 2); i++) {
    Dy[i] = 0;""")], "an image with exactly two rows and an odd number of columns, and an output array that is not zero", "the last element of the vertical difference is not written", r'''
#include "TV.h"
int main(void) {
  double X[6] = {1, 2, 3, 5, 7, 11}, D[6] = {9, 9, 9, 9, 9, 9};
  l1c_Dy(2, 3, 1.0, X, D);
  double w[6] = {4, 5, 8, 0, 0, 0};
  for (int i = 0; i < 6; i++) if (D[i] != w[i]) return bad("Dy wrong");
  return 0;
}''')

plant("cg-last-iterate", "C10", [("src/cgsolve.c",
"""    rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);

    if (rel_res < best_rel_res) {
      // bestx = x;
      cblas_dcopy((int)N, x, 1, bestx, 1);
      best_rel_res = rel_res;
    }""",
"""    rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);

    if (rel_res < best_rel_res) {
      // bestx = x;
      if (iter < cg_params.max_iter) {
        cblas_dcopy((int)N, x, 1, bestx, 1);
      }
      best_rel_res = rel_res;
    }""")], "the preconditioned solver stops at its iteration limit while still improving", "the reported residual belongs to a better point than the one returned", r'''
static void AX(l1c_int n, double* x, double* y, void* d) { for (int i = 0; i < n; i++) y[i] = (i + 1) * x[i] + 0.1 * x[(i + 1) % n] + 0.1 * x[(i + n - 1) % n]; }
int main(void) {
  int n = 8; double *x = l1c_calloc_double(n), *b = l1c_malloc_double(n), *M = l1c_malloc_double(n), *r = l1c_malloc_double(n);
  for (int i = 0; i < n; i++) { b[i] = gen(i); M[i] = 1; }
  double** w = l1c_malloc_double_2D(5, n); l1c_CgResults res; l1c_CgParams p = {.verbose = 0, .max_iter = 3, .tol = 1e-14};
  l1c_cgsolve_diag_precond(n, x, b, M, w, AX, 0, &res, p);
  AX(n, x, r, 0); for (int i = 0; i < n; i++) r[i] = b[i] - r[i];
  double t = cblas_dnrm2(n, r, 1) / cblas_dnrm2(n, b, 1);
  return close_(t, res.cgres, 1e-9) ? 0 : bad("reported residual is not that of the returned point");
}''')

plant("ls-fx-hoist", "C11", [("src/linesearch.c",
"""    if (f_val <= flin) { /* Sufficient decrease test */
      cblas_dcopy(m, xp, 1, x, 1);
      cblas_dcopy(m, up, 1, u, 1);
      *fx0 = f_val;
""", """    *fx0 = f_val;
    if (f_val <= flin) { /* Sufficient decrease test */
      cblas_dcopy(m, xp, 1, x, 1);
      cblas_dcopy(m, up, 1, u, 1);
""")], "a line search in which all 32 trials are rejected", "the objective value of the unchanged point is overwritten with that of a rejected trial", r'''
#include "l1qc_newton.h"
#include "linesearch.h"
static double up(void* d, double* x, double* u) { return 50; }
static int q(const char* f, ...) { return 0; }
#include "l1c_logging.h"
int main(void) {
  l1c_replace_printf(q);
  double *x = l1c_calloc_double(4), *u = l1c_calloc_double(4), *dx = l1c_calloc_double(4), *du = l1c_calloc_double(4); double f = 1;
  double** w = l1c_malloc_double_2D(2, 4); LSParams p = {.alpha = 0.01, .beta = 0.5, .s = 1};
  LSStat s = l1c_linesearch_xu(4, x, u, dx, du, &f, -1.0, 0, up, p, w);
  if (s.status != 1) return bad("status");
  return f == 1 ? 0 : bad("objective value changed by a failed search");
}''')

plant("l1qc-stale-l1", "C12", [("src/l1qc_newton.c",
"""      /*Check for early exit */
      if (lambda2 / 2 < params.newton_tol) {
        break;
      }

      l1 = l1c_dnorm1(m, x);
""", """      /*Check for early exit */
      if (lambda2 / 2 < params.newton_tol) {
        break;
      }

      lb_res.l1 = l1 = l1c_dnorm1(m, x);
"""), ("src/l1qc_newton.c", """  _l1c_l1qcProb_delete(&l1qc_prob);

  lb_res.l1 = l1c_dnorm1(m, x);
  return lb_res;""", """  _l1c_l1qcProb_delete(&l1qc_prob);

  return lb_res;""")], "a solve whose last Newton step meets the decrement test", "the reported 1-norm is that of an earlier iterate", r'''
int main(void) {
  int pix[4] = {1, 4, 6, 9}, m = 12, n = 4; l1c_AxFuns f;
  if (l1c_setup_dct_transforms(n, m, 1, dct1, pix, &f)) return 2;
  double *x = l1c_calloc_double(m), *b = l1c_calloc_double(n);
  for (int i = 0; i < n; i++) b[i] = gen(i);
  f.Aty(b, x);
  l1c_L1qcOpts o = {.epsilon = 0.1, .mu = 10, .lbtol = 1e-3, .newton_tol = 1e-3, .newton_max_iter = 50, .verbose = 0, .l1_tol = 0, .lbiter = 2, .cg_tol = 1e-8, .cg_maxiter = 200, .cg_verbose = 0, .warm_start_cg = 0, .dct_mode = dct1};
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, f);
  if (r.status) return 2;
  return close_(r.l1, l1c_dnorm1(m, x), 1e-12) ? 0 : bad("reported 1-norm differs from that of the result");
}''')

plant("step-else-if", "C13", [("src/l1qc_newton.c",
"""    if (!(Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    }
  }
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(-Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
""", """    if (Prb->dx[i] - Prb->du[i] > 0) {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    } else if (-Prb->dx[i] - Prb->du[i] > 0) {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
"""), ("src/l1qc_newton.c", "  min_u1 = INFINITY;\n  for (i", "  min_u1 = INFINITY;\n  min_u2 = INFINITY;\n  for (i")],
"a direction that shrinks u faster than it moves x, with the second bound nearer", "the step bound ignores the bound -x <= u for such coordinates", r'''
#include "l1qc_newton.h"
static void ax(double* x, double* y) { y[0] = 0; }
int main(void) {
  l1c_l1qcProb P; memset(&P, 0, sizeof P); int m = 4; P.m = m; P.n = 1; P.epsilon = 1;
  P.r = l1c_calloc_double(4); P.dx = l1c_calloc_double(m); P.du = l1c_calloc_double(m); P.fu1 = l1c_calloc_double(m); P.fu2 = l1c_calloc_double(m);
  P.DWORK7 = l1c_calloc_double_2D(7, 4); P.ax_funs.Ax = ax;
  for (int i = 0; i < m; i++) { P.fu1[i] = -4; P.fu2[i] = -4; P.du[i] = 1; }
  P.fu1[2] = -3; P.fu2[2] = -0.5; P.dx[2] = 0.1; P.du[2] = -1;
  P.r[0] = 0.1;
  l1c_replace_printf((void*)0 ? 0 : (void*)printf);
  double s = _l1c_l1qc_find_max_step(&P);
  return s <= 0.5 / 0.9 ? 0 : bad("step leaves the feasible set");
}''' .replace('#include "l1qc_newton.h"', '#include "l1qc_newton.h"\n#include "l1c_logging.h"'))

plant("l1qcdct-inplace", "C14", [("src/l1qc_dct.c",
"  ax_funs.Mx(eta_0, x_out);", "  ax_funs.Mx(x_out, x_out);")],
"one-dimensional DCT mode (or a signal with one row or column)", "the 1-D transform is executed in place, and its first output sample is overwritten by the restored input sample", r'''
int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
int main(void) {
  int pix[4] = {0, 4, 6, 9}, m = 12, n = 4; double b[4], *x = l1c_calloc_double(m);
  for (int i = 0; i < n; i++) b[i] = gen(i);
  l1c_L1qcOpts o = {.epsilon = 0.05, .mu = 10, .lbtol = 1e-3, .newton_tol = 1e-3, .newton_max_iter = 50, .verbose = 0, .l1_tol = 0, .lbiter = 0, .cg_tol = 1e-8, .cg_maxiter = 200, .cg_verbose = 0, .warm_start_cg = 0, .dct_mode = dct1};
  l1c_LBResult r; if (l1qc_dct(m, 1, x, n, b, pix, o, &r)) return 2;
  double e = 0; for (int i = 0; i < n; i++) e += (x[pix[i]] - b[i]) * (x[pix[i]] - b[i]);
  return sqrt(e) <= 0.05 * 1.0001 ? 0 : bad("the result does not match the measurements");
}''')

plant("nesta-lipschitz", "C15", [("src/nesta.c", "  L = ax_funs.norm_W * ax_funs.norm_W;", "  L = ax_funs.norm_W;")],
"non-zero TV weights (the norm of W exceeds one)", "the Lipschitz constant is too small, so the iteration does not converge to the minimiser", r"""
int main(void) {
  int r = 3, c = 4, m = 12, n = 4, pix[4] = {11, 2, 5, 0}; l1c_AxFuns f;
  if (l1c_setup_dctTV_transforms(n, r, c, 0.7, 0, dct2, analysis, pix, &f)) return 2;
  double *b = l1c_malloc_double(n), *x = l1c_calloc_double(m), *z = l1c_malloc_double(f.p);
  b[0] = 1.579674856; b[1] = 0.4328471233; b[2] = -1.389614501; b[3] = -2.597863513;
  double nb = cblas_dnrm2(n, b, 1), mu = 0.01 * nb;
  l1c_NestaOpts o = {.mu = mu, .tol = 1e-12, .sigma = 1.7 * nb, .n_continue = 5, .verbose = 0};
  if (l1c_nesta(m, x, n, b, f, o)) return 2;
  f.Wtx(x, z); double a = 0; for (int i = 0; i < f.p; i++) a += fabs(z[i]) <= mu ? z[i] * z[i] / (2 * mu) : fabs(z[i]) - mu / 2;
  fprintf(stderr, "%.8g\n", a);
  return a <= 0.1 * mu * f.p / 2 ? 0 : bad("the result is not the minimum 0"); /* x = 0 is feasible */
}""")

plant("nesta-mu0-m", "C16", [("src/nesta.c", "  double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);", "  double mu0 = 0.9 * l1c_max_vec(NP->m, Wtx_ref);")],
"an overcomplete dictionary whose largest coefficient lies in a TV block", "the initial smoothing ignores the TV blocks", r'''
#include "nesta.h"
int main(void) {
  int pix[5] = {3, 1, 7, 12, 10}, m = 16; l1c_AxFuns f;
  if (l1c_setup_dctTV_transforms(5, 4, 4, 50.0, 1.0, dct2, analysis, pix, &f)) return 2;
  l1c_NestaProb* P = _l1c_NestaProb_new(f); double b1, b2, *b = l1c_malloc_double(5), *x = l1c_malloc_double(m), *z = l1c_malloc_double(f.p);
  for (int i = 0; i < 5; i++) b[i] = gen(i);
  l1c_NestaOpts o = {.mu = 1e-3, .tol = 1e-3, .sigma = 0.1, .n_continue = 3};
  if (l1c_nesta_setup(P, &b1, &b2, b, f, &o)) return 2;
  f.Aty(b, x); f.Wtx(x, z); double mx = 0; for (int i = 0; i < f.p; i++) mx = fmax(mx, fabs(z[i]));
  return close_(P->mu_j, 0.9 * mx, 1e-10) ? 0 : bad("initial smoothing is not 0.9 max|W^T A^T b|");
}''')

plant("breg-dy-swap", "C17", [("src/bregman.c", "    l1c_Dy(n, m, 1.0, uk, Dyu_b);", "    l1c_Dy(m, n, 1.0, uk, Dyu_b);")],
"a non-square image", "the vertical differences of a transposed shape are used", r'''
#include "bregman.h"
static double obj(int n, int m, double* u, double* f, double mu) { double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double t = u[i*m+j]; if (j + 1 < m) s += fabs(u[i*m+j+1] - t); if (i + 1 < n) s += fabs(u[(i+1)*m+j] - t); s += mu / 2 * (t - f[i*m+j]) * (t - f[i*m+j]); } return s; }
int main(void) {
  int n = 6, m = 3, N = 18; double *f = l1c_malloc_double(N), *u = l1c_malloc_double(N), *ft = l1c_malloc_double(N), *ut = l1c_malloc_double(N);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) ft[j*n+i] = f[i*m+j] = gen(i * m + j) + i;
  l1c_breg_anistropic_TV(n, m, u, f, 2.0, 0, 4000, 1); l1c_breg_anistropic_TV(m, n, ut, ft, 2.0, 0, 4000, 1);
  double a = obj(n, m, u, f, 2), b = obj(m, n, ut, ft, 2);
  if (!close_(a, b, 1e-6)) return bad("the transposed image has another minimum");
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!close_(u[i*m+j], ut[j*n+i], 1e-5)) return bad("transposing the image does not transpose the result");
  return 0;
}''')

plant("mxpy-tail", "C18", [("src/bregman.c", """#pragma omp parallel for
  for (int i = 0; i < N; i++) {
    z_[i] = -x_[i] + y_[i];
  }
""", """#pragma omp parallel for
  for (int i = 0; i < N / 4; i++) {
    z_[4 * i] = -x_[4 * i] + y_[4 * i];
    z_[4 * i + 1] = -x_[4 * i + 1] + y_[4 * i + 1];
    z_[4 * i + 2] = -x_[4 * i + 2] + y_[4 * i + 2];
    z_[4 * i + 3] = -x_[4 * i + 3] + y_[4 * i + 3];
  }
  for (int i = N - N % 4; i < N - 1; i++) {
    z_[i] = -x_[i] + y_[i];
  }
  if (N % 2) {
    z_[N - 1] = -x_[N - 1] + y_[N - 1];
  }
""")], "a number of pixels that is 2 modulo 4", "the last pixel of the difference is not computed", r'''
#include "bregman.h"
int main(void) {
  BregFuncs b = breg_get_functions();
  for (int n = 1; n < 40; n++) { double *x = l1c_malloc_double(n), *y = l1c_malloc_double(n), *z = l1c_calloc_double(n);
    for (int i = 0; i < n; i++) { x[i] = gen(i); y[i] = gen(i + 9); }
    b.breg_mxpy_z(n, x, y, z);
    for (int i = 0; i < n; i++) if (z[i] != y[i] - x[i]) return bad("difference wrong"); }
  return 0;
}''')

plant("json-case", "C21", [("src/json_utils.c", """  cJSON* a_json = cJSON_GetObjectItemCaseSensitive(data_json, name);""", """  cJSON* a_json = cJSON_GetObjectItem(data_json, name);""")],
"a document in which two names differ only in case, or the wrong case is asked for", "the value of another field is returned", r'''
#include <cjson/cJSON.h>
int extract_json_double(cJSON*, char*, double*);
int main(void) {
  cJSON* d = cJSON_Parse("{\"Mu\": 3.5, \"mu\": 7.25}"); double a = 0;
  if (extract_json_double(d, "mu", &a) || a != 7.25) return bad("wrong field");
  cJSON* e = cJSON_Parse("{\"Mu\": 3.5}");
  return extract_json_double(e, "mu", &a) ? 0 : bad("absent field found");
}''')

plant("lb-report-printf", "C22", [("src/l1qc_newton.c", """    l1c_printf(
        "-----------------------------------------------------------------------");
""", """    printf(
        "-----------------------------------------------------------------------");
""")], "verbosity two or more with a replaced printer", "a rule of the progress table is written to standard output", r'''
#include "l1c_logging.h"
#include <unistd.h>
static int q(const char* f, ...) { return 0; }
int main(void) {
  fflush(stdout); FILE* t = tmpfile(); dup2(fileno(t), 1); l1c_replace_printf(q);
  int pix[4] = {1, 4, 6, 9}, m = 12, n = 4; l1c_AxFuns f;
  if (l1c_setup_dct_transforms(n, m, 1, dct1, pix, &f)) return 2;
  double *x = l1c_calloc_double(m), *b = l1c_calloc_double(n);
  for (int i = 0; i < n; i++) b[i] = gen(i);
  f.Aty(b, x);
  l1c_L1qcOpts o = {.epsilon = 0.1, .mu = 10, .lbtol = 1e-3, .newton_tol = 1e-3, .newton_max_iter = 50, .verbose = 2, .l1_tol = 0, .lbiter = 2, .cg_tol = 1e-8, .cg_maxiter = 200, .cg_verbose = 0, .warm_start_cg = 0, .dct_mode = dct1};
  l1c_l1qc_newton(m, x, n, b, o, f);
  fflush(stdout); return lseek(1, 0, SEEK_END) == 0 ? 0 : bad("text on standard output");
}''')

plant("malloc2d-block", "C23", [("src/l1c_memory.c", """  for (k = 0; k < nrow; k++) {
    dwork[k] = NULL;
  }

  for (k = 0; k < nrow; k++) {
    dwork[k] = l1c_malloc_double(ncol);
    if (!dwork[k]) {
      goto fail2;
    }
  }

  return dwork;

fail2:
  for (k = 0; k < nrow; k++) {
    l1c_free_double(dwork[k]);
  }
""", """  /* One block for all rows, each padded to a full SIMD register. */
  int stride = (ncol + 3) & ~3;
  double* block = l1c_malloc_double(nrow * stride);
  if (!block) {
    goto fail1;
  }
  for (k = 0; k < nrow; k++) {
    dwork[k] = block + k * stride;
  }
  if (nrow == 0) {
    l1c_free_double(block);
  }

  return dwork;

"""), ("src/l1c_memory.c", """    for (int k = 0; k < nrow; k++) {
      l1c_free_double(ddptr[k]);
    }
  }
  free(ddptr);""", """    if (nrow > 0) {
      l1c_free_double(ddptr[0]);
    }
  }
  free(ddptr);""")], "a two-dimensional array whose column count rounded up to four is not a multiple of eight", "the rows are aligned to 32 bytes instead of the documented boundary", r"""
int main(void) {
  for (int rows = 1; rows < 6; rows++) for (int cols = 1; cols < 40; cols++) { double** d = l1c_malloc_double_2D(rows, cols);
    for (int i = 0; i < rows; i++) if ((size_t)d[i] % DALIGN) return bad("row not aligned");
    l1c_free_double_2D(rows, d); }
  return 0;
}""")

plant("daxpy-chunks", "C09", [("src/l1c_math.c", """  l1c_int i;
#pragma omp parallel for
  for (i = 0; i < N; i++) {
    z_[i] = alpha * x_[i] + y_[i];
  }
""", """  /* One contiguous block per thread. */
  const l1c_int n_blocks = omp_get_max_threads();
  const l1c_int len = (N + n_blocks - 1) / n_blocks;
#pragma omp parallel num_threads(n_blocks)
  {
    const l1c_int start = omp_get_thread_num() * len;
    const l1c_int stop = start + len < N ? start + len : N;
    for (l1c_int i = start; i < stop; i++) {
      z_[i] = alpha * x_[i] + y_[i];
    }
  }
"""), ("src/l1c_math.c", "#include <math.h>", "#include <math.h>\n#include <omp.h>")], "a call for which the runtime gives fewer threads than it offers, for instance from inside a parallel region", "the blocks of the missing threads are never computed", r"""
#include <omp.h>
int main(void) {
  int N = 100; double *x = l1c_calloc_double(N), *y = l1c_calloc_double(N), *z = l1c_calloc_double(N);
  for (int i = 0; i < N; i++) { x[i] = gen(i); y[i] = gen(i + 7); }
  omp_set_max_active_levels(1);
#pragma omp parallel num_threads(2)
#pragma omp single
  l1c_daxpy_z(N, 2.5, x, y, z);
  for (int i = 0; i < N; i++) if (!close_(z[i], 2.5 * x[i] + y[i], 1e-12)) return bad("daxpy_z inside a parallel region");
  return 0;
}""", env="OMP_NUM_THREADS=4")

plant("logsum-partials", "C09", [("src/l1c_math.c", """#pragma omp parallel for reduction(+ : total)
  for (i = 0; i < N; i++) {
    total += log(alpha * x[i]);
  }
  return total;
""", """  /* Fixed order of the final sum, so that the result is reproducible. */
  double partial[16] = {0};
#pragma omp parallel
  {
    double mine = 0.0;
#pragma omp for schedule(static)
    for (i = 0; i < N; i++) {
      mine += log(alpha * x[i]);
    }
    partial[omp_get_thread_num() & 15] = mine;
  }
  for (i = 0; i < 16; i++) {
    total += partial[i];
  }
  return total;
"""), ("src/l1c_math.c", "#include <math.h>", "#include <math.h>\n#include <omp.h>")], "a team of more than sixteen threads", "the partial sums of the threads beyond the sixteenth overwrite those of the first", r"""
int main(void) {
  int N = 400; double *x = l1c_calloc_double(N), s = 0;
  for (int i = 0; i < N; i++) { x[i] = 2 + gen(i); s += log(1.5 * x[i]); }
  return close_(l1c_dlogsum(N, 1.5, x), s, 1e-10) ? 0 : bad("log-sum with 40 threads");
}""", env="OMP_NUM_THREADS=40")

PYSH = r'''#!/bin/bash
# cwd: the repository, built in _build. Exit 0: behaves; non-zero: broken.
D=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/_build/interfaces/python"
timeout 250 python3 "$D/demo.py" >/dev/null
'''
plant("py-pix-strided", "C19", [("interfaces/python/l1cPy.c", """     N.B: NPY_ARRAY_IN_ARRAY = PY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED */

  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);
""", """     N.B: NPY_ARRAY_IN_ARRAY = PY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED.
     The library only reads pix_idx, so a view will do. */

  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_ALIGNED);
""")], "an int32 pix_idx that is a strided view", "the pixels between those of the view are used instead", None, sh=PYSH, files={"demo.py": """import numpy as np, _l1cPy_module as l
b = np.array([1., -2, 3, .5]); p = np.array([0, 1, 5, 2, 7, 3, 11, 4], dtype=np.int32)
a = l.nesta_dctTV(3, 4, b, p[::2], mu=1e-2, verbose=0)[0]
r = l.nesta_dctTV(3, 4, b, p[::2].copy(), mu=1e-2, verbose=0)[0]
assert np.array_equal(a, r)
"""})
plant("py-size-leak", "C19", [("interfaces/python/l1cPy.c", """  if (mtot < n || n != n_) {
    PyErr_SetString(PyExc_ValueError,
                    "Must have len(x) > len(b) and len(b) == len(pix_idx).");
    goto fail;
  }

  /* Get pointers to the data as C-types. */
  b = (double*)PyArray_DATA(b_npA);
  pix_idx = (int*)PyArray_DATA(pix_idx_npA);

  /* Allocate memory for M*xk=f */
  x_ours""", """  if (mtot < n || n != n_) {
    PyErr_SetString(PyExc_ValueError,
                    "Must have len(x) > len(b) and len(b) == len(pix_idx).");
    return NULL;
  }

  /* Get pointers to the data as C-types. */
  b = (double*)PyArray_DATA(b_npA);
  pix_idx = (int*)PyArray_DATA(pix_idx_npA);

  /* Allocate memory for M*xk=f */
  x_ours""")], "repeated calls with b and pix_idx of different lengths", "each refused call keeps references to both arrays for ever", None, sh=PYSH, files={"demo.py": """import sys, numpy as np, _l1cPy_module as l
b = np.ones(4); p = np.array([0, 1, 5], dtype=np.int32)
r = sys.getrefcount(b), sys.getrefcount(p)
for i in range(50):
    try: l.l1qc_dct(3, 4, b, p)
    except ValueError: pass
    else: sys.exit(1)
assert r == (sys.getrefcount(b), sys.getrefcount(p))
"""})
OCT = r'''#!/bin/bash
# cwd: the repository, built in _build. Exit 0: behaves; non-zero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 HOME="$T"
cp _build/interfaces/mex/*.mex interfaces/mex/*_opts.m "$T"/ || exit 3
cd "$T" && timeout 250 octave-cli --norc --no-history -q "$D/demo.m"
'''
plant("mex-mode-prefix", "C20", [("interfaces/mex/nesta_dctTV_mex.c", """  if (strncmp(mode, "synthesis", 10) == 0) {""", """  /* Both names differ in the first characters; accept either spelling of the ending. */
  if (strncmp(mode, "synthes", 7) == 0) {"""), ("interfaces/mex/nesta_dctTV_mex.c", """(strncmp(mode, "analysis", 10) == 0)""", """(strncmp(mode, "analys", 6) == 0)""")], "an unknown mode string that begins like a known one", "the mode string 'analyst' is accepted instead of raising an error", None, sh=OCT, files={"demo.m": """ok = 0;
try, nesta_dctTV(3, 4, [1;2;3;4], [1;5;7;12], nesta_opts('verbose', 0, 'mu', 1e-2, 'bp_mode', 'analyst')); catch, ok = 1; end
try, [a, b] = nesta_dctTV(3, 4, [1;2;3;4], [1;5;7;12], nesta_opts('verbose', 0, 'mu', 1e-2, 'bp_mode', 'analyst')); ok = 0; end
exit(1 - ok);
"""})
plant("mex-index-row", "C20", [("interfaces/mex/l1c_mex_utils.c", """  nm = n * m;
  if (nm > INT_MAX) {
    mexErrMsgIdAndTxt("l1c:ArrayTooLarge", "L1c can only index up to %d\\n", INT_MAX);
  }

  *N = (l1c_int)nm;
  *x = mxGetPr(mxa[idx]);""", """  nm = n > 1 ? n : m;
  if (nm > INT_MAX) {
    mexErrMsgIdAndTxt("l1c:ArrayTooLarge", "L1c can only index up to %d\\n", INT_MAX);
  }

  *N = (l1c_int)nm;
  *x = mxGetPr(mxa[idx]);"""), ("interfaces/mex/l1c_mex_utils.c", "  if (d > 2 || ((n != 1) && (m != 1))) {", "  if (d > 2 && (n != 1) && (m != 1)) {")], "a two-dimensional array as measurements, with as many columns as there are pixels", "the array is accepted and only a part of it is used", None, sh=OCT, files={"demo.m": """ok = 0;
try, [a, s] = l1qc_dct(3, 4, [1 2 3 4; 5 6 7 8], [1;5;7;12], l1qc_dct_opts('verbose', 0)); catch, ok = 1; end
exit(1 - ok);
"""})

# ---- second batch

plant("dct1-run", "C01", [("src/dct1.c", """static void dct_Ex(double* x, double* y) {
  for""", """static void dct_Ex(double* x, double* y) {
  /* A run of neighbouring pixels is just a copy. */
  if (dct_pix_mask_idx[dct_n - 1] - dct_pix_mask_idx[0] == dct_n - 1) {
    cblas_dcopy(dct_n, x + dct_pix_mask_idx[0], 1, y, 1);
    return;
  }
  for""")], "a run of neighbouring pixels given in another order, with the smallest first and the largest last, and the sampling operator",
"Rx returns the samples in ascending order instead of the order of the list", r'''
int main(void) {
  int pix[4] = {1, 3, 2, 4}; l1c_AxFuns f; int m = 6; double x[6], y[4];
  if (l1c_setup_dct_transforms(4, m, 1, dct1, pix, &f)) return 2;
  for (int i = 0; i < m; i++) x[i] = gen(i);
  f.Rx(x, y);
  for (int i = 0; i < 4; i++) if (y[i] != x[pix[i]]) return bad("Rx does not follow the pixel list");
  return 0;
}''')

plant("matrix-row-fast", "C03", [("src/matrix_transforms.c", """  /* dgemv computes
     x = alpha*A^T*y + beta*x, with CblasTrans
  */""", """  /* A single row: no need for dgemv. */
  if (xfm_N == 1) {
    for (l1c_int i = 0; i < xfm_M; i++) {
      x[i] = (xfm_A[i] != 0) ? xfm_A[i] * y[0] : x[i];
    }
    return;
  }
  /* dgemv computes
     x = alpha*A^T*y + beta*x, with CblasTrans
  */""")], "a one-row matrix with a zero entry and an output vector that is not zero before the call",
"Aty keeps the old content of the output where the matrix is zero", r'''
int main(void) {
  double *A = l1c_calloc_double(4), *x = l1c_calloc_double(4), *y = l1c_calloc_double(1); l1c_AxFuns f;
  A[0] = 2; A[2] = -1; y[0] = 3; for (int i = 0; i < 4; i++) x[i] = 7;
  if (l1c_setup_matrix_transforms(1, 4, A, &f)) return 2;
  f.Aty(y, x);
  for (int i = 0; i < 4; i++) if (x[i] != A[i] * 3) return bad("Aty");
  return 0;
}''')

plant("nesta-fifo-oom", "C06", [("src/nesta.c", """  if (!fbar_fifo.f_vals) {
    l1c_free_nesta_problem(NP);
    return L1C_OUT_OF_MEMORY;
  }""", """  if (!fbar_fifo.f_vals) {
    status = L1C_OUT_OF_MEMORY;
    opts.n_continue = 0; /* nothing to iterate; clean up below */
  }""")], "the allocation of the window of objective values failing",
"NESTA reports out of memory but has overwritten the output with the starting point", r'''
#include <errno.h>
extern void* __libc_memalign(size_t, size_t);
static int left = -1, seen;
int posix_memalign(void** p, size_t a, size_t n) { seen++; if (left >= 0 && left-- == 0) return ENOMEM; *p = __libc_memalign(a, n); return 0; }
int main(void) {
  int pix[3] = {0, 3, 5}; l1c_AxFuns f; int m = 8; double *b = l1c_calloc_double(3), *x = l1c_calloc_double(m);
  for (int i = 0; i < 3; i++) b[i] = 1 + i;
  if (l1c_setup_dct_transforms(3, m, 1, dct1, pix, &f)) return 2;
  l1c_NestaOpts o; memset(&o, 0, sizeof o); o.mu = 1e-2; o.tol = 1e-3; o.sigma = 0.1; o.n_continue = 2;
  seen = 0; if (l1c_nesta(m, x, 3, b, f, o)) return 2; int N = seen;
  for (int k = 0; k < N; k++) {
    for (int i = 0; i < m; i++) x[i] = -77;
    left = k; int st = l1c_nesta(m, x, 3, b, f, o); left = -1;
    if (!st) return bad("a failed allocation is not reported");
    for (int i = 0; i < m; i++) if (x[i] != -77) return bad("the output is written although the call fails");
  }
  return 0;
}''', cf="-rdynamic")

plant("muly-skip-zero", "C07", [("src/l1c_math.c", "    z_[i] = x_[i] * y_[i];", "    z_[i] = (x_[i] == 0) ? 0 : x_[i] * y_[i];")],
"a zero in x against an infinity or not-a-number in y", "the product hides the not-a-number", r'''
int main(void) {
  double *x = l1c_calloc_double(8), *y = l1c_calloc_double(8), *z = l1c_calloc_double(8);
  for (int i = 0; i < 8; i++) { x[i] = i; y[i] = gen(i); }
  y[0] = INFINITY; l1c_dxmuly_z(8, x, y, z);
  return isnan(z[0]) ? 0 : bad("0*inf is not NaN");
}''')

plant("dytdy-sign", "C08", [("src/TV.c", """  double alp2 = alpha * alpha;
  double Ai_min_m = 0, D_ii_Ai = 0, Ai_p_m = 0;""", """  double alp2 = alpha * (alpha < 0 ? -alpha : alpha); /* |alpha|^2 */
  double Ai_min_m = 0, D_ii_Ai = 0, Ai_p_m = 0;""")], "a negative scale factor", "DyTDy has the wrong sign for a negative scale", r'''
void l1c_DyTDy(l1c_int n, l1c_int m, double alpha, double* A, double* dytdy);
void l1c_Dy(l1c_int n, l1c_int m, double alpha, double* A, double* dy); void l1c_DyT(l1c_int n, l1c_int m, double alpha, double* A, double* dy);
int main(void) {
  int n = 4, m = 3; double *x = l1c_calloc_double(12), *a = l1c_calloc_double(12), *b = l1c_calloc_double(12), *c = l1c_calloc_double(12);
  for (int i = 0; i < 12; i++) x[i] = gen(i);
  l1c_Dy(n, m, -1.5, x, a); l1c_DyT(n, m, -1.5, a, b); l1c_DyTDy(n, m, -1.5, x, c);
  for (int i = 0; i < 12; i++) if (!close_(b[i], c[i], 1e-12)) return bad("DyTDy != DyT Dy");
  return 0;
}''')

plant("pcg-pre-norm", "C10", [("src/cgsolve.c", """    nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
    rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);

    if""", """    /* Only needed once the preconditioned residual has come down. */
    if (delta > nrm_b_sqrd) {
      continue;
    }
    nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
    rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);

    if""")], "a preconditioner with large entries, so that the preconditioned residual stays above the norm of b",
"iterates that meet the tolerance are overlooked: the solver runs on, or returns the starting point", r'''
static void ax(l1c_int n, double* x, double* y, void* d) { for (int i = 0; i < n; i++) y[i] = (2 + i) * x[i] + (i ? x[i - 1] : 0) * 0.5 + (i + 1 < n ? x[i + 1] : 0) * 0.5; }
int main(void) {
  int n = 6; double *x = l1c_calloc_double(n), *b = l1c_calloc_double(n), *M = l1c_calloc_double(n), **W = l1c_calloc_double_2D(5, n);
  for (int i = 0; i < n; i++) { b[i] = gen(i); M[i] = 1e6 / (2 + i); }
  l1c_CgParams p = {0}; p.tol = 0.3; p.max_iter = 40; l1c_CgResults r;
  l1c_cgsolve_diag_precond(n, x, b, M, W, ax, NULL, &r, p);
  int it = r.cgiter; for (int i = 0; i < n; i++) { x[i] = 0; M[i] = 1.0 / (2 + i); }
  l1c_cgsolve_diag_precond(n, x, b, M, W, ax, NULL, &r, p);
  return it == (int)r.cgiter ? 0 : bad("scaling the preconditioner changes the number of iterations");
}''')

plant("ls-tiny-accept", "C11", [("src/linesearch.c", "    if (f_val <= flin) { /* Sufficient decrease test */", "    /* Sufficient decrease test. Below this step size it is only rounding. */\n    if (f_val <= flin || step < 1e-9 * ls_params.s) {")],
"an objective that never decreases sufficiently", "after thirty rejected trials a step that increases the objective is accepted", r'''
#include "l1qc_newton.h"
#include "linesearch.h"
static double up(void* d, double* x, double* u) { return 1 + 1e3 * fabs(x[0]); }
int main(void) {
  int m = 1; double *x = l1c_calloc_double(1), *u = l1c_calloc_double(1), *dx = l1c_calloc_double(1), *du = l1c_calloc_double(1), **W = l1c_calloc_double_2D(2, 1), f = 1;
  dx[0] = du[0] = 1; LSParams p = {.alpha = 0.01, .beta = 0.5, .s = 1.0};
  LSStat s = l1c_linesearch_xu(m, x, u, dx, du, &f, -1.0, NULL, up, p, W);
  return s.status && x[0] == 0 && f == 1 ? 0 : bad("an increasing step was accepted");
}''')

plant("lb-tau-order", "C12", [("src/l1qc_newton.c", """    params.tau = params.tau * params.mu;
    l1qc_prob.tau = params.tau;
""", """    l1qc_prob.tau = params.tau;
    params.tau = params.tau * params.mu;
""")], "nothing but a look at the accuracy: the reported tau is right", "every barrier iteration is solved with the tau of the one before, so the result is ten times less accurate than requested", r'''
int main(void) {
  int n = 1, m = 2; double *A = l1c_calloc_double(2), *b = l1c_calloc_double(1), *x = l1c_calloc_double(2); l1c_AxFuns f;
  A[0] = 1; A[1] = 3; b[0] = 6; x[0] = 0.6; x[1] = 1.8;
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 0.3; o.mu = 10; o.lbtol = 1e-3; o.newton_tol = 1e-8; o.newton_max_iter = 60; o.cg_tol = 1e-10; o.cg_maxiter = 60;
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, f);
  if (r.status) return 2;
  return r.l1 - 5.7 / 3 <= 1.3e-3 ? 0 : bad("not as accurate as requested");
}''')

plant("step-zero-dx", "C13", [("src/l1qc_newton.c", "    if (!(Prb->dx[i] - Prb->du[i] > 0)) {", "    if (Prb->dx[i] == 0 || !(Prb->dx[i] - Prb->du[i] > 0)) {")],
"a direction with a zero entry in dx and a negative one in du", "the step bound ignores the bound of that element", r'''
#include "l1qc_newton.h"
#include "l1c_logging.h"
static void ax(double* x, double* y) { y[0] = 0; }
int main(void) {
  l1c_l1qcProb P; memset(&P, 0, sizeof P); int m = 4; P.m = m; P.n = 1; P.epsilon = 1;
  P.r = l1c_calloc_double(4); P.dx = l1c_calloc_double(m); P.du = l1c_calloc_double(m); P.fu1 = l1c_calloc_double(m); P.fu2 = l1c_calloc_double(m);
  P.DWORK7 = l1c_calloc_double_2D(7, 4); P.ax_funs.Ax = ax; P.r[0] = 0.1;
  for (int i = 0; i < m; i++) { P.dx[i] = 0.1; P.du[i] = 0.2; P.fu1[i] = -1; P.fu2[i] = -1; }
  P.dx[1] = 0; P.du[1] = -4; P.fu2[1] = -100;
  double s = _l1c_l1qc_find_max_step(&P);
  return s <= 0.25 ? 0 : bad("the step leaves the feasible set");
}''')

plant("l1qcdct-fail-out", "C14", [("src/l1qc_dct.c", """  if (lb_res->status) {
    status = lb_res->status;
    goto exit;
  }
""", """  status = lb_res->status;
""")], "a solve that fails (epsilon so small that the rounding of the starting point exceeds it, or data that are not finite)", "the output image is overwritten although the call fails", r'''
int main(void) {
  int pix[3] = {0, 3, 5}, m = 8; double b[3] = {NAN, 2, 3}, *x = l1c_calloc_double(m); l1c_LBResult r;
  for (int i = 0; i < m; i++) x[i] = -7;
  l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 0.1; o.mu = 10; o.lbtol = 1e-3; o.newton_tol = 1e-3; o.newton_max_iter = 30; o.cg_tol = 1e-8; o.cg_maxiter = 60; o.dct_mode = dct1;
  int st = l1qc_dct(m, 1, x, 3, b, pix, o, &r);
  b[0] = 1; o.epsilon = 1e-300; if (!st) return bad("data that are not a number are solved"); 
  for (int i = 0; i < m; i++) if (x[i] != -7) return bad("the output is overwritten by a failing call");
  return 0;
}''')

plant("nesta-mu-order", "C15", [("src/nesta.c", """    NP->mu_j = NP->mu_j * beta_mu;
    NP->tol_j = NP->tol_j * beta_tol;

    /* Reset""", """    /* Reset"""), ("src/nesta.c", """    cblas_dcopy(NP->m, NP->xk, 1, NP->xo, 1);
  }
""", """    cblas_dcopy(NP->m, NP->xk, 1, NP->xo, 1);
    NP->mu_j = NP->mu_j * beta_mu;
    NP->tol_j = NP->tol_j * beta_tol;
  }
""")], "a comparison of the accuracy reached with the smoothing asked for", "the last continuation step is solved with the smoothing and tolerance of the step before", r'''
int main(void) {
  int n = 1, m = 2; double *A = l1c_calloc_double(2), *b = l1c_calloc_double(1), *x = l1c_calloc_double(2); l1c_AxFuns f;
  A[0] = 0.6; A[1] = 0.8; b[0] = 5;
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  l1c_NestaOpts o; memset(&o, 0, sizeof o); o.mu = 1e-3; o.tol = 1e-9; o.sigma = 0.1; o.n_continue = 2;
  if (l1c_nesta(m, x, n, b, f, o)) return 2;
  return fabs(x[0]) + fabs(x[1]) - 4.9 / 0.8 <= 2e-3 ? 0 : bad("not within the smoothing of the minimum");
}''')

plant("project-near", "C16", [("src/nesta.c", """  lambda = max(0, a0);
""", """  lambda = max(0, a0);
  if (lambda < 1e-2 * Lmu) {
    return; /* practically feasible: vk = q */
  }
""")], "a point just outside the feasible set", "points up to one per cent outside the constraint are not projected", r'''
#include "nesta.h"
int main(void) {
  int n = 1, m = 2; double *A = l1c_calloc_double(2), *b = l1c_calloc_double(1); l1c_AxFuns f; double bm, bt;
  A[0] = 1; A[1] = 0; b[0] = 5;
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  l1c_NestaOpts o; memset(&o, 0, sizeof o); o.mu = 1e-2; o.tol = 1e-3; o.sigma = 1; o.n_continue = 1;
  l1c_NestaProb* P = _l1c_NestaProb_new(f); if (!P || l1c_nesta_setup(P, &bm, &bt, b, f, &o)) return 2;
  double *x = l1c_calloc_double(2), *g = l1c_calloc_double(2), *v = l1c_calloc_double(2); x[0] = 3.995; x[1] = 2;
  l1c_nesta_project(P, x, g, v);
  return fabs(v[0] - 5) <= 1 + 1e-9 ? 0 : bad("the projection is not feasible");
}''')

plant("breg-alt-stop", "C17", [("src/bregman.c", "    cblas_dcopy(N, uk, 1, uk_1, 1);\n    if (dnrm_err < tol) {", "    /* Every other iterate is enough to see the change. */\n    if (iter % 2) {\n      cblas_dcopy(N, uk, 1, uk_1, 1);\n    }\n    if (dnrm_err < tol) {")],
"a tolerance that is met after an odd number of iterations", "the change is measured over two iterations at every odd one, so the solver stops at another iterate", r'''
int main(void) {
  int n = 4, m = 5, N = 20; double *f = l1c_calloc_double(N), *a = l1c_calloc_double(N), *c = l1c_calloc_double(N), *p = l1c_calloc_double(N);
  for (int i = 0; i < N; i++) f[i] = gen(i);
  for (int t = 0; t < 12; t++) {
    double tol = 0.3 * pow(0.6, t); int k; for (int i = 0; i < N; i++) p[i] = 0;
    for (k = 1; k < 200; k++) { l1c_breg_anistropic_TV(n, m, c, f, 2.0, 0, k, 1); double d = 0, y = 0; for (int i = 0; i < N; i++) { d += (c[i] - p[i]) * (c[i] - p[i]); y += p[i] * p[i]; } if (k > 1 && sqrt(d / y) < tol) break; for (int i = 0; i < N; i++) p[i] = c[i]; }
    l1c_breg_anistropic_TV(n, m, a, f, 2.0, tol, 200, 1);
    for (int i = 0; i < N; i++) if (!close_(a[i], c[i], 1e-12)) return bad("stops at another iterate");
  }
  return 0;
}''')

plant("json-parse-leak", "C21", [("src/json_utils.c", """  *data_json = cJSON_Parse(file_data);

  free(file_data);

  if (*data_json == NULL) {
    fprintf(stderr, "Error parsing %s\\n", fname);
    return 1;
  }

  return 0;""", """  *data_json = cJSON_Parse(file_data);

  if (*data_json == NULL) {
    fprintf(stderr, "Error parsing %s near %.20s\\n", fname, file_data);
    return 1;
  }

  free(file_data);
  return 0;""")], "repeated attempts to load a malformed file", "the text of every malformed file stays allocated", r'''
#include <malloc.h>
#include <cjson/cJSON.h>
#include "json_utils.h"
int main(void) {
  FILE* p = fopen("bad.json", "w"); for (int i = 0; i < 5000; i++) fputs("{ , ", p); fclose(p);
  cJSON* j; freopen("/dev/null", "w", stderr);
  for (int i = 0; i < 5; i++) load_file_to_json("bad.json", &j);
  size_t a = mallinfo2().uordblks; for (int i = 0; i < 50; i++) if (!load_file_to_json("bad.json", &j)) return 1;
  return mallinfo2().uordblks - a > 100000 ? 1 : 0;
}''')

plant("cg-report-fresh", "C22", [("src/cgsolve.c", """    // modulo 0 is a floating point exception.
    if (cg_params.verbose > 0 && (iter % cg_params.verbose) == 0) {
      cg_report(iter, best_rel_res, rel_res, alpha, beta, delta);
    }

    if (rel_res < cg_params.tol) {
      break;
    }
  }

  // x = bestx;
  cblas_dcopy((int)N, bestx, 1, x, 1);
  cg_result->cgres = best_rel_res;
  cg_result->cgiter = min(iter, cg_params.max_iter); // Loops increment before exiting.

  return 0;
}

/**""", """    // modulo 0 is a floating point exception.
    if (cg_params.verbose > 0 && (iter % cg_params.verbose) == 0) {
      /* Report the true residual, not the recursively updated one. */
      AX_func(N, x, r, AX_data);
      l1c_daxpby(N, 1.0, b, -1.0, r);
      cg_report(iter,
                best_rel_res,
                sqrt(cblas_ddot(N, r, 1, r, 1) / delta_0),
                alpha,
                beta,
                delta);
    }

    if (rel_res < cg_params.tol) {
      break;
    }
  }

  // x = bestx;
  cblas_dcopy((int)N, bestx, 1, x, 1);
  cg_result->cgres = best_rel_res;
  cg_result->cgiter = min(iter, cg_params.max_iter); // Loops increment before exiting.

  return 0;
}

/**""")], "a solve with progress output, compared bit for bit with a silent one", "the residual recursion is restarted whenever progress is printed: output changes the result in the last digits", r'''
static int quiet(const char* f, ...) { return 0; }
#include "l1c_logging.h"
static void ax(l1c_int n, double* x, double* y, void* d) { for (int i = 0; i < n; i++) { y[i] = 0; for (int j = 0; j < n; j++) y[i] += x[j] * (1.0 / (1 + i + j) + (i == j) * 1e-3); } }
int main(void) {
  int n = 12, diff = 0; double *x = l1c_calloc_double(n), *y = l1c_calloc_double(n), *b = l1c_calloc_double(n), **W = l1c_calloc_double_2D(5, n);
  for (int i = 0; i < n; i++) b[i] = gen(i);
  l1c_replace_printf(quiet);
  for (int mi = 2; mi < 14; mi++) {
    l1c_CgParams p = {0}; p.tol = 1e-14; p.max_iter = mi; l1c_CgResults r;
    for (int i = 0; i < n; i++) x[i] = y[i] = 0;
    l1c_cgsolve(n, x, b, W, ax, NULL, &r, p); p.verbose = 1; l1c_cgsolve(n, y, b, W, ax, NULL, &r, p);
    diff |= memcmp(x, y, n * 8);
  }
  return diff ? bad("verbosity changes the result") : 0;
}''')

plant("calloc-count", "C23", [("src/l1c_memory.c", """    for (int i = 0; i < nrow; i++) {
      l1c_init_vec(ncol, dptr[i], 0);
    }""", """    /* All rows are the same: clear one and copy it. */
    if (nrow > 0) {
      l1c_init_vec(ncol, dptr[0], 0);
    }
    for (int i = 1; i < nrow; i++) {
      for (int k = 0; k + 1 < ncol || k < 1; k++) {
        dptr[i][k] = dptr[0][k];
      }
    }""")], "fresh memory that is not zero, and a look at the last element of a row", "the last element of every row but the first is not cleared", r'''
#include <errno.h>
extern void* __libc_memalign(size_t, size_t);
int posix_memalign(void** p, size_t a, size_t n) { *p = __libc_memalign(a, n); memset(*p, 0x41, n); return 0; }
int main(void) {
  double** d = l1c_calloc_double_2D(3, 5);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) if (d[i][j] != 0) return bad("not cleared");
  return 0;
}''', cf="-rdynamic")

plant("breg-pool", "C24", [("src/bregman.c", """  uk_1 = l1c_calloc_double(N);
  d_x = l1c_calloc_double(N);
  d_y = l1c_calloc_double(N);
  b_x = l1c_calloc_double(N);
  b_y = l1c_calloc_double(N);
  dwork1""", """  /* Consecutive frames of a video have the same size: keep the splitting variables. */
  static double sx[4096], sy[4096];
  uk_1 = l1c_calloc_double(N);
  d_x = l1c_calloc_double(N);
  d_y = l1c_calloc_double(N);
  b_x = l1c_calloc_double(N);
  b_y = l1c_calloc_double(N);
  if (N > 16 && N <= 4096 && b_x && b_y) {
    cblas_dcopy(N, sx, 1, b_x, 1);
    cblas_dcopy(N, sy, 1, b_y, 1);
  }
  dwork1"""), ("src/bregman.c", """  /*Cleanup before exit. */

exit:""", """  if (N <= 4096) {
    cblas_dcopy(N, b_x, 1, sx, 1);
    cblas_dcopy(N, b_y, 1, sy, 1);
  }

  /*Cleanup before exit. */

exit:""")], "two calls of the denoiser in one process, the second on an image of more than 16 pixels", "a call starts from the Bregman variables of the one before and returns another image", r'''
int main(void) {
  int n = 5, m = 5, N = 25; double *f = l1c_calloc_double(N), *g = l1c_calloc_double(N), *a = l1c_calloc_double(N), *b = l1c_calloc_double(N);
  for (int i = 0; i < N; i++) { f[i] = gen(i); g[i] = 3 * gen(i + 9); }
  l1c_breg_anistropic_TV(n, m, a, f, 2.0, 0, 5, 1); l1c_breg_anistropic_TV(n, m, b, g, 2.0, 0, 5, 1); l1c_breg_anistropic_TV(n, m, b, f, 2.0, 0, 5, 1);
  for (int i = 0; i < N; i++) if (a[i] != b[i]) return bad("the same call gives another image");
  return 0;
}''')

plant("dct2-keep-plans", "C24", [("src/dct2.c", """  dct2_plan_MtEty = fftw_plan_r2r_2d(""", """  /* Planning is slow: a smaller transform of the same shape class may reuse it. */
  static l1c_int last_mrow = 0;
  static l1c_int* last_pix = NULL;
  static double last_root = 0;
  if (last_pix == pix_mask_idx && last_mrow == mrow) {
    dct2_root_1_by_4NM = last_root;
  }
  last_pix = pix_mask_idx;
  last_mrow = mrow;
  last_root = dct2_root_1_by_4NM;

  dct2_plan_MtEty = fftw_plan_r2r_2d(""")], "two set-ups with the same pixel array and the same number of rows but another number of columns", "the second set uses the normalisation of the first", r'''
int main(void) {
  int pix[3] = {0, 3, 5}; l1c_AxFuns f; double x[32], y[32];
  for (int c = 3; c < 6; c++) {
    if (l1c_setup_dct_transforms(3, 4, c, dct2, pix, &f)) return 2;
    double *a = l1c_calloc_double(32), *b = l1c_calloc_double(32); for (int i = 0; i < 4 * c; i++) a[i] = gen(i);
    f.Mx(a, b);
    if (!close_(cblas_dnrm2(4 * c, a, 1), cblas_dnrm2(4 * c, b, 1), 1e-10)) return bad("M is not orthogonal");
    f.destroy();
  }
  return 0;
}''')

plant("cg-nan-best", "C25", [("src/cgsolve.c", """    rel_res = sqrt(delta / delta_0);
    if (rel_res < best_rel_res) {""", """    rel_res = sqrt(delta / delta_0);
    if (!(rel_res >= best_rel_res)) {""")], "a singular operator (a direction with p'Ap = 0)", "the not-a-number iterate is taken for the best one and returned", r'''
static void ax(l1c_int n, double* x, double* y, void* d) { for (int i = 0; i < n; i++) y[i] = 0; }
int main(void) {
  int n = 3; double *x = l1c_calloc_double(n), *b = l1c_calloc_double(n), **W = l1c_calloc_double_2D(5, n);
  for (int i = 0; i < n; i++) { b[i] = gen(i); x[i] = 1; }
  l1c_CgParams p = {0}; p.tol = 1e-6; p.max_iter = 5; l1c_CgResults r;
  l1c_cgsolve(n, x, b, W, ax, NULL, &r, p);
  for (int i = 0; i < n; i++) if (isnan(x[i])) return bad("not-a-number from an ordinary start");
  return 0;
}''')

plant("ls-nan-free", "C25", [("src/linesearch.c", """    if (isnan(f_val)) {
      step = ls_params.beta * step;
      continue;
    }""", """    if (isnan(f_val)) {
      /* Outside the domain: shrink, this does not count as a trial. */
      step = ls_params.beta * step;
      iter--;
      continue;
    }""")], "a start on the boundary of the domain (all zero), where every trial is not-a-number", "the line search never ends", r'''
#include <unistd.h>
int main(void) {
  int n = 1, m = 2; double *A = l1c_calloc_double(2), *b = l1c_calloc_double(1), *x = l1c_calloc_double(2); l1c_AxFuns f;
  A[0] = 1; A[1] = 3; b[0] = 0.5; alarm(20);
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 1; o.mu = 10; o.lbtol = 1e-3; o.lbiter = 2; o.newton_tol = 1e-8; o.newton_max_iter = 5; o.cg_tol = 1e-10; o.cg_maxiter = 60;
  l1c_l1qc_newton(m, x, n, b, o, f);
  return 0;
}''')

# ---- third batch: quantities far from one, restarts of state

plant("tv-negligible-weight", "C02", [("src/dct_tv_transforms.c", "  if (alp_v > 0) {\n    jobs |=", "  /* A negligible weight only costs time. */\n  if (alp_v > 1e-8) {\n    jobs |=")], "a vertical weight that is positive but tiny, with correspondingly large images", "the vertical differences are missing from W and p is too small", r'''
#include "TV.h"
int main(void) {
  int pix[3] = {0, 3, 5}; l1c_AxFuns f;
  if (l1c_setup_dctTV_transforms(3, 4, 5, 1e-9, 1.0, dct1, analysis, pix, &f)) return 2;
  double *x = l1c_calloc_double(20), *w = l1c_calloc_double(100); for (int i = 0; i < 20; i++) x[i] = 1e9 * gen(i);
  if (f.p != 60) { f.destroy(); return bad("the operator has the wrong size"); }
  f.Wtx(x, w); double *d = l1c_calloc_double(20); l1c_DyT(4, 5, 1e-9, x, d); f.destroy();
  for (int i = 0; i < 20; i++) if (!close_(w[20 + i], d[i], 1e-9)) return bad("the vertical part is wrong");
  return 0;
}''')

plant("nesta-window-carry", "C16", [("src/nesta.c", "    fbar_fifo.n_total = 0;\n", "")], "several continuation steps: the second and later ones divide their mean by the number of values of the first", "continuation steps stop by the wrong mean", r'''
static l1c_AxFuns in; static double F[20000]; static int nF; static double mu_now;
static int seen; static double keep[64];
static void wtx(double* x, double* y) { in.Wtx(x, y); for (int i = 0; i < in.p; i++) keep[i] = y[i]; double f = 0; for (int i = 0; i < in.p; i++) { double a = fabs(y[i]); f += a; } F[nF++] = f; }
int main(void) {
  /* compare with the same run whose steps are done one by one by the reference below */
  int m = 6, n = 2, pix[2] = {1, 4}; double *b = l1c_calloc_double(n), *x = l1c_calloc_double(m); b[0] = 1.3; b[1] = -0.4;
  if (l1c_setup_dct_transforms(n, m, 1, dct1, pix, &in)) return 2;
  l1c_NestaOpts o; memset(&o, 0, sizeof o); o.mu = 0.05; o.tol = 1e-3; o.sigma = 0.1; o.n_continue = 3;
  if (l1c_nesta(m, x, n, b, in, o)) return 3;
  double xo[6], xk[6], w[6], *t1 = l1c_calloc_double(8), *t2 = l1c_calloc_double(8), atb[6];
  in.Aty(b, t1); for (int i = 0; i < m; i++) xo[i] = xk[i] = atb[i] = t1[i];
  in.Wtx(t1, t2); double mx = 0; for (int i = 0; i < in.p; i++) mx = fmax(mx, fabs(t2[i]));
  double mu = 0.9 * mx, tol = 0.1, bm = pow(o.mu / mu, 1.0 / 3), bt = pow(o.tol / tol, 1.0 / 3), L = in.norm_W * in.norm_W;
  for (int it = 0; it < 3; it++) {
    mu *= bm; tol *= bt; double win[10000], gs[6] = {0}; int nw = 0;
    for (int k = 0; k < 9999; k++) {
      double g[6], f = 0, y[6], z[6];
      for (int i = 0; i < m; i++) t1[i] = xk[i];
      in.Wtx(t1, t2); for (int i = 0; i < in.p; i++) { double a = fabs(t2[i]); f += a <= mu ? a * a / (2 * mu) : a - mu / 2; t2[i] /= fmax(mu, a); }
      in.Wz(t2, t1); for (int i = 0; i < m; i++) { g[i] = t1[i]; gs[i] += 0.5 * (k + 1) * g[i]; }
      for (int w2 = 0; w2 < 2; w2++) {
        double* v = w2 ? z : y; for (int i = 0; i < m; i++) t1[i] = v[i] = (w2 ? xo[i] - gs[i] * mu / L : xk[i] - g[i] * mu / L);
        in.Ax(t1, t2); double s = 0; for (int i = 0; i < n; i++) { t2[i] -= b[i]; s += t2[i] * t2[i]; } s = sqrt(s);
        if (s > o.sigma) { in.Aty(t2, t1); for (int i = 0; i < m; i++) v[i] -= t1[i] * (1 - o.sigma / s); }
      }
      double tk = 2.0 / (k + 3); for (int i = 0; i < m; i++) xk[i] = tk * z[i] + (1 - tk) * y[i];
      int stop = 0; if (nw) { int q = nw < 10 ? nw : 10; double me = 0; for (int i = nw - q; i < nw; i++) me += win[i]; me /= q; stop = fabs(f - me) / me < tol; }
      win[nw++] = f; if (stop) break;
    }
    for (int i = 0; i < m; i++) xo[i] = xk[i];
  }
  in.destroy();
  for (int i = 0; i < m; i++) if (fabs(x[i] - xk[i]) > 1e-7) return bad("the result is not that of steps stopped by the mean of the last ten values");
  return 0;
}''')

plant("step-noise-floor", "C13", [("src/l1qc_newton.c", "    if (!(Prb->dx[i] - Prb->du[i] > 0)) {", "    /* Differences at the level of rounding errors do not move the bound. */\n    if (!(Prb->dx[i] - Prb->du[i] > 1e-12)) {")], "a problem in small units, where all of x, u and the direction are below 1e-12", "the step leaves the set |x| <= u", r'''
#include "l1qc_newton.h"
#include "l1c_logging.h"
static void ax(double* x, double* y) { y[0] = 0; }
int main(void) {
  l1c_l1qcProb P; memset(&P, 0, sizeof P); int m = 4; P.m = m; P.n = 1; P.epsilon = 1;
  P.r = l1c_calloc_double(4); P.dx = l1c_calloc_double(m); P.du = l1c_calloc_double(m); P.fu1 = l1c_calloc_double(m); P.fu2 = l1c_calloc_double(m);
  P.DWORK7 = l1c_calloc_double_2D(7, 4); P.ax_funs.Ax = ax; P.r[0] = 0.1;
  for (int i = 0; i < m; i++) { P.dx[i] = 0; P.du[i] = 2e-14; P.fu1[i] = -1e-14; P.fu2[i] = -1e-14; }
  P.dx[2] = 5e-14; P.du[2] = 1e-14;
  double s = _l1c_l1qc_find_max_step(&P);
  return s <= 0.25 ? 0 : bad("the step leaves the feasible set");
}''')

plant("json-integral", "C21", [("src/json_utils.c", "  *a = (*a_json).valuedouble;", "  /* Integers are kept exactly in valueint. */\n  *a = (*a_json).valuedouble == (*a_json).valueint ? (*a_json).valueint\n                                                   : (*a_json).valuedouble;")], "a negative zero", "the sign of the number is lost", r'''
#include <cjson/cJSON.h>
int extract_json_double(cJSON*, char*, double*);
int main(void) {
  cJSON* j = cJSON_Parse("{\"a\": -0.0, \"b\": -3}"); double a = 1, b = 1;
  if (!j || extract_json_double(j, "a", &a) || extract_json_double(j, "b", &b)) return 2;
  cJSON_Delete(j);
  return signbit(a) && a == 0 && b == -3 ? 0 : bad("the number read is not the one in the file");
}''')

plant("cg-absolute-exit", "C10", [("src/cgsolve.c", "  delta_0 = cblas_ddot(N, b, 1, b, 1); ", "  delta_0 = fmax(cblas_ddot(N, b, 1, b, 1), 1e-20); ")], "a right-hand side of norm below 1e-10", "the relative residual is measured against the floor: the solver stops at once and reports a residual that is not the relative one", r'''
static void ax(l1c_int n, double* x, double* y, void* d) { for (int i = 0; i < n; i++) y[i] = (i + 1) * x[i]; }
int main(void) {
  int n = 5; double *x = l1c_calloc_double(n), *b = l1c_calloc_double(n), **W = l1c_calloc_double_2D(5, n);
  for (int i = 0; i < n; i++) b[i] = 1e-18 * gen(i);
  l1c_CgParams p = {0}; p.tol = 1e-6; p.max_iter = 50; l1c_CgResults r;
  l1c_cgsolve(n, x, b, W, ax, NULL, &r, p);
  double s = 0, t = 0; for (int i = 0; i < n; i++) { double e = (i + 1) * x[i] - b[i]; s += e * e; t += b[i] * b[i]; }
  return sqrt(s / t) <= 1e-5 ? 0 : bad("the system is not solved to the tolerance");
}''')

plant("tau-ceiling", "C12", [("src/l1qc_newton.c", "    params.tau = params.tau * params.mu;", "    /* Beyond this the Newton systems are ill-conditioned. */\n    params.tau = min(params.tau * params.mu, 1e5);")], "a requested accuracy that needs a barrier parameter above 1e5", "the result is less accurate than requested, with status 0", r'''
int main(void) {
  int n = 1, m = 2; double *A = l1c_calloc_double(2), *b = l1c_calloc_double(1), *x = l1c_calloc_double(2); l1c_AxFuns f;
  A[0] = 1; A[1] = 3; b[0] = 2e-6; x[0] = 2e-7; x[1] = 6e-7;
  if (l1c_setup_matrix_transforms(n, m, A, &f)) return 2;
  l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 1e-6; o.mu = 10; o.lbtol = 1e-10; o.newton_tol = 1e-14; o.newton_max_iter = 200; o.cg_tol = 1e-10; o.cg_maxiter = 100;
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, f); f.destroy();
  double best = (2e-6 - 1e-6) / 3;
  return r.status == 0 && r.l1 <= best + 1.25e-9 ? 0 : bad("the result is not as accurate as requested");
}''')

plant("ls-flat-slope", "C11", [("src/linesearch.c", """  double fx0_orig = *fx0;

  double step = ls_params.s;
  /* Make things accessible */
  double* xp = DWORK2[0];""", """  double fx0_orig = *fx0;

  /* A slope at rounding level is no slope. */
  g_dot_dxu = fabs(g_dot_dxu) > 1e-12 ? g_dot_dxu : 0;

  double step = ls_params.s;
  /* Make things accessible */
  double* xp = DWORK2[0];""")], "a directional derivative below 1e-12 in size (small units, or close to the optimum) and a trial that does not decrease enough", "a step without sufficient decrease is accepted", r'''
#include "l1qc_newton.h"
#include "linesearch.h"
static double fe(void* d, double* x, double* u) { return x[0] < 0.3 ? -1e-12 : 0; }
int main(void) {
  double *x = l1c_calloc_double(1), *u = l1c_calloc_double(1), *dx = l1c_calloc_double(1), *du = l1c_calloc_double(1), **W = l1c_calloc_double_2D(2, 1); double f = 0;
  dx[0] = 1; LSParams p = {.alpha = 0.25, .beta = 0.5, .s = 1};
  LSStat s = l1c_linesearch_xu(1, x, u, dx, du, &f, -1e-13, NULL, fe, p, W);
  return s.status == 0 && s.iter == 3 && s.step == 0.25 && f == -1e-12 ? 0 : bad("accepted a trial without sufficient decrease");
}''')
