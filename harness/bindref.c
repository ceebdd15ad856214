/* The C solvers called directly, as the reference of the language bindings. */
#include "config.h"
#include "l1c.h"
#include "l1c_logging.h"
#include "nesta.h"
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static double* cp(const double* x, int n) { double* y = l1c_malloc_double(n > 0 ? n : 1); for (int i = 0; i < n; i++) y[i] = x[i]; return y; }
/* d: epsilon mu lbtol newton_tol l1_tol cg_tol tau   i: newton_max_iter verbose cg_maxiter dct_mode lbiter warm_start */
int ref_l1qc(int mrow, int mcol, int n, const double* b, int* pix, const double* d, const int* i, double* x, double* stats) {
  l1c_L1qcOpts o;
  memset(&o, 0, sizeof o);
  o.epsilon = d[0]; o.mu = d[1]; o.lbtol = d[2]; o.newton_tol = d[3]; o.l1_tol = d[4]; o.cg_tol = d[5]; o.tau = d[6];
  o.newton_max_iter = i[0]; o.verbose = i[1]; o.cg_maxiter = i[2]; o.dct_mode = i[3]; o.lbiter = i[4]; o.warm_start_cg = i[5];
  l1c_LBResult r; memset(&r, 0, sizeof r); r.l1 = INFINITY;
  int N = mrow > 0 && mcol > 0 ? mrow * mcol : 1;
  double *xx = l1c_calloc_double(N), *bb = cp(b, n);
  int st = l1qc_dct(mrow, mcol, xx, n, bb, pix, o, &r);
  for (int k = 0; k < N; k++) x[k] = xx[k];
  stats[0] = r.l1; stats[1] = r.total_newton_iter; stats[2] = r.total_cg_iter; stats[3] = st ? st : r.status;
  l1c_free_double(xx); l1c_free_double(bb);
  return st;
}
/* d: alpha_v alpha_h sigma mu tol   i: n_continue verbose dct_mode bp_mode;  *setup is set if the transforms were refused */
int ref_nesta(int mrow, int mcol, int n, const double* b, int* pix, const double* d, const int* i, double* f, int* setup) {
  l1c_AxFuns a; memset(&a, 0, sizeof a);
  *setup = l1c_setup_dctTV_transforms(n, mrow, mcol, d[0], d[1], i[2], i[3], pix, &a);
  if (*setup) return *setup;
  l1c_NestaOpts o; memset(&o, 0, sizeof o);
  o.sigma = d[2]; o.mu = d[3]; o.tol = d[4]; o.n_continue = i[0]; o.verbose = i[1];
  double *x = l1c_calloc_double(a.m), *bb = cp(b, n), *ff = l1c_calloc_double(a.q);
  int st = l1c_nesta(mrow * mcol, x, n, bb, a, o);
  a.Mx(x, ff);
  for (int k = 0; k < mrow * mcol; k++) f[k] = ff[k];
  a.destroy();
  l1c_free_double(x); l1c_free_double(bb); l1c_free_double(ff);
  return st;
}
int ref_breg(int n, int m, const double* f, double mu, double tol, int it, int jac, double* u) {
  double *ff = cp(f, n * m), *uu = l1c_malloc_double(n * m);
  int st = l1c_breg_anistropic_TV(n, m, uu, ff, mu, tol, it, jac);
  for (int k = 0; k < n * m; k++) u[k] = uu[k];
  l1c_free_double(ff); l1c_free_double(uu);
  return st;
}
int ref_mode(int k) { return k == 0 ? dct1 : k == 1 ? dct2 : k == 2 ? analysis : synthesis; }
void ref_fflush(void) { fflush(NULL); }
