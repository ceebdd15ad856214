#pragma once
#define restrict __restrict__
#include "ops.hpp"
extern "C" {
#include "l1c_math.h"
#include "vcl_math.h"
#include "TV.h"
#include "bregman.h"
#include "l1qc_newton.h"
#include "linesearch.h"
#include "nesta.h"
}
static const double EPS = 2.220446049250313e-16;
// equality of doubles where NaN==NaN and infinities must match, otherwise |a-b|<=tol
inline bool near(double a, double b, double tol) {
  if (std::isnan(b)) return std::isnan(a);
  if (std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol;
}
inline int quiet_printf(const char*, ...) { return 0; }
