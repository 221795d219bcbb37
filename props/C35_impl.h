#ifndef C35_H
#define C35_H
#include <algorithm>
#include <cstring>
#include <limits>
#include <memory>

#include "Eigen/Dense"
#include "ceres/context_impl.h"
#include "ceres/dense_cholesky.h"
#include "ceres/dense_qr.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/internal/array_selector.h"
#include "ceres/internal/householder_vector.h"
#include "ceres/invert_psd_matrix.h"
#include "ceres/jet.h"
#include "ceres/linear_solver.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/small_blas.h"
#include "pbt.h"

using pbt::Case;
using namespace ceres;
using namespace ceres::internal;
typedef long double LD;
constexpr int D = Eigen::Dynamic;

// An operand in an exactly sized heap allocation (so that the address
// sanitizer sees any access outside of it), at a generated alignment.
struct Buf {
  std::unique_ptr<char[]> mem;
  double* p;
  int n;
  Buf(Case& c, int n, bool misalign) : n(n) {
    const int off = misalign ? 8 : 0;
    mem.reset(new char[n * sizeof(double) + off]);
    p = reinterpret_cast<double*>(mem.get() + off);
    for (int i = 0; i < n; ++i) p[i] = c.sym(3);
  }
};
static std::vector<double> Vec(const Buf& b) { return std::vector<double>(b.p, b.p + b.n); }
static bool SameBits(const double* a, const double* b, int n) { return std::memcmp(a, b, n * sizeof(double)) == 0; }

// ----------------------------------------------------------- factorisations
typedef Eigen::Matrix<LD, D, D> LMat;
typedef Eigen::Matrix<LD, D, 1> LVec;

// Q diag(s) Q' for a random orthogonal Q (product of reflections), built in
// long double.
static LMat Orthogonal(Case& c, int n) {
  LMat Q = LMat::Identity(n, n);
  const int k = c.range(0, 3);
  for (int t = 0; t < k; ++t) {
    LVec v(n);
    LD s = 0;
    for (int i = 0; i < n; ++i) { v(i) = c.sym(); s += v(i) * v(i); }
    if (s == 0) continue;
    Q -= (2 / s) * v * (v.transpose() * Q);
  }
  return Q;
}

#endif
