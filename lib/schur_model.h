// A dense long double double of the Schur complement of a block-structured matrix.
#ifndef VERIF_SCHUR_MODEL_H_
#define VERIF_SCHUR_MODEL_H_

#include <cmath>
#include <vector>

#include "block_gen.h"
#include "ceres/internal/eigen.h"

namespace sm {

using LD = long double;
using ceres::Matrix;
using ceres::Vector;

// A minimal dense long double matrix; the oracle shares no code with the library.
struct Mat {
  int r = 0, c = 0;
  std::vector<LD> v;
  Mat() {}
  Mat(int r_, int c_) : r(r_), c(c_), v((size_t)r_ * c_, 0) {}
  LD& operator()(int i, int j) { return v[(size_t)i * c + j]; }
  LD operator()(int i, int j) const { return v[(size_t)i * c + j]; }
  LD Max() const { LD m = 0; for (LD x : v) m = std::max(m, fabsl(x)); return m; }
};
inline Mat Mul(const Mat& a, const Mat& b, bool ta = false) {
  const int n = ta ? a.c : a.r, k = ta ? a.r : a.c;
  Mat m(n, b.c);
  for (int i = 0; i < n; ++i)
    for (int l = 0; l < k; ++l) {
      const LD x = ta ? a(l, i) : a(i, l);
      if (x != 0) for (int j = 0; j < b.c; ++j) m(i, j) += x * b(l, j);
    }
  return m;
}
// Inverse of a positive definite matrix; false if it is not (numerically).
inline bool Inverse(Mat m, Mat* inv) {
  const int n = m.r;
  Mat L(n, n);
  for (int j = 0; j < n; ++j) {
    LD d = m(j, j);
    for (int k = 0; k < j; ++k) d -= L(j, k) * L(j, k);
    if (!(d > 1e-14L * m(j, j))) return false;
    L(j, j) = sqrtl(d);
    for (int i = j + 1; i < n; ++i) {
      LD s = m(i, j);
      for (int k = 0; k < j; ++k) s -= L(i, k) * L(j, k);
      L(i, j) = s / L(j, j);
    }
  }
  *inv = Mat(n, n);
  for (int col = 0; col < n; ++col) {
    std::vector<LD> y(n, 0);
    for (int i = 0; i < n; ++i) {
      LD s = i == col ? 1 : 0;
      for (int k = 0; k < i; ++k) s -= L(i, k) * y[k];
      y[i] = s / L(i, i);
    }
    for (int i = n - 1; i >= 0; --i) {
      LD s = y[i];
      for (int k = i + 1; k < n; ++k) s -= L(k, i) * (*inv)(k, col);
      (*inv)(i, col) = s / L(i, i);
    }
  }
  return true;
}

struct System {
  bg::Spec s;
  Matrix A;
  Vector b, D;
  bool use_d = false;
  int ne = 0, nf = 0, m = 0;
  Mat E, F, EtEi, S, rhs, EtF;  // EtEi: (pseudo) inverse of E'E + D'D
  std::vector<bool> dead;       // zero columns of E
  LD cond = 1;                  // worst condition estimate of an e block

  std::vector<int> fpos() const { std::vector<int> p; int x = 0; for (size_t i = s.num_e; i < s.cols.size(); ++i) { p.push_back(x); x += s.cols[i]; } return p; }
  bool Solve() {
    m = A.rows(); ne = s.num_cols_e(); nf = s.num_cols() - ne;
    E = Mat(m, ne); F = Mat(m, nf);
    for (int i = 0; i < m; ++i) { for (int j = 0; j < ne; ++j) E(i, j) = A(i, j); for (int j = 0; j < nf; ++j) F(i, j) = A(i, ne + j); }
    if (dead.empty()) dead.assign(ne, false);
    EtEi = Mat(ne, ne);
    int p = 0;
    for (int e = 0; e < s.num_e; ++e) {
      std::vector<int> live;
      for (int j = 0; j < s.cols[e]; ++j) if (!dead[p + j]) live.push_back(p + j);
      Mat g(live.size(), live.size()), gi;
      for (size_t i = 0; i < live.size(); ++i)
        for (size_t j = 0; j < live.size(); ++j) {
          for (int k = 0; k < m; ++k) g(i, j) += E(k, live[i]) * E(k, live[j]);
          if (i == j && use_d) g(i, j) += (LD)D(live[i]) * D(live[i]);
        }
      if (!Inverse(g, &gi)) return false;
      cond = std::max(cond, g.Max() * gi.Max() * live.size());
      for (size_t i = 0; i < live.size(); ++i) for (size_t j = 0; j < live.size(); ++j) EtEi(live[i], live[j]) = gi(i, j);
      p += s.cols[e];
    }
    if (cond > 1e7L) return false;
    EtF = Mul(E, F, true);
    const Mat W = Mul(EtEi, EtF);
    S = Mul(F, F, true);
    const Mat T = Mul(EtF, W, true);
    for (int i = 0; i < nf; ++i) for (int j = 0; j < nf; ++j) S(i, j) -= T(i, j);
    if (use_d) for (int i = 0; i < nf; ++i) S(i, i) += (LD)D(ne + i) * D(ne + i);
    Mat bb(m, 1);
    for (int i = 0; i < m; ++i) bb(i, 0) = b(i);
    rhs = Mul(F, bb, true);
    const Mat q = Mul(W, Mul(E, bb, true), true);
    for (int i = 0; i < nf; ++i) rhs(i, 0) -= q(i, 0);
    return true;
  }
  // (E'E)^-1 E'(b - F z)
  Mat Back(const Vector& z) const {
    Mat r(m, 1);
    for (int i = 0; i < m; ++i) { r(i, 0) = b(i); for (int j = 0; j < nf; ++j) r(i, 0) -= F(i, j) * (LD)z(j); }
    return Mul(EtEi, Mul(E, r, true));
  }
  double Scale() const { const LD f = F.Max() + 1e-30L, e = E.Max(); (void)e; return (double)(f * f * m * cond + (use_d ? D.squaredNorm() : 0)); }
};
constexpr double kEps = 2.3e-16;


}  // namespace sm

#endif  // VERIF_SCHUR_MODEL_H_
