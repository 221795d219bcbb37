// Reference solutions in long double, compiled without sanitizers for speed.
#include "C17_oracle.h"

#include "Eigen/Dense"

using LD = long double;
using LM = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<LD, Eigen::Dynamic, 1>;

double ConditionNumber(const double* rowmajor, int m, int n, const double* D, double* smallest, double* largest) {
  Eigen::MatrixXd S = Eigen::MatrixXd::Zero(m + (D ? n : 0), n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) S(i, j) = rowmajor[i * n + j];
  if (D) for (int j = 0; j < n; ++j) S(m + j, j) = D[j];
  if (S.rows() < n) return HUGE_VAL;
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(S);
  const double hi = svd.singularValues()(0), lo = svd.singularValues()(n - 1);
  if (smallest) *smallest = lo;
  if (largest) *largest = hi;
  return lo > 0 ? hi / lo : HUGE_VAL;
}

void LeastSquares(const double* rowmajor, int m, int n, const double* b, const double* D, double* x) {
  LM S = LM::Zero(m + (D ? n : 0), n);
  LV r = LV::Zero(S.rows());
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) S(i, j) = rowmajor[i * n + j];
  if (D) for (int j = 0; j < n; ++j) S(m + j, j) = D[j];
  for (int i = 0; i < m; ++i) r(i) = b[i];
  const LV y = S.colPivHouseholderQr().solve(r);
  for (int j = 0; j < n; ++j) x[j] = (double)y(j);
}
