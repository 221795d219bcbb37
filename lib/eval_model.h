// Dense model of Problem::Evaluate, written from the documentation.
#ifndef VERIF_EVAL_MODEL_H_
#define VERIF_EVAL_MODEL_H_
#include "problem_gen.h"

namespace pg {

struct DenseEval {
  double cost = 0, cost_scale = 0;
  Vec residuals, gradient;
  Mat jacobian;                  // rows x tangent columns of the listed blocks (constant blocks: zero columns)
  std::vector<int> row_start;    // first row of each listed residual
  std::vector<int> col_start;    // first column of each listed block
  double res_scale = 1, jac_scale = 1, grad_scale = 1;  // for tolerances
};

inline Mat PlusJacobianOf(const BlockSpec& b, const Vec& x) {
  if (b.mani.kind == kNone) return Mat::Identity(b.size, b.size);
  Mat p(b.size, b.tangent());
  if (b.tangent() == 0) return p;
  std::unique_ptr<ceres::Manifold> m(b.mani.Make());
  m->PlusJacobian(x.data(), p.data());
  return p;
}

// Residual and Jacobian with respect to all inputs after the robust correction.
inline void Corrected(const LossSpec& loss, bool apply, VecX* r, Mat* j) {
  if (!apply || loss.kind == kNoLoss) return;
  LD s = 0;
  for (int i = 0; i < r->size(); ++i) s += (LD)(*r)(i) * (*r)(i);
  LD rho[3];
  loss.Rho(s, rho);
  const LD sq = sqrtl(rho[1]);
  if (s == 0 || rho[2] <= 0) { *j *= (double)sq; *r *= (double)sq; return; }
  const LD alpha = 1 - sqrtl(1 + 2 * s * rho[2] / rho[1]);
  *j = (double)sq * (*j - (double)(alpha / s) * (*r) * (r->transpose() * *j));
  *r *= (double)(sq / (1 - alpha));
}

inline DenseEval Model(const Spec& s, const std::vector<Vec>& x, const std::vector<int>& res, const std::vector<int>& blocks, bool apply_loss) {
  DenseEval e;
  int rows = 0, cols = 0;
  for (int i : res) { e.row_start.push_back(rows); rows += s.res[i].rows; }
  std::vector<int> col_of(s.blocks.size(), -1);
  for (int b : blocks) { e.col_start.push_back(cols); col_of[b] = s.blocks[b].constant ? -1 : cols; cols += s.blocks[b].tangent(); }
  e.jacobian = Mat::Zero(rows, cols);
  e.residuals.assign(rows, 0);
  e.gradient.assign(cols, 0);
  std::vector<LD> g(cols, 0);
  LD cost = 0, cscale = 0;
  for (size_t q = 0; q < res.size(); ++q) {
    const ResSpec& r = s.res[res[q]];
    Vec in = s.Gather(r, x);
    VecX v(r.rows);
    r.Value(in.data(), v.data());
    Mat j;
    r.Jacobian(in.data(), &j);
    LD sq = 0;
    for (int i = 0; i < r.rows; ++i) sq += (LD)v(i) * v(i);
    LD rho[3] = {sq, 1, 0};
    if (apply_loss) r.loss.Rho(sq, rho);
    cost += rho[0] / 2;
    cscale += fabsl(rho[0]) / 2 + 1e-300L;
    e.res_scale = std::max(e.res_scale, v.lpNorm<Eigen::Infinity>());
    const double jn = j.size() ? j.cwiseAbs().maxCoeff() : 0;
    e.jac_scale = std::max(e.jac_scale, jn * (double)(1 + (apply_loss ? fabsl(rho[2]) * sq : 0)));
    e.grad_scale = std::max(e.grad_scale, jn * v.lpNorm<Eigen::Infinity>() * r.rows);
    int c = 0;
    VecX cv = v; Mat cj = j;
    Corrected(r.loss, apply_loss, &cv, &cj);
    for (int i = 0; i < r.rows; ++i) e.residuals[e.row_start[q] + i] = cv(i);
    for (int b : r.blocks) {
      const int n = s.blocks[b].size, t = s.blocks[b].tangent();
      if (col_of[b] >= 0 && t > 0) {
        const Mat p = PlusJacobianOf(s.blocks[b], x[b]);
        e.jacobian.block(e.row_start[q], col_of[b], r.rows, t) += cj.block(0, c, r.rows, n) * p;
        const Mat jt = j.block(0, c, r.rows, n) * p;
        for (int k = 0; k < t; ++k) for (int i = 0; i < r.rows; ++i) g[col_of[b] + k] += rho[1] * jt(i, k) * v(i);
      }
      c += n;
    }
  }
  for (int k = 0; k < cols; ++k) e.gradient[k] = (double)g[k];
  e.cost = (double)cost;
  e.cost_scale = (double)cscale;
  return e;
}

// Dense copy of a CRS matrix; fails the case when the structure is invalid.
inline Mat Dense(pbt::Case& c, const ceres::CRSMatrix& m) {
  REQUIRE("crs_rows", (int)m.rows.size() == m.num_rows + 1 && m.rows[0] == 0, m.rows.size(), " ", m.num_rows);
  REQUIRE("crs_sizes", m.cols.size() == m.values.size() && (int)m.cols.size() == m.rows.back(), m.cols.size(), " ", m.values.size(), " ", m.rows.back());
  Mat d = Mat::Zero(m.num_rows, m.num_cols);
  std::vector<int> seen(m.num_cols, -1);
  for (int i = 0; i < m.num_rows; ++i) {
    REQUIRE("crs_monotone", m.rows[i] <= m.rows[i + 1], i);
    for (int k = m.rows[i]; k < m.rows[i + 1]; ++k) {
      REQUIRE("crs_column", m.cols[k] >= 0 && m.cols[k] < m.num_cols, m.cols[k]);
      REQUIRE("crs_duplicate", seen[m.cols[k]] != i, "row ", i, " column ", m.cols[k]);
      seen[m.cols[k]] = i;
      d(i, m.cols[k]) = m.values[k];
    }
  }
  return d;
}

}  // namespace pg
#endif
