// C15: robustified residuals and Jacobians encode the robust objective.
// pbt-build: flavor=rel
#include "ceres/corrector.h"
#include "eval_model.h"

using namespace ceres;
using namespace pg;
using pbt::Case;

typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> LMat;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> LVec;

// r, j: before; rr, jj: after.  rho at |r|^2.
static void CheckPair(Case& c, const LVec& r, const LMat& j, const LD rho[3], const LVec& rr, const LMat& jj, double tol, double rho_err = 0) {
  const LD s = r.squaredNorm(), k = std::max<LD>(rho[2], 0);
  const int n = j.cols();
  const LVec jr = j.transpose() * r;
  const LVec g = rho[1] * jr, gg = jj.transpose() * rr;
  const LMat h = rho[1] * (j.transpose() * j) + 2 * k * jr * jr.transpose();
  const LMat hh = jj.transpose() * jj;
  // Scales of rounding errors: the terms that were added.
  std::vector<LD> cn(n);
  for (int a = 0; a < n; ++a) cn[a] = j.col(a).norm();
  const LD rn = sqrtl(s), amp = s > 0 && k > 0 ? 1 + 2 * s * k / rho[1] : 1;  // (the corrected columns are combinations with a factor up to this)
  for (int a = 0; a < n; ++a)
    REQUIRE("gradient", fabsl(gg(a) - g(a)) <= tol * sqrtl(amp) * rho[1] * cn[a] * rn + rho_err * cn[a] * rn + 1e-300L, a, ": ", (double)gg(a), " expected ", (double)g(a));
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b)
    REQUIRE("gauss_newton", fabsl(hh(a, b) - h(a, b)) <= tol * amp * rho[1] * cn[a] * cn[b] + rho_err * (1 + s) * cn[a] * cn[b] + 1e-300L, a, ",", b, ": ", (double)hh(a, b), " expected ", (double)h(a, b));
  // The residual keeps its direction.
  LD f = 0;
  if (s > 0) {
    f = rr.dot(r) / s;
    REQUIRE("direction", f >= 0 && (rr - f * r).norm() <= tol * (rr.norm() + 1e-300L), "");
    // |r~|^2 = rho' s / (1 - alpha)^2 with 1 - alpha = sqrt(1 + 2 s rho''/rho').
    if (rho[1] > 0) REQUIRE("norm", fabsl(rr.squaredNorm() - rho[1] * s / amp) <= tol * amp * rho[1] * s + rho_err * s + 1e-300L, (double)rr.squaredNorm());
  }
}

// Any admissible triple of a loss value and derivatives.
PBT_PROP(corrector, 2000000, 12000000) {
  const int rows = c.range(1, 6), cols = c.range(1, 6);
  const double scale = c.coin() ? 1.0 : c.logreal(1e-8, 1e8);
  Vec r, j;
  const int zero = c.range(0, 9);
  for (int i = 0; i < rows; ++i) r.push_back(zero == 9 ? 0.0 : scale * c.sym(2));
  for (int i = 0; i < rows * cols; ++i) j.push_back(c.chance(1, 5) ? 0.0 : c.sym(3));
  double s = 0;
  for (double t : r) s += t * t;
  double rho[3] = {c.real(0, 5), c.pick({1.0, 0.5, 2.0}), 0};
  if (c.coin()) rho[1] = c.logreal(1e-12, 1e6);
  const int kind = c.range(0, 5);
  if (kind == 1) rho[2] = -c.logreal(1e-6, 1e3);
  if (kind == 2 && s > 0) rho[2] = -0.5 * rho[1] / s;      // where the true Hessian becomes singular
  if (kind >= 3) rho[2] = c.logreal(1e-6, 1e2) * rho[1] / std::max(s, 1e-30);
  if (kind == 1 && c.chance(1, 4)) rho[1] = 0;              // flat: Tukey's outliers
  if (rho[1] == 0) rho[2] = c.coin() ? 0 : -1;
  c.label(s == 0 ? "zero residual" : rho[2] > 0 ? "convex" : rho[2] < 0 ? "concave" : "linear");
  c.nontrivial(s > 0 && rho[1] != 1);
  c.note() << rows << "x" << cols << " s=" << s << " rho'=" << rho[1] << " rho''=" << rho[2];
  Vec rr = r, jj = j;
  internal::Corrector corrector(s, rho);
  corrector.CorrectJacobian(rows, cols, rr.data(), jj.data());
  REQUIRE("residual_touched", rr == r, "");
  corrector.CorrectResiduals(rows, rr.data());
  LVec R(rows), RR(rows);
  LMat J(rows, cols), JJ(rows, cols);
  for (int i = 0; i < rows; ++i) { R(i) = r[i]; RR(i) = rr[i]; for (int k = 0; k < cols; ++k) { J(i, k) = j[i * cols + k]; JJ(i, k) = jj[i * cols + k]; } }
  const LD l[3] = {rho[0], rho[1], rho[2]};
  CheckPair(c, R, J, l, RR, JJ, 1e-13);
}

// The same through the problem, block by block and whole.
PBT_PROP(residual_blocks, 600000, 3000000) {
  GenOptions g;
  g.max_blocks = 4;
  g.max_res = 4;
  Spec s = Gen(c, g);
  for (auto& r : s.res) if (c.chance(1, 2)) r.loss = GenLoss(c);
  Instance in(s);
  c.note() << s.Str();
  const auto x = in.Values();
  double cost_sum = 0, scale_sum = 0;
  for (size_t i = 0; i < s.res.size(); ++i) {
    const ResSpec& r = s.res[i];
    auto eval = [&](bool loss, double* cost, LVec* res, LMat* jac) {
      std::vector<Vec> jb(r.blocks.size());
      std::vector<double*> jp;
      Vec rv(r.rows);
      int cols = 0;
      for (size_t k = 0; k < r.blocks.size(); ++k) {
        const BlockSpec& b = s.blocks[r.blocks[k]];
        const int t = b.constant ? 0 : b.tangent();
        jb[k].assign(r.rows * t, 0);
        jp.push_back(t ? jb[k].data() : nullptr);
        cols += t;
      }
      REQUIRE("evaluate", in.problem->EvaluateResidualBlock(in.ids[i], loss, cost, rv.data(), jp.data()), i);
      res->resize(r.rows);
      jac->resize(r.rows, cols);
      for (int a = 0; a < r.rows; ++a) {
        (*res)(a) = rv[a];
        int o = 0;
        for (size_t k = 0; k < jb.size(); ++k) { const int t = jb[k].size() / r.rows; for (int b = 0; b < t; ++b) (*jac)(a, o++) = jb[k][a * t + b]; }
      }
    };
    double c0, c1;
    LVec r0, r1;
    LMat j0, j1;
    eval(false, &c0, &r0, &j0);
    eval(true, &c1, &r1, &j1);
    const LD sq = r0.squaredNorm();
    LD rho[3];
    r.loss.Rho(sq, rho);
    REQUIRE("raw_cost", pbt::Close(c0, (double)(sq / 2), 1e-13, 1e-300), c0);
    REQUIRE("robust_cost", pbt::Close(c1, (double)(rho[0] / 2), 1e-11, 1 + (double)fabsl(rho[0])), c1, " expected ", (double)(rho[0] / 2));
    cost_sum += c1;
    scale_sum += std::fabs(c1);
    if (r.loss.kind == kNoLoss || r.loss.kind == kTrivial) {
      REQUIRE("changed_without_loss", r0 == r1 && j0 == j1 && c0 == c1, i);
      c.label("no loss");
    } else {
      // Next to a threshold the two formulas differ in the second derivative.
      LD a[3], b[3];
      r.loss.Rho(sq * (1 + 1e-11L), a);
      r.loss.Rho(sq * (1 - 1e-11L), b);
      const LD jump = fabsl(a[2] - b[2]) * sq;
      if (jump > 1e-6L * (fabsl(rho[1]) + fabsl(rho[2]) * sq)) { c.label("at a threshold"); continue; }
      CheckPair(c, r0, j0, rho, r1, j1, 1e-10, 1e-11);
      c.label(rho[2] > 0 ? "convex" : rho[2] < 0 ? "concave" : "linear");
      c.nontrivial(sq > 0);
    }
  }
  // The problem as a whole: gradient of the robust cost.
  double cost;
  Vec grad;
  REQUIRE("evaluate", in.problem->Evaluate(Problem::EvaluateOptions(), &cost, nullptr, &grad, nullptr), "");
  REQUIRE("sum", pbt::Close(cost, cost_sum, 1e-12, scale_sum), cost, " ", cost_sum);
  double gs;
  const auto tg = s.TangentGradient(x, &gs);
  size_t o = 0;
  for (size_t b = 0; b < s.blocks.size(); ++b) {  // (in the order they were added)
    const int t = s.blocks[b].tangent();
    for (int k = 0; k < t; ++k, ++o) {
      const double e = s.blocks[b].constant ? 0.0 : tg[b][k];
      REQUIRE("total_gradient", o < grad.size() && std::fabs(grad[o] - e) <= 1e-9 * (1 + 30 * gs), "block ", b, " ", grad[o], " expected ", e);
    }
  }
  // Without losses nothing is corrected.
  Problem::EvaluateOptions raw;
  raw.apply_loss_function = false;
  Vec rv;
  REQUIRE("evaluate", in.problem->Evaluate(raw, &cost, &rv, nullptr, nullptr), "");
  double t = 0;
  for (double v : rv) t += v * v;
  REQUIRE("raw_sum", pbt::Close(cost, t / 2, 1e-12, 1e-300), cost, " ", t / 2);
}

PBT_MAIN("C15", "a non-zero residual under a loss whose slope is not one, or a residual block with a robust loss")
