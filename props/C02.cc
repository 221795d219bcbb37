// C02: linear least squares problems are solved to the exact minimiser.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VecL;

// The minimiser over x0 + span(S) for all free blocks, by long double QR.
static std::vector<Vec> Minimiser(const Spec& s) {
  int n = 0, m = 0;
  std::vector<int> off;
  std::vector<Mat> basis;
  for (auto& b : s.blocks) {
    off.push_back(n);
    Mat q = Mat::Identity(b.size, b.size);
    if (b.constant) q.resize(b.size, 0);
    else if (b.mani.kind == kSubset) {
      q.setZero(b.size, b.tangent());
      int j = 0;
      for (int k = 0; k < b.size; ++k)
        if (std::find(b.mani.fixed.begin(), b.mani.fixed.end(), k) == b.mani.fixed.end()) q(k, j++) = 1;
    } else if (b.mani.kind == kLinear) q = b.mani.s;
    basis.push_back(q);
    n += q.cols();
  }
  for (auto& r : s.res) m += r.rows;
  MatL j = MatL::Zero(m, n);
  VecL rhs = VecL::Zero(m);
  int row = 0;
  for (auto& r : s.res) {
    int col = 0;
    for (int i = 0; i < r.rows; ++i) rhs[row + i] = r.target[i];
    for (int b : r.blocks) {
      const int sz = s.blocks[b].size;
      const MatL a = r.a.block(0, col, r.rows, sz).cast<LD>();
      if (basis[b].cols()) j.block(row, off[b], r.rows, basis[b].cols()) += a * basis[b].cast<LD>();
      rhs.segment(row, r.rows) -= a * Eigen::Map<const VecX>(s.blocks[b].x0.data(), sz).cast<LD>();
      col += sz;
    }
    row += r.rows;
  }
  std::vector<Vec> x = s.Start();
  if (n == 0) return x;
  const VecL d = j.householderQr().solve(rhs);
  for (size_t b = 0; b < x.size(); ++b) {
    if (!basis[b].cols()) continue;
    const VecL dx = basis[b].cast<LD>() * d.segment(off[b], basis[b].cols());
    for (size_t k = 0; k < x[b].size(); ++k) x[b][k] = (double)((LD)x[b][k] + dx[k]);
  }
  return x;
}

static Spec GenLinear(pbt::Case& c) {
  GenOptions g;
  g.nonlinear = false;
  g.losses = false;
  g.curved = false;
  g.full_rank = true;
  g.unused_blocks = true;
  g.max_blocks = 8;
  g.max_res = 14;
  Spec s = Gen(c, g);
  if (c.chance(1, 5)) for (auto& r : s.res) if (c.coin()) r.loss.kind = kTrivial;
  if (c.chance(1, 4)) for (auto& b : s.blocks) for (double& x : b.x0) x *= 50;  // far starts
  return s;
}

// Any trust region configuration converges to the minimiser.
PBT_PROP(converges, 150000, 4000000) {
  Spec s = GenLinear(c);
  ConfigOptions co;
  co.line_search = false;
  co.tight = true;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_trust_region_radius = 1e16;
  cfg.o.max_num_iterations = 300;
  // Inexact steps: ask for accurate ones, truncated Newton steps may stall.
  cfg.o.eta = 1e-10;
  cfg.o.gradient_tolerance = 1e-9 * (1 + MaxAbs(s.Start()));
  c.note() << s.Str() << " | " << cfg.str;
  const std::vector<Vec> want = Minimiser(s);
  Instance in(s);
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  if (getenv("PG_TRACE"))
    for (auto& i : sum.iterations)
      fprintf(stderr, "it %d cost %.17g change %g ok %d valid %d reldec %g radius %g step %g g %g lin %d\n", i.iteration, i.cost, i.cost_change, i.step_is_successful,
              i.step_is_valid, i.relative_decrease, i.trust_region_radius, i.step_norm, i.gradient_max_norm, i.linear_solver_iterations);
  c.label(Name(sum.linear_solver_type_used));
  REQUIRE("unusable", sum.IsSolutionUsable(), sum.message);
  const double d = MaxDiff(in.Values(), want), scale = 1 + MaxAbs(want) + 0.01 * MaxAbs(s.Start());
  REQUIRE("not_the_minimiser", d <= 2e-6 * scale, "distance ", d, " scale ", scale, " iterations ", sum.iterations.size(), " ", sum.message, " got ",
          StrX(in.Values()), " want ", StrX(want));
  c.nontrivial(sum.num_parameter_blocks_reduced > 1 && sum.iterations.size() > 1);
}

// With a huge trust region one exact step is enough.
PBT_PROP(one_step, 150000, 4000000) {
  Spec s = GenLinear(c);
  ConfigOptions co;
  co.line_search = false;
  co.exact_only = true;
  co.inner = false;
  co.nonmonotonic = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_trust_region_radius = 1e18;
  cfg.o.initial_trust_region_radius = 1e16;
  cfg.o.min_lm_diagonal = 1e-6;
  cfg.o.max_lm_diagonal = 1e6;
  cfg.o.min_trust_region_radius = 1e-32;
  cfg.o.max_num_iterations = 1;
  cfg.o.gradient_tolerance = cfg.o.function_tolerance = cfg.o.parameter_tolerance = 0;
  c.note() << s.Str() << " | " << cfg.str;
  const std::vector<Vec> want = Minimiser(s);
  Instance in(s);
  const double far = MaxDiff(in.Values(), want);
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  c.label(Name(sum.linear_solver_type_used));
  REQUIRE("unusable", sum.IsSolutionUsable(), sum.message);
  const double scale = 1 + MaxAbs(want) + far;
  const double d = MaxDiff(in.Values(), want);
  REQUIRE("step_is_not_exact", d <= (cfg.o.trust_region_strategy_type == ceres::DOGLEG ? 1e-6 : 1e-8) * scale, "distance ", d, " scale ", scale, " ", sum.message);
  c.nontrivial(sum.num_parameter_blocks_reduced > 1 && far > 1e-3);
}

PBT_MAIN("C02", "at least two free parameter blocks, and the minimiser was not the start")
