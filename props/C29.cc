// C29: failing or non-finite user code never corrupts a solve.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;

// ---- faults -------------------------------------------------------------------
// A fault plan decides, per evaluation, what goes wrong.
struct Plan {
  int mode = 0;  // 0 at given evaluation numbers, 1 beyond a plane, 2 on a speckle of cells, 3 with a probability
  int kind = kReturnFalse;
  int res = 0;   // the residual concerned (-1: all)
  int coord = 0;
  double threshold = 0;
  bool only_jac = false;  // only when Jacobians are requested
  bool only_res = false;  // only when they are not
  std::set<int64_t> at;
  uint64_t salt = 0;
  int one_in = 4;
  std::string str;
  bool Region(double v) const {
    if (mode == 1) return v > threshold;
    if (mode == 2) {
      uint64_t h = (uint64_t)(int64_t)std::floor(v * 8.0) * 0x9e3779b97f4a7c15ull + salt;
      h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
      return h % one_in == 0;
    }
    return false;
  }
};

static Plan GenPlan(pbt::Case& c, const Spec& s) {
  Plan p;
  p.mode = c.range(0, 3);
  p.kind = c.pick({kReturnFalse, kNanResidual, kInfResidual, kNanJacobian, kInfJacobian});
  p.res = c.chance(1, 4) ? -1 : c.range(0, (int)s.res.size() - 1);
  const int r = std::max(0, p.res);
  p.coord = 0;
  const double x0 = s.blocks[s.res[r].blocks[0]].x0[p.coord];
  p.threshold = x0 + c.pick({0.01, 0.3, 1.0, 1e-9, -0.01});
  p.salt = c.draw(1000);
  p.one_in = c.pick({4, 2, 8});
  if (p.kind == kReturnFalse) { p.only_jac = c.chance(1, 4); p.only_res = !p.only_jac && c.chance(1, 4); }
  if (p.mode == 0) {
    const int n = c.range(1, 4);
    for (int i = 0; i < n; ++i) p.at.insert(c.range(0, c.pick({5, 30, 100})));
  }
  static const char* mn[] = {"at", "plane", "cells", "random"};
  static const char* kn[] = {"", "false", "nan residual", "inf residual", "nan jacobian", "inf jacobian"};
  p.str = pbt::Str(mn[p.mode], " ", kn[p.kind], " res ", p.res, p.only_jac ? " jac" : "", p.only_res ? " res-only" : "");
  if (p.mode == 1) p.str += pbt::Str(" x[", p.coord, "]>", p.threshold);
  for (auto k : p.at) p.str += pbt::Str(" ", k);
  return p;
}

struct Injector {
  Plan p;
  std::map<int, int64_t> seen;  // evaluations per residual
  int64_t total = 0, faults = 0;
  uint64_t rng = 88172645463325252ull;
  int operator()(int r, const double* const* x, bool jac) {
    ++total;
    const int64_t k = p.res < 0 ? total - 1 : seen[r]++;
    if (p.res >= 0 && r != p.res) return kOk;
    if (p.only_jac && !jac) return kOk;
    if (p.only_res && jac) return kOk;
    if ((p.kind == kNanJacobian || p.kind == kInfJacobian) && !jac) return kOk;
    bool f = false;
    if (p.mode == 0) f = p.at.count(k) > 0;
    else if (p.mode == 3) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; f = rng % (p.one_in * 4) == 0; }
    else f = p.Region(x[0][0]);
    if (f) ++faults;
    return f ? p.kind : kOk;
  }
  // Whether residual r would fail at x, for plans that depend on the point only.
  bool FailsAt(const Spec& s, const std::vector<Vec>& x) const {
    if (p.mode != 1 && p.mode != 2) return false;
    if (p.kind == kNanJacobian || p.kind == kInfJacobian || p.only_jac || p.only_res) return false;
    for (size_t r = 0; r < s.res.size(); ++r)
      if (p.res < 0 || p.res == (int)r) if (p.Region(x[s.res[r].blocks[0]][0])) return true;
    return false;
  }
};

// Checks the outcome of a solve with faults.
static void Outcome(pbt::Case& c, const Spec& s, const ceres::Solver::Summary& sum, const std::vector<Vec>& start, const std::vector<Vec>& end, const Injector* inj, bool unseen_nan = false) {
  if (!sum.IsSolutionUsable()) {
    REQUIRE("not_restored", SameBits(start, end), sum.message, " ", StrX(start), " -> ", StrX(end));
    REQUIRE("silent_failure", !sum.message.empty(), "");
    return;
  }
  // (A cost function that ignores a coordinate does not notice a manifold that makes it NaN.)
  for (auto& v : end) for (double d : v) { if (unseen_nan && !std::isfinite(d)) return; REQUIRE("nonfinite_result", std::isfinite(d), StrX(end)); }
  REQUIRE("nonfinite_cost", std::isfinite(sum.final_cost) && std::isfinite(sum.initial_cost), sum.final_cost);
  const double cost = (double)s.Cost(end), cs = (double)s.CostScale(end) + 1e-3;
  REQUIRE("final_cost", std::fabs(cost - sum.final_cost) <= 1e-10 * cs, cost, " reported ", sum.final_cost);
  REQUIRE("worse", sum.final_cost <= sum.initial_cost, sum.initial_cost, " -> ", sum.final_cost);
  if (inj && sum.num_effective_parameters_reduced > 0) REQUIRE("ended_where_evaluation_fails", !inj->FailsAt(s, end), StrX(end));
}

PBT_PROP(cost_faults, 130000, 4000000) {
  GenOptions g;
  g.bounds = c.chance(1, 5);
  g.scale = c.pick({2.0, 2.0, 6.0});
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = !g.bounds;
  Config cfg = GenConfig(c, s, co);
  if (c.chance(1, 3)) cfg.o.max_num_consecutive_invalid_steps = c.range(0, 3);
  Instance in(s);
  Injector inj;
  inj.p = GenPlan(c, s);
  c.note() << s.Str() << " | " << cfg.str << " | " << inj.p.str;
  in.rec.hook = [&](int r, const double* const* x, bool j) { return inj(r, x, j); };
  ceres::Solver::Summary sum;
  const auto start = in.Values();
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  const auto end = in.Values();
  if (!g.bounds || !sum.IsSolutionUsable() || sum.iterations.size() > 0) Outcome(c, s, sum, start, end, &inj);
  const bool tr = cfg.o.minimizer_type == ceres::TRUST_REGION;
  // The start cannot be evaluated: that is a failure.  (Some of its residuals are irrelevant without Jacobians.)
  if (inj.FailsAt(s, start)) {
    REQUIRE("bad_start_accepted", sum.termination_type == ceres::FAILURE, sum.message);
    c.label("bad start");
  } else if (sum.termination_type == ceres::FAILURE && inj.p.mode != 0 && inj.p.mode != 3 && tr && !cfg.o.use_inner_iterations) {
    // Failures depend on the point only, so an accepted point was evaluated before.
    const bool residual_kind = (inj.p.kind == kReturnFalse && !inj.p.only_res && !inj.p.only_jac) || inj.p.kind == kNanResidual || inj.p.kind == kInfResidual;
    if (residual_kind) REQUIRE("trial_failure_is_fatal", sum.message.find("valuation failed") == std::string::npos, sum.message);
  }
  // A trial point that fails is a rejected step, not progress.
  for (auto& it : sum.iterations) if (it.step_is_successful) REQUIRE("accepted_nonfinite", std::isfinite(it.cost) && it.cost < 1e300, it.cost);
  // The problem stays usable.
  in.rec.hook = nullptr;
  in.Set(start);
  double cost;
  REQUIRE("unusable_afterwards", in.problem->Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, nullptr, nullptr), "");
  REQUIRE("changed_afterwards", std::fabs(cost - (double)s.Cost(start)) <= 1e-10 * ((double)s.CostScale(start) + 1e-3), cost);
  if (inj.faults) c.label(sum.IsSolutionUsable() ? "faults survived" : "faults ended the solve");
  c.nontrivial(inj.faults > 0 && (sum.iterations.size() > 1 || !sum.IsSolutionUsable()));
}

// ---- manifolds ------------------------------------------------------------------
struct ManiFault {
  std::mutex mu;
  int mode = 0;  // 0: at the given Plus calls, 1: long steps, 2: at the given Jacobian calls, 3: with a probability
  int kind = 0;  // 0 false, 1 false and output untouched garbage, 2 NaN output
  std::set<int64_t> at;
  double longest = 0;
  int64_t plus = 0, jac = 0, faults = 0;
  bool last_failed = false, armed = false;
  uint64_t rng = 88172645463325252ull;
};
class FaultyManifold : public ceres::Manifold {
 public:
  FaultyManifold(ceres::Manifold* m, int n, ManiFault* f) : m_(m), n_(n), f_(f) {}
  int AmbientSize() const override { return n_; }
  int TangentSize() const override { return m_ ? m_->TangentSize() : n_; }
  bool Plus(const double* x, const double* d, double* y) const override {
    std::lock_guard<std::mutex> l(f_->mu);
    bool bad = false;
    if (f_->armed) {
      if (f_->mode == 0) bad = f_->at.count(f_->plus) > 0;
      if (f_->mode == 1) { double t = 0; for (int i = 0; i < TangentSize(); ++i) t += d[i] * d[i]; bad = std::sqrt(t) > f_->longest; }
      if (f_->mode == 3) { f_->rng ^= f_->rng << 13; f_->rng ^= f_->rng >> 7; f_->rng ^= f_->rng << 17; bad = f_->rng % 9 == 0; }
    }
    ++f_->plus;
    f_->last_failed = bad && f_->kind != 2;
    if (bad) {
      ++f_->faults;
      if (f_->kind == 1) for (int i = 0; i < n_; ++i) y[i] = 1e6 + i;
      if (f_->kind != 2) return false;
    }
    if (m_) { if (!m_->Plus(x, d, y)) return false; }
    else for (int i = 0; i < n_; ++i) y[i] = x[i] + d[i];
    if (bad) y[n_ - 1] = std::numeric_limits<double>::quiet_NaN();
    return true;
  }
  bool PlusJacobian(const double* x, double* j) const override {
    std::lock_guard<std::mutex> l(f_->mu);
    const bool bad = f_->armed && f_->mode == 2 && f_->at.count(f_->jac) > 0;
    ++f_->jac;
    const int t = TangentSize();
    if (bad) { ++f_->faults; if (f_->kind == 0) return false; }
    if (m_) m_->PlusJacobian(x, j);
    else for (int i = 0; i < n_; ++i) for (int k = 0; k < t; ++k) j[i * t + k] = i == k;
    if (bad) j[n_ * t - 1] = f_->kind == 1 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
    return true;
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    if (m_) return m_->Minus(y, x, d);
    for (int i = 0; i < n_; ++i) d[i] = y[i] - x[i];
    return true;
  }
  bool MinusJacobian(const double* x, double* j) const override {
    if (m_) return m_->MinusJacobian(x, j);
    for (int i = 0; i < n_; ++i) for (int k = 0; k < n_; ++k) j[i * n_ + k] = i == k;
    return true;
  }
 private:
  std::unique_ptr<ceres::Manifold> m_;
  int n_;
  ManiFault* f_;
};

PBT_PROP(manifold_faults, 90000, 2500000) {
  GenOptions g;
  g.constants = c.chance(1, 4);
  g.unused_blocks = false;
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.inner = c.chance(1, 4);
  Config cfg = GenConfig(c, s, co);
  ManiFault f;
  f.mode = c.range(0, 3);
  f.kind = c.range(0, 2);
  f.longest = c.pick({0.5, 0.1, 2.0});
  const int n = c.range(1, 4);
  for (int i = 0; i < n; ++i) f.at.insert(c.range(0, c.pick({4, 20, 60})));
  Instance in(s);
  std::vector<int> cand;
  for (size_t b = 0; b < s.blocks.size(); ++b) if (!s.blocks[b].constant && s.blocks[b].tangent() > 0) cand.push_back(b);
  if (cand.empty()) c.discard();
  for (size_t i = 0; i < cand.size(); ++i)
    if (i == 0 || c.coin()) in.problem->SetManifold(in.x[cand[i]].get(), new FaultyManifold(s.blocks[cand[i]].mani.Make(), s.blocks[cand[i]].size, &f));
  c.note() << s.Str() << " | " << cfg.str << " | mode " << f.mode << " kind " << f.kind;
  for (auto k : f.at) c.note() << " " << k;
  ceres::Solver::Summary sum;
  const auto start = in.Values();
  ceres::Solver::Options o = cfg.Make(in);
  f.armed = true;
  f.plus = f.jac = 0;
  ceres::Solve(o, in.problem.get(), &sum);
  const auto end = in.Values();
  f.armed = false;
  const bool last_failed = f.last_failed;
  Outcome(c, s, sum, start, end, nullptr, f.kind == 2 && f.mode != 2);
  // A step that could not even be computed says nothing about convergence.
  if (sum.termination_type == ceres::CONVERGENCE && last_failed && o.minimizer_type == ceres::TRUST_REGION && !o.use_inner_iterations)
    REQUIRE("converged_by_failing", sum.message.find("Parameter tolerance") == std::string::npos && sum.message.find("Function tolerance") == std::string::npos, sum.message);
  in.Set(start);
  double cost;
  REQUIRE("unusable_afterwards", in.problem->Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, nullptr, nullptr), "");
  REQUIRE("changed_afterwards", std::fabs(cost - (double)s.Cost(start)) <= 1e-10 * ((double)s.CostScale(start) + 1e-3), cost);
  if (f.faults) c.label(pbt::Str("mode ", f.mode, sum.IsSolutionUsable() ? " survived" : " ended the solve"));
  c.nontrivial(f.faults > 0);
}

// ---- Evaluate, covariance --------------------------------------------------------
PBT_PROP(reported, 60000, 1500000) {
  Spec s = Gen(c);
  Instance in(s);
  const int kind = c.pick({kReturnFalse, kNanResidual, kInfResidual, kNanJacobian, kInfJacobian});
  const int r0 = c.range(0, (int)s.res.size() - 1);
  const bool armed = !c.chance(1, 5);
  bool fired = false;
  in.rec.hook = [&](int r, const double* const*, bool jac) {
    if (!armed || r != r0) return (int)kOk;
    if ((kind == kNanJacobian || kind == kInfJacobian) && !jac) return (int)kOk;
    fired = true;
    return (int)kind;
  };
  const ResSpec& R = s.res[r0];
  // The Jacobian faults sit in the first and the last block.
  const int jb = kind == kNanJacobian ? R.blocks.front() : R.blocks.back();
  const bool jfault = kind == kNanJacobian || kind == kInfJacobian;
  const bool jac_seen = !s.blocks[jb].constant && s.blocks[jb].tangent() > 0;
  const int what = c.range(1, 15);
  const int mode = c.range(0, 3);
  c.note() << s.Str() << " fault " << kind << " in " << r0 << (armed ? "" : " (not armed)") << " mode " << mode << " what " << what;
  const auto x = in.Values();
  if (mode == 0) {
    double cost = 0; std::vector<double> rs, gr; ceres::CRSMatrix j;
    ceres::Problem::EvaluateOptions o;
    o.num_threads = c.pick({1, 2, 4});
    o.apply_loss_function = c.coin();
    const bool ok = in.problem->Evaluate(o, what & 1 ? &cost : nullptr, what & 2 ? &rs : nullptr, what & 4 ? &gr : nullptr, what & 8 ? &j : nullptr);
    bool expect_fail = armed && (!jfault || (jac_seen && (what & 12)));
    // Constant blocks are still free in an evaluation over all blocks unless the problem holds them constant.
    if (expect_fail) REQUIRE("evaluate_hid_failure", !ok, "");
    else if (!armed) REQUIRE("evaluate_failed", ok, "");
    c.nontrivial(expect_fail);
  } else if (mode == 1) {
    double cost = 0;
    Vec rs(R.rows);
    std::vector<Vec> jv; std::vector<double*> jp;
    for (int b : R.blocks) jv.emplace_back(R.rows * std::max(1, s.blocks[b].size));
    for (auto& v : jv) jp.push_back(v.data());
    bool want_j = what & 8;
    // (Jacobians of constant blocks must not be requested.)
    for (size_t k = 0; k < jp.size(); ++k) { const BlockSpec& b = s.blocks[R.blocks[k]]; if (b.constant || b.tangent() == 0) jp[k] = nullptr; }
    const bool ok = in.problem->EvaluateResidualBlock(in.ids[r0], c.coin(), what & 1 ? &cost : nullptr, what & 2 ? rs.data() : nullptr, want_j ? jp.data() : nullptr);
    const bool expect_fail = armed && (!jfault || (want_j && fired && jac_seen));
    if (expect_fail) REQUIRE("residual_block_hid_failure", !ok, "");
    else if (!armed) REQUIRE("residual_block_failed", ok, "");
    c.nontrivial(expect_fail);
  } else if (mode == 3) {
    // A manifold whose Jacobian cannot be computed (after the block was set up).
    in.rec.hook = nullptr;
    ManiFault f;
    f.mode = 2;
    f.kind = kind % 3;
    const bool fault = !c.chance(1, 4);
    if (fault) for (int k = 0; k < 50; ++k) f.at.insert(k);
    const int b = R.blocks[0];
    if (s.blocks[b].constant || s.blocks[b].tangent() == 0) c.discard();
    in.problem->SetManifold(in.x[b].get(), new FaultyManifold(s.blocks[b].mani.Make(), s.blocks[b].size, &f));
    f.jac = 0;
    f.armed = true;
    Vec rs(R.rows), jv(R.rows * s.blocks[b].size);
    std::vector<double*> jp(R.blocks.size(), nullptr);
    jp[0] = jv.data();
    bool ok;
    if (c.coin()) {
      ok = in.problem->EvaluateResidualBlock(in.ids[r0], false, nullptr, rs.data(), jp.data());
      REQUIRE("manifold_failure_hidden", ok == !fault, fault);
    } else {
      std::vector<double> gr;
      ok = in.problem->Evaluate(ceres::Problem::EvaluateOptions(), nullptr, nullptr, &gr, nullptr);
      REQUIRE("manifold_failure_hidden", ok == !fault, fault);
    }
    f.armed = false;
    double cost;
    REQUIRE("unusable_afterwards", in.problem->Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, nullptr, nullptr), "");
    REQUIRE("changed_afterwards", std::fabs(cost - (double)s.Cost(x)) <= 1e-10 * ((double)s.CostScale(x) + 1e-3), cost);
    c.nontrivial(fault);
    return;
  } else {
    std::vector<std::pair<const double*, const double*>> pairs;
    for (size_t b = 0; b < s.blocks.size(); ++b) if (c.coin() || b == 0) pairs.push_back({in.x[b].get(), in.x[b].get()});
    ceres::Covariance::Options o;
    o.algorithm_type = c.coin() ? ceres::DENSE_SVD : ceres::SPARSE_QR;
    o.null_space_rank = o.algorithm_type == ceres::DENSE_SVD ? -1 : 0;
    ceres::Covariance cov(o);
    const bool ok = cov.Compute(pairs, in.problem.get());
    // Only blocks that depend on something free are evaluated.
    bool free_block = false;
    for (int b : R.blocks) free_block |= !s.blocks[b].constant && s.blocks[b].tangent() > 0;
    const bool expect_fail = armed && fired && (!jfault || jac_seen) && free_block;
    if (expect_fail) REQUIRE("covariance_hid_failure", !ok, "");
    c.nontrivial(expect_fail);
  }
  REQUIRE("parameters_moved", SameBits(x, in.Values()), "");
}

// ---- gradient problems -------------------------------------------------------------
struct FaultyFunction : ceres::FirstOrderFunction {
  int n, kind = 0, mode = 0;
  std::set<int64_t> at;
  double threshold = 0;
  Mat q;
  Vec lin;
  mutable int64_t calls = 0, faults = 0;
  mutable std::set<Vec> good;  // points evaluated successfully
  double Value(const double* x) const {
    double v = 0;
    for (int i = 0; i < n; ++i) { v += lin[i] * x[i] + 0.1 * x[i] * x[i] * x[i] * x[i]; for (int k = 0; k < n; ++k) v += 0.5 * q(i, k) * x[i] * x[k]; }
    return v;
  }
  bool Bad(const double* x, int64_t k) const { return mode == 0 ? at.count(k) > 0 : x[0] > threshold; }
  bool Evaluate(const double* x, double* cost, double* g) const override {
    const bool bad = Bad(x, calls++);
    if (bad && (kind < 3 || g)) ++faults;
    if (bad && kind == 0) return false;
    *cost = Value(x);
    if (bad && kind == 1) *cost = std::numeric_limits<double>::quiet_NaN();
    if (bad && kind == 2) *cost = std::numeric_limits<double>::infinity();
    if (g) {
      for (int i = 0; i < n; ++i) { g[i] = lin[i] + 0.4 * x[i] * x[i] * x[i]; for (int k = 0; k < n; ++k) g[i] += q(i, k) * x[k]; }
      if (bad && kind == 3) g[n - 1] = std::numeric_limits<double>::quiet_NaN();
      if (bad && kind == 4) g[0] = std::numeric_limits<double>::infinity();
    }
    if (!bad || (kind >= 3 && !g)) good.insert(Vec(x, x + n));
    return true;
  }
  int NumParameters() const override { return n; }
};

PBT_PROP(gradient_problem_faults, 80000, 2500000) {
  using namespace ceres;
  auto* f = new FaultyFunction;
  f->n = c.range(1, 5);
  f->kind = c.range(0, 4);
  f->mode = c.range(0, 1);
  Mat a(f->n, f->n);
  for (int i = 0; i < f->n; ++i) for (int k = 0; k < f->n; ++k) a(i, k) = c.sym(1.0);
  f->q = a * a.transpose() * c.pick({1.0, 10.0, 0.1});
  if (c.chance(1, 3)) f->q = (a + a.transpose()).eval();
  std::vector<double> x(f->n);
  for (int i = 0; i < f->n; ++i) { f->lin.push_back(c.sym(3.0)); x[i] = c.sym(2.0); }
  f->threshold = x[0] + c.pick({0.05, 0.5, 1e-6, -0.1});
  const int n = c.range(1, 4);
  for (int i = 0; i < n; ++i) f->at.insert(c.range(0, c.pick({3, 12, 40})));
  GradientProblem problem((std::unique_ptr<FirstOrderFunction>(f)));
  GradientProblemSolver::Options o;
  o.logging_type = SILENT;
  o.line_search_direction_type = c.pick({LBFGS, STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, BFGS});
  o.line_search_type = o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS ? WOLFE : c.pick({WOLFE, ARMIJO});
  o.line_search_interpolation_type = c.pick({CUBIC, QUADRATIC, BISECTION});
  o.nonlinear_conjugate_gradient_type = c.pick({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  o.max_num_iterations = c.pick({30, 5, 100});
  if (c.chance(1, 3)) o.function_tolerance = 0;
  if (c.chance(1, 4)) o.max_num_line_search_step_size_iterations = c.range(1, 4);
  c.note() << "n " << f->n << " kind " << f->kind << " mode " << f->mode << " " << LineSearchDirectionTypeToString(o.line_search_direction_type) << " " << LineSearchTypeToString(o.line_search_type) << " "
           << LineSearchInterpolationTypeToString(o.line_search_interpolation_type) << " at";
  for (auto k : f->at) c.note() << " " << k;
  const Vec start(x.begin(), x.end());
  const double before = f->Value(x.data());
  GradientProblemSolver::Summary sum;
  ceres::Solve(o, problem, x.data(), &sum);
  const Vec end(x.begin(), x.end());
  if (!sum.IsSolutionUsable()) REQUIRE("not_restored", SameBits({start}, {end}), sum.message);
  else {
    for (double d : end) REQUIRE("nonfinite_result", std::isfinite(d), StrX({end}));
    REQUIRE("never_evaluated", f->good.count(end) > 0, StrX({end}));
    const double after = f->Value(end.data()), sc = 1 + std::fabs(before) + std::fabs(after);
    REQUIRE("worse", after <= before + 1e-12 * sc, before, " -> ", after);
    REQUIRE("final_cost", std::fabs(after - sum.final_cost) <= 1e-12 * sc, after, " reported ", sum.final_cost);
    if (f->mode == 1 && f->kind < 3) REQUIRE("ended_in_bad_region", !(end[0] > f->threshold), end[0]);
    if (sum.message.find("Gradient tolerance") != std::string::npos && sum.iterations.size() > 0) {
      double m = 0;
      for (int i = 0; i < f->n; ++i) { double g = f->lin[i] + 0.4 * end[i] * end[i] * end[i]; for (int k = 0; k < f->n; ++k) g += f->q(i, k) * end[k]; m = std::max(m, std::fabs(g)); }
      REQUIRE("gradient_claim", m <= o.gradient_tolerance + 1e-9, m);
    }
  }
  if (f->mode == 1 && f->kind < 3 && start[0] > f->threshold) REQUIRE("bad_start_accepted", sum.termination_type == FAILURE, sum.message);
  if (f->faults) c.label(sum.IsSolutionUsable() ? "faults survived" : "faults ended the solve");
  c.nontrivial(f->faults > 0);
}

PBT_MAIN("C29", "at least one fault was injected and, for solves, it hit the start or a later step (reported: the fault must be reported)")
