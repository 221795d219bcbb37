// C34: no valid use touches memory it should not.
// pbt-build: flavor=asan
//
// Runs under the address and undefined-behaviour sanitizers.  User buffers are
// exactly sized heap blocks, and fresh heap memory is filled with NaNs, so that
// a value which is read before it was written shows up in the results.
#include <algorithm>
#include <set>

#include "problem_gen.h"

extern "C" const char* __asan_default_options() { return "malloc_fill_byte=255:max_malloc_fill_size=262144"; }

using namespace pg;
using ceres::Problem;
using ceres::Solver;

struct Exact {  // exactly sized, poisoned by the allocator
  std::unique_ptr<double[]> p;
  int n;
  explicit Exact(int n) : p(new double[n]), n(n) {}
  bool AnyNan() const { for (int i = 0; i < n; ++i) if (std::isnan(p[i])) return true; return false; }
};

static bool Has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

struct State {
  Instance in;
  std::vector<int> blocks, res;
  std::vector<bool> constant, plain;  // plain: manifold removed
  State(const Spec& s, const BuildOptions& bo) : in(s, bo) {
    for (size_t i = 0; i < s.blocks.size(); ++i) { blocks.push_back(i); constant.push_back(s.blocks[i].constant); plain.push_back(false); }
    for (size_t i = 0; i < s.res.size(); ++i) res.push_back(i);
  }
  double Cost(const std::vector<Vec>& x, double* scale) const {
    LD t = 0, q = 0;
    for (int r : res) { const LD k = in.spec.ResCost(in.spec.res[r], x); t += k; q += fabsl(k); }
    *scale = (double)q + 1e-3;
    return (double)t;
  }
};

static void DoSolve(pbt::Case& c, State& st, const Config& base, int threads) {
  Config cfg = base;
  cfg.o.num_threads = threads;
  std::vector<int> sub;
  for (int i : cfg.subset) if (Has(st.res, i)) sub.push_back(i);
  cfg.subset = sub;
  if (cfg.o.preconditioner_type == ceres::SUBSET && sub.empty()) cfg.o.preconditioner_type = ceres::JACOBI;
  Solver::Options o = cfg.Make(st.in);
  // Orderings name exactly the blocks in the problem.
  for (auto* ord : {&o.linear_solver_ordering, &o.inner_iteration_ordering})
    if (*ord) {
      for (size_t b = 0; b < st.in.x.size(); ++b) if (!Has(st.blocks, b)) (*ord)->Remove(st.in.x[b].get());
      if ((*ord)->NumElements() == 0) ord->reset();
    }
  const std::vector<Vec> x0 = st.in.Values();
  double scale0, scale1;
  const double before = st.Cost(x0, &scale0);
  Solver::Summary s;
  ceres::Solve(o, st.in.problem.get(), &s);
  const std::vector<Vec> x1 = st.in.Values();
  const double after = st.Cost(x1, &scale1);
  const double tol = 1e-9 * (scale0 + scale1);
  REQUIRE("never-worse", after <= before + tol, before, " -> ", after, " ", s.message);
  if (s.IsSolutionUsable()) {
    REQUIRE("initial-cost", std::fabs(s.initial_cost - before) <= tol, s.initial_cost, " want ", before);
    REQUIRE("final-cost", std::fabs(s.final_cost - after) <= tol, s.final_cost, " want ", after);
    s.FullReport();
  } else {
    REQUIRE("failure-keeps-values", SameBits(x0, x1), s.message);
  }
  s.BriefReport();
  c.label(pbt::Str(o.minimizer_type == ceres::LINE_SEARCH ? "line search" : ceres::LinearSolverTypeToString(s.linear_solver_type_used), " ", s.termination_type));
  if (s.iterations.size() > 1) c.nontrivial();
  // Running it again gives the same numbers (single thread; cluster
  // preconditioners and automatic orderings depend on hashing).
  const bool cluster = o.preconditioner_type == ceres::CLUSTER_JACOBI || o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL;
  if (threads == 1 && !cluster && c.chance(1, 2)) {
    st.in.Set(x0);
    Solver::Summary t;
    ceres::Solve(o, st.in.problem.get(), &t);
    REQUIRE("repeatable", t.termination_type == s.termination_type && t.iterations.size() == s.iterations.size() && SameBits(st.in.Values(), x1),
            s.message, " | second time: ", t.message);
  }
}

static void DoEvaluate(pbt::Case& c, State& st, int threads) {
  Problem::EvaluateOptions eo;
  eo.apply_loss_function = c.coin();
  eo.num_threads = threads;
  if (c.chance(1, 3)) for (int b : c.permutation(st.in.x.size())) if (Has(st.blocks, b) && c.coin()) eo.parameter_blocks.push_back(st.in.x[b].get());
  if (c.chance(1, 3)) for (int r : st.res) if (c.coin()) eo.residual_blocks.push_back(st.in.ids[r]);
  const bool all = eo.residual_blocks.empty();
  double cost = -1, scale;
  std::vector<double> r, g;
  ceres::CRSMatrix j;
  const int want = c.range(1, 15);
  const std::vector<Vec> x = st.in.Values();
  REQUIRE("evaluate", st.in.problem->Evaluate(eo, want & 1 ? &cost : nullptr, want & 2 ? &r : nullptr, want & 4 ? &g : nullptr, want & 8 ? &j : nullptr), "");
  REQUIRE("evaluate-keeps-values", SameBits(x, st.in.Values()), "");
  for (double v : r) REQUIRE("residual-written", !std::isnan(v), "");
  for (double v : g) REQUIRE("gradient-written", !std::isnan(v), "");
  if (want & 8) {
    REQUIRE("jacobian-shape", (int)j.rows.size() == j.num_rows + 1 && j.rows.front() == 0 && j.rows.back() == (int)j.cols.size() && j.cols.size() == j.values.size(), "");
    for (double v : j.values) REQUIRE("jacobian-written", !std::isnan(v), "");
    for (int k : j.cols) REQUIRE("jacobian-columns", k >= 0 && k < j.num_cols, k);
  }
  if ((want & 1) && all && eo.apply_loss_function) {
    const double w = st.Cost(x, &scale);
    REQUIRE("evaluate-cost", std::fabs(cost - w) <= 1e-11 * scale, cost, " want ", w);
  }
  c.nontrivial();
}

static void DoEvaluateBlock(pbt::Case& c, State& st) {
  if (st.res.empty()) return;
  const int i = c.pick(st.res);
  const ResSpec& r = st.in.spec.res[i];
  Exact res(r.rows);
  double cost = NAN;
  std::vector<Exact> jac;
  std::vector<double*> ptr;
  int size_sum = 0;
  for (int b : r.blocks) {
    const int t = st.plain[b] ? st.in.spec.blocks[b].size : st.in.spec.blocks[b].tangent();
    jac.emplace_back(std::max(0, r.rows * t));
    const bool skip = st.constant[b] || t == 0 || c.chance(1, 4);
    ptr.push_back(skip ? nullptr : jac.back().p.get());
    size_sum += t;
  }
  const bool ok = st.in.problem->EvaluateResidualBlock(st.in.ids[i], c.coin(), &cost, c.coin() ? res.p.get() : nullptr, c.coin() ? ptr.data() : nullptr);
  REQUIRE("evaluate-block", ok && !std::isnan(cost), cost);
  c.nontrivial(size_sum > 0);
}

static void DoCovariance(pbt::Case& c, State& st, int threads) {
  if (st.blocks.empty()) return;
  ceres::Covariance::Options o;
  o.algorithm_type = c.coin() ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.null_space_rank = o.algorithm_type == ceres::DENSE_SVD ? c.pick({0, -1, 1}) : 0;
  o.apply_loss_function = c.coin();
  o.num_threads = threads;
  ceres::Covariance cov(o);
  // Eigen's sparse QR misjudges about one in a million rank deficient matrices.
  auto Written = [&](const Exact& m) { return o.algorithm_type == ceres::SPARSE_QR || !m.AnyNan(); };
  auto size = [&](int b) { return st.in.spec.blocks[b].size; };
  auto tangent = [&](int b) { return st.constant[b] ? size(b) : st.plain[b] ? size(b) : st.in.spec.blocks[b].tangent(); };
  if (c.coin()) {
    std::vector<const double*> ptrs;
    std::vector<int> chosen;
    for (int b : st.blocks) if (c.coin()) { ptrs.push_back(st.in.x[b].get()); chosen.push_back(b); }
    if (ptrs.empty()) return;
    if (!cov.Compute(ptrs, st.in.problem.get())) { c.label("covariance failed"); return; }
    int n = 0;
    for (int b : chosen) n += size(b);
    Exact m(n * n);
    REQUIRE("covariance-matrix", cov.GetCovarianceMatrix(ptrs, m.p.get()) && Written(m), "");
    (void)tangent;
  } else {
    std::vector<std::pair<const double*, const double*>> pairs;
    std::vector<std::pair<int, int>> idx;
    std::set<std::pair<int, int>> seen;
    for (int k = c.range(1, 4); k > 0; --k) {
      const int a = c.pick(st.blocks), b = c.pick(st.blocks);
      if (!seen.insert({std::min(a, b), std::max(a, b)}).second) continue;
      pairs.push_back({st.in.x[a].get(), st.in.x[b].get()});
      idx.push_back({a, b});
    }
    if (!cov.Compute(pairs, st.in.problem.get())) { c.label("covariance failed"); return; }
    for (size_t k = 0; k < pairs.size(); ++k) {
      Exact m(size(idx[k].first) * size(idx[k].second));
      REQUIRE("covariance-block", cov.GetCovarianceBlock(pairs[k].first, pairs[k].second, m.p.get()) && Written(m), "");
      REQUIRE("covariance-swapped", cov.GetCovarianceBlock(pairs[k].second, pairs[k].first, m.p.get()) && Written(m), "");
      auto t = [&](int b) { return st.plain[b] ? size(b) : st.in.spec.blocks[b].tangent(); };
      Exact q(t(idx[k].first) * t(idx[k].second));
      REQUIRE("covariance-tangent", cov.GetCovarianceBlockInTangentSpace(pairs[k].first, pairs[k].second, q.p.get()) && Written(q), "");
    }
  }
  c.label("covariance");
  c.nontrivial();
}

static void Life(pbt::Case& c, const GenOptions& g, int max_steps) {
  Spec s = Gen(c, g);
  BuildOptions bo;
  bo.fast_removal = c.coin();
  bo.implicit_blocks = c.chance(1, 4);
  Config cfg[2];
  for (Config& k : cfg) {
    ConfigOptions co;
    co.line_search = !g.bounds;
    k = GenConfig(c, s, co);
    k.o.max_num_iterations = std::min(k.o.max_num_iterations, 6);
  }
  State st(s, bo);
  c.note() << s.Str() << " | A " << cfg[0].str << " | B " << cfg[1].str << " |";
  const int steps = c.range(1, max_steps);
  for (int step = 0; step < steps; ++step) {
    const int threads = c.pick({1, 1, 2, 4});
    switch (c.pick({0, 0, 0, 1, 2, 3, 4, 5, 6, 7})) {
      case 0: {
        const int k = c.range(0, 1);
        c.note() << " solve" << "AB"[k] << threads;
        DoSolve(c, st, cfg[k], threads);
        break;
      }
      case 1: c.note() << " evaluate" << threads; DoEvaluate(c, st, threads); break;
      case 2: c.note() << " block"; DoEvaluateBlock(c, st); break;
      case 3: c.note() << " covariance" << threads; DoCovariance(c, st, threads); break;
      case 4: {
        if (st.res.empty()) break;
        const int r = c.pick(st.res);
        c.note() << " -res" << r;
        st.in.problem->RemoveResidualBlock(st.in.ids[r]);
        st.res.erase(std::find(st.res.begin(), st.res.end(), r));
        break;
      }
      case 5: {
        if (st.blocks.size() < 2 || c.coin()) break;
        const int b = c.pick(st.blocks);
        c.note() << " -block" << b;
        st.in.problem->RemoveParameterBlock(st.in.x[b].get());
        st.blocks.erase(std::find(st.blocks.begin(), st.blocks.end(), b));
        std::vector<int> left;
        for (int r : st.res) if (!Has(s.res[r].blocks, b)) left.push_back(r);
        st.res = left;
        break;
      }
      case 6: {
        const int b = c.range(0, s.blocks.size() - 1);
        if (!Has(st.blocks, b)) break;
        st.constant[b] = !st.constant[b];
        c.note() << (st.constant[b] ? " const" : " vary") << b;
        if (st.constant[b]) st.in.problem->SetParameterBlockConstant(st.in.x[b].get());
        else st.in.problem->SetParameterBlockVariable(st.in.x[b].get());
        break;
      }
      case 7: {
        const int b = c.range(0, s.blocks.size() - 1);
        if (!Has(st.blocks, b) || s.blocks[b].mani.kind == kNone || !s.blocks[b].mani.linear()) break;
        st.plain[b] = !st.plain[b];
        c.note() << " manifold" << b;
        st.in.problem->SetManifold(st.in.x[b].get(), st.plain[b] ? nullptr : s.blocks[b].mani.Make());
        break;
      }
    }
  }
}

PBT_PROP(life, 20000, 500000) {
  GenOptions g;
  g.bounds = c.chance(1, 4);
  Life(c, g, c.thorough_ ? 10 : 5);
}
// Point/camera structures with the specialised block sizes, more blocks.
PBT_PROP(schur_life, 10000, 250000) {
  GenOptions g;
  g.bipartite = 1;
  g.max_blocks = 12;
  g.max_res = 24;
  g.losses = false;
  Life(c, g, 3);
}
// Blocks larger than the specialised sizes.
PBT_PROP(wide_life, 6000, 120000) {
  GenOptions g;
  g.bipartite = 0;
  g.max_size = 12;
  g.max_blocks = 4;
  g.max_res = 8;
  g.curved = false;
  Life(c, g, 3);
}

PBT_MAIN("C34", "a solve that took at least one iteration, an evaluation or a covariance computation ran under the sanitizers")
