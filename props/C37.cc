// C37: reusing a problem gives the same answer as starting fresh.
// pbt-build: flavor=rel
#include <algorithm>
#include <map>
#include <set>

#include "problem_gen.h"

using namespace pg;
using ceres::Problem;
using ceres::Solver;

// Blocks and residuals of a Spec that are currently in the problem, in the
// order the problem keeps them (the last one takes the place of a removed one).
struct Model {
  std::vector<int> blocks, res;
  std::vector<BlockSpec> state;  // current manifold, constness and bounds
};

struct Live {
  std::unique_ptr<Problem> problem;
  std::vector<ceres::ResidualBlockId> ids;
};

struct World {
  Spec spec;
  std::vector<std::unique_ptr<double[]>> x;
  Recorder rec;
  Model m;
  bool fast_removal = false;

  double* X(int b) { return x[b].get(); }
  std::vector<Vec> Values() const {
    std::vector<Vec> v;
    for (size_t i = 0; i < x.size(); ++i) v.emplace_back(x[i].get(), x[i].get() + spec.blocks[i].size);
    return v;
  }
  void Set(const std::vector<Vec>& v) { for (size_t i = 0; i < x.size(); ++i) std::copy(v[i].begin(), v[i].end(), x[i].get()); }
  void AddRes(Live* l, int i) {
    const ResSpec& r = spec.res[i];
    std::vector<int> sizes;
    std::vector<double*> ptrs;
    for (int b : r.blocks) { sizes.push_back(spec.blocks[b].size); ptrs.push_back(X(b)); }
    l->ids[i] = l->problem->AddResidualBlock(new CeresCost(&spec.res[i], sizes, i, &rec), r.loss.Make(), ptrs);
  }
  void Configure(Live* l, int i, bool mani) {
    const BlockSpec& b = m.state[i];
    if (mani) l->problem->SetManifold(X(i), b.mani.Make());
    if (b.constant) l->problem->SetParameterBlockConstant(X(i));
    else l->problem->SetParameterBlockVariable(X(i));
    if (b.has_bounds())
      for (int k = 0; k < b.size; ++k) {
        l->problem->SetParameterLowerBound(X(i), k, std::max(b.lo[k], -std::numeric_limits<double>::max()));
        l->problem->SetParameterUpperBound(X(i), k, std::min(b.up[k], std::numeric_limits<double>::max()));
      }
  }
  Live Fresh() {
    Live l;
    Problem::Options po;
    po.enable_fast_removal = fast_removal;
    l.problem.reset(new Problem(po));
    l.ids.assign(spec.res.size(), nullptr);
    for (int b : m.blocks) l.problem->AddParameterBlock(X(b), spec.blocks[b].size);
    for (int r : m.res) AddRes(&l, r);
    for (int b : m.blocks) Configure(&l, b, m.state[b].mani.kind != kNone);
    return l;
  }
  Config cfg_[2];
};

static std::map<int, std::vector<int>> Groups(const World& w, const std::shared_ptr<ceres::ParameterBlockOrdering>& o) {
  std::map<int, std::vector<int>> r;
  if (o)
    for (auto& g : o->group_to_elements())
      for (double* p : g.second)
        for (size_t b = 0; b < w.x.size(); ++b) if (w.x[b].get() == p) r[g.first].push_back(b);
  return r;
}
static std::string StrG(const std::map<int, std::vector<int>>& g) {
  std::string s;
  for (auto& p : g) { s += pbt::Str(p.first, ":"); for (int b : p.second) s += pbt::Str(b, ","); s += " "; }
  return s;
}

struct SolveResult {
  Solver::Summary s;
  std::vector<Vec> x;
};
static void CompareSolve(pbt::Case& c, const SolveResult& a, const SolveResult& b) {
  REQUIRE("solve-termination", a.s.termination_type == b.s.termination_type, a.s.message, " | fresh: ", b.s.message);
  REQUIRE("solve-message", a.s.message == b.s.message, a.s.message, " | fresh: ", b.s.message);
  REQUIRE("solve-costs", a.s.initial_cost == b.s.initial_cost && a.s.final_cost == b.s.final_cost && a.s.fixed_cost == b.s.fixed_cost,
          a.s.initial_cost, " ", a.s.final_cost, " ", a.s.fixed_cost, " | fresh ", b.s.initial_cost, " ", b.s.final_cost, " ", b.s.fixed_cost);
  REQUIRE("solve-iterations", a.s.iterations.size() == b.s.iterations.size(), a.s.iterations.size(), " | fresh ", b.s.iterations.size());
  for (size_t i = 0; i < a.s.iterations.size(); ++i) {
    const auto &p = a.s.iterations[i], &q = b.s.iterations[i];
    REQUIRE("solve-iteration", p.cost == q.cost && p.gradient_norm == q.gradient_norm && p.step_norm == q.step_norm &&
                                   p.trust_region_radius == q.trust_region_radius && p.step_is_successful == q.step_is_successful &&
                                   p.linear_solver_iterations == q.linear_solver_iterations && p.step_size == q.step_size,
            "iteration ", i, " cost ", p.cost, " | fresh ", q.cost);
  }
  REQUIRE("solve-sizes", a.s.num_parameters == b.s.num_parameters && a.s.num_parameters_reduced == b.s.num_parameters_reduced &&
                             a.s.num_residuals == b.s.num_residuals && a.s.num_residuals_reduced == b.s.num_residuals_reduced &&
                             a.s.num_effective_parameters_reduced == b.s.num_effective_parameters_reduced &&
                             a.s.num_parameter_blocks_reduced == b.s.num_parameter_blocks_reduced &&
                             a.s.num_residual_blocks_reduced == b.s.num_residual_blocks_reduced && a.s.is_constrained == b.s.is_constrained,
          "");
  REQUIRE("solve-structure", a.s.linear_solver_type_used == b.s.linear_solver_type_used && a.s.linear_solver_ordering_used == b.s.linear_solver_ordering_used &&
                                 a.s.linear_solver_ordering_given == b.s.linear_solver_ordering_given &&
                                 a.s.inner_iteration_ordering_given == b.s.inner_iteration_ordering_given &&
                                 a.s.inner_iteration_ordering_used == b.s.inner_iteration_ordering_used &&
                                 a.s.inner_iterations_used == b.s.inner_iterations_used && a.s.preconditioner_type_used == b.s.preconditioner_type_used &&
                                 a.s.schur_structure_used == b.s.schur_structure_used,
          "");
  REQUIRE("solve-values", SameBits(a.x, b.x), StrX(a.x), " | fresh ", StrX(b.x));
}

struct EvalResult {
  bool ok = false;
  double cost = 0;
  std::vector<double> r, g;
  ceres::CRSMatrix j;
};

PBT_PROP(history, 150000, 1500000) {
  World w;
  GenOptions g;
  g.bounds = c.chance(1, 4);
  w.spec = Gen(c, g);
  const Spec& s = w.spec;
  w.fast_removal = c.coin();
  const int nb = s.blocks.size(), nr = s.res.size();
  for (auto& b : s.blocks) {
    w.x.emplace_back(new double[b.size]);
    std::copy(b.x0.begin(), b.x0.end(), w.x.back().get());
    w.m.blocks.push_back(w.m.blocks.size());
    w.m.state.push_back(b);
  }
  // Sometimes a residual is added only later.
  for (int i = 0; i < nr; ++i) if (!c.chance(1, 6)) w.m.res.push_back(i);
  // Configurations (options objects) used throughout the history.
  Config cfg[2];
  std::unique_ptr<Solver::Options> opt[2];
  {
    Instance dummy(s);
    for (int k = 0; k < 2; ++k) {
      ConfigOptions co;
      co.line_search = !g.bounds;
      co.threads = false;
      cfg[k] = GenConfig(c, s, co);
      // Results that depend on hash order cannot be compared exactly.
      if (cfg[k].o.preconditioner_type == ceres::CLUSTER_JACOBI || cfg[k].o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL)
        cfg[k].o.preconditioner_type = ceres::SCHUR_JACOBI;
      // Automatic inner orderings break ties by address.
      if (cfg[k].o.use_inner_iterations && cfg[k].inner_group.empty()) cfg[k].inner_group = GenIndependentGroups(c, s, true);
      cfg[k].o.max_num_iterations = std::min(cfg[k].o.max_num_iterations, 8);
      if (!cfg[k].group.empty() && c.chance(1, 4)) for (int& q : cfg[k].group) q = 0;
    }
  }
  Live live = w.Fresh();
  for (int k = 0; k < 2; ++k) {
    opt[k].reset(new Solver::Options(cfg[k].o));
    if (!cfg[k].group.empty()) {
      opt[k]->linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      for (int b = 0; b < nb; ++b) opt[k]->linear_solver_ordering->AddElementToGroup(w.X(b), cfg[k].group[b]);
    }
    if (!cfg[k].inner_group.empty()) {
      opt[k]->inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      for (int b = 0; b < nb; ++b)
        if (cfg[k].inner_group[b] >= 0) opt[k]->inner_iteration_ordering->AddElementToGroup(w.X(b), cfg[k].inner_group[b]);
    }
  }
  c.note() << s.Str() << (w.fast_removal ? " fast" : "") << " | A: " << cfg[0].str << " | B: " << cfg[1].str << " |";
  ceres::Covariance::Options cov_options;
  cov_options.algorithm_type = c.coin() ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  cov_options.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  cov_options.null_space_rank = cov_options.algorithm_type == ceres::DENSE_SVD ? c.pick({0, -1}) : 0;
  ceres::Covariance live_cov(cov_options);
  auto has = [&](int b) { return std::find(w.m.blocks.begin(), w.m.blocks.end(), b) != w.m.blocks.end(); };
  auto remove = [](std::vector<int>* v, int x) {
    auto it = std::find(v->begin(), v->end(), x);
    *it = v->back();
    v->pop_back();
  };
  const int steps = c.range(2, c.thorough_ ? 14 : 8);
  int solves = 0, compared = 0, earlier = 0;
  for (int step = 0; step < steps; ++step) {
    const int op = c.pick({0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
    if (op <= 1 || op == 2) {
      const bool solve = op == 0;
      if (solve) {
        const int k = c.range(0, 1);
        c.note() << " solve" << "AB"[k];
        const std::vector<Vec> before = w.Values();
        const auto lin = Groups(w, opt[k]->linear_solver_ordering), inner = Groups(w, opt[k]->inner_iteration_ordering);
        // Residual ids belong to a problem: fill them in for each of the two.
        auto run = [&](Live& l, const Solver::Options& base) {
          opt[k]->residual_blocks_for_subset_preconditioner.clear();
          Solver::Options o = base;
          Solver::Options& ref = &l == &live ? *opt[k] : o;
          for (int i : cfg[k].subset)
            if (std::find(w.m.res.begin(), w.m.res.end(), i) != w.m.res.end()) ref.residual_blocks_for_subset_preconditioner.insert(l.ids[i]);
          SolveResult r;
          ceres::Solve(ref, l.problem.get(), &r.s);
          r.x = w.Values();
          return r;
        };
        // The fresh call gets pristine copies of the orderings.
        Solver::Options pristine = *opt[k];
        if (pristine.linear_solver_ordering) pristine.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*pristine.linear_solver_ordering);
        if (pristine.inner_iteration_ordering) pristine.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*pristine.inner_iteration_ordering);
        const SolveResult a = run(live, *opt[k]);
        REQUIRE("ordering-kept", Groups(w, opt[k]->linear_solver_ordering) == lin, "linear solver ordering ", StrG(lin), " became ",
                StrG(Groups(w, opt[k]->linear_solver_ordering)));
        REQUIRE("inner-ordering-kept", Groups(w, opt[k]->inner_iteration_ordering) == inner, "inner iteration ordering ", StrG(inner), " became ",
                StrG(Groups(w, opt[k]->inner_iteration_ordering)));
        w.Set(before);
        Live fresh = w.Fresh();
        const SolveResult b = run(fresh, pristine);
        CompareSolve(c, a, b);
        c.label(pbt::Str("solve:", a.s.termination_type));
        if (a.s.iterations.size() > 1) ++solves;
      } else if (op == 1) {
        c.note() << " evaluate";
        Problem::EvaluateOptions eo;
        eo.apply_loss_function = !c.chance(1, 4);
        eo.num_threads = 1;
        if (c.chance(1, 3) && !w.m.blocks.empty())
          for (int b : c.permutation(nb)) if (has(b) && c.chance(2, 3)) eo.parameter_blocks.push_back(w.X(b));
        std::vector<int> rs;
        if (c.chance(1, 3)) for (int r : w.m.res) if (c.chance(2, 3)) rs.push_back(r);
        auto run = [&](Live& l) {
          EvalResult e;
          Problem::EvaluateOptions o = eo;
          for (int r : rs) o.residual_blocks.push_back(l.ids[r]);
          e.ok = l.problem->Evaluate(o, &e.cost, &e.r, &e.g, &e.j);
          return e;
        };
        const EvalResult a = run(live);
        Live fresh = w.Fresh();
        const EvalResult b = run(fresh);
        REQUIRE("evaluate-ok", a.ok == b.ok, "");
        if (a.ok) {
          REQUIRE("evaluate-cost", a.cost == b.cost, a.cost, " | fresh ", b.cost);
          REQUIRE("evaluate-residuals", SameBits({a.r}, {b.r}), "");
          REQUIRE("evaluate-gradient", SameBits({a.g}, {b.g}), "");
          REQUIRE("evaluate-jacobian", a.j.rows == b.j.rows && a.j.cols == b.j.cols && a.j.cols == b.j.cols && SameBits({a.j.values}, {b.j.values}), "");
        }
      } else {
        c.note() << " covariance";
        std::vector<std::pair<const double*, const double*>> pairs;
        std::set<std::pair<int, int>> seen;
        const int n = w.m.blocks.empty() ? 0 : c.range(1, 3);
        for (int i = 0; i < n; ++i) {
          const int p = c.pick(w.m.blocks), q = c.pick(w.m.blocks);
          if (seen.insert({std::min(p, q), std::max(p, q)}).second) pairs.push_back({w.X(p), w.X(q)});
        }
        if (pairs.empty()) continue;
        Live fresh = w.Fresh();
        ceres::Covariance fresh_cov(cov_options);
        const bool a = live_cov.Compute(pairs, live.problem.get()), b = fresh_cov.Compute(pairs, fresh.problem.get());
        REQUIRE("covariance-ok", a == b, a, " | fresh ", b);
        if (a)
          for (auto& pr : pairs) {
            int bi = 0, bj = 0;
            for (int k = 0; k < nb; ++k) { if (w.X(k) == pr.first) bi = k; if (w.X(k) == pr.second) bj = k; }
            const int n2 = s.blocks[bi].size * s.blocks[bj].size;
            std::vector<double> va(n2, -7), vb(n2, -7);
            const bool ga = live_cov.GetCovarianceBlock(pr.first, pr.second, va.data()), gb = fresh_cov.GetCovarianceBlock(pr.first, pr.second, vb.data());
            REQUIRE("covariance-block-ok", ga == gb, "");
            REQUIRE("covariance-block", SameBits({va}, {vb}), StrX({va}), " | fresh ", StrX({vb}));
          }
        c.label(a ? "covariance" : "covariance failed");
      }
      ++compared;
      if (earlier) c.nontrivial();
      ++earlier;
      continue;
    }
    switch (op) {
      case 3: {  // fault: the cost function fails during a solve
        c.note() << " faulty-solve";
        const int64_t at = w.rec.evals + c.range(1, 20);
        w.rec.hook = [&, at](int, const double* const*, bool) { return w.rec.evals >= at ? kReturnFalse : kOk; };
        Solver::Options o = cfg[0].o;
        o.linear_solver_ordering.reset();
        if (o.preconditioner_type == ceres::SUBSET) o.preconditioner_type = ceres::JACOBI;
        Solver::Summary sum;
        ceres::Solve(o, live.problem.get(), &sum);
        w.rec.hook = nullptr;
        break;
      }
      case 4: {  // aborted by a callback, several threads
        c.note() << " aborted-solve";
        struct Abort : ceres::IterationCallback {
          int at = 0;
          ceres::CallbackReturnType operator()(const ceres::IterationSummary& q) override { return q.iteration >= at ? ceres::SOLVER_ABORT : ceres::SOLVER_CONTINUE; }
        } cb;
        cb.at = c.range(0, 3);
        Solver::Options o = cfg[1].o;
        if (o.preconditioner_type == ceres::SUBSET) o.preconditioner_type = ceres::JACOBI;
        o.num_threads = 3;
        o.callbacks.push_back(&cb);
        Solver::Summary sum;
        ceres::Solve(o, live.problem.get(), &sum);
        break;
      }
      case 5: {
        const int b = c.range(0, nb - 1);
        if (!has(b)) break;
        BlockSpec& q = w.m.state[b];
        q.constant = !q.constant;
        c.note() << (q.constant ? " const " : " vary ") << b;
        w.Configure(&live, b, false);
        break;
      }
      case 6: {  // new values
        const int b = c.range(0, nb - 1);
        c.note() << " values " << b;
        if (w.m.state[b].mani.kind == kNone || w.m.state[b].mani.linear()) w.X(b)[c.range(0, s.blocks[b].size - 1)] += c.pick({0.5, -1.0, 0.01});
        else std::copy(s.blocks[b].x0.begin(), s.blocks[b].x0.end(), w.X(b));
        break;
      }
      case 7: {
        const int b = c.range(0, nb - 1);
        if (!has(b)) break;
        c.note() << " manifold " << b;
        if (w.m.state[b].mani.kind == kNone) {
          if (s.blocks[b].mani.kind == kNone) {
            if (s.blocks[b].size < 2) break;
            w.m.state[b].mani.kind = kSubset;
            w.m.state[b].mani.ambient = s.blocks[b].size;
            w.m.state[b].mani.fixed = {c.range(0, s.blocks[b].size - 1)};
            w.m.state[b].mani.tangent = s.blocks[b].size - 1;
          } else {
            w.m.state[b].mani = s.blocks[b].mani;
            if (!w.m.state[b].mani.linear()) std::copy(s.blocks[b].x0.begin(), s.blocks[b].x0.end(), w.X(b));
          }
        } else {
          w.m.state[b].mani = ManiSpec();
        }
        w.Configure(&live, b, true);
        break;
      }
      case 8: {
        if (w.m.res.empty()) break;
        const int r = c.pick(w.m.res);
        c.note() << " remove-residual " << r;
        live.problem->RemoveResidualBlock(live.ids[r]);
        remove(&w.m.res, r);
        break;
      }
      case 9: {
        for (int r = 0; r < nr; ++r) {
          if (std::find(w.m.res.begin(), w.m.res.end(), r) != w.m.res.end()) continue;
          c.note() << " add-residual " << r;
          for (int b : s.res[r].blocks)
            if (!has(b)) {
              w.m.blocks.push_back(b);
              w.m.state[b].constant = false;
              w.m.state[b].mani = ManiSpec();
              w.m.state[b].lo.clear();
              w.m.state[b].up.clear();
            }
          w.AddRes(&live, r);
          w.m.res.push_back(r);
          break;
        }
        break;
      }
      case 10: {
        if (w.m.blocks.size() < 2 || c.coin()) break;
        const int b = c.pick(w.m.blocks);
        c.note() << " remove-block " << b;
        live.problem->RemoveParameterBlock(w.X(b));
        remove(&w.m.blocks, b);
        std::vector<ceres::ResidualBlockId> left;
        live.problem->GetResidualBlocks(&left);
        std::vector<int> res;
        for (auto id : left) for (int r : w.m.res) if (live.ids[r] == id) res.push_back(r);
        for (int r : res) for (int k : s.res[r].blocks) REQUIRE("removed-with-block", k != b, "residual ", r, " survived the removal of block ", b);
        w.m.res = res;
        break;
      }
      case 11: {
        const int b = c.range(0, nb - 1);
        BlockSpec& q = w.m.state[b];
        if (!has(b) || !q.has_bounds()) break;
        const int k = c.range(0, q.size - 1);
        c.note() << " bounds " << b;
        q.lo[k] = w.X(b)[k] - c.pick({0.5, 0.0, 3.0});
        q.up[k] = w.X(b)[k] + c.pick({0.5, 0.1, 3.0});
        w.Configure(&live, b, false);
        break;
      }
    }
    ++earlier;
  }
  c.label(pbt::Str("compared ", std::min(compared, 5)));
}

PBT_MAIN("C37", "some solve, evaluation or covariance computation was compared with a fresh problem after at least one earlier operation")
