// C28: callbacks are called by the documented protocol.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;
using ceres::IterationSummary;

struct Call {
  int who;
  IterationSummary s;
  std::vector<Vec> x;
};
struct Cb : ceres::IterationCallback {
  Instance* in;
  std::vector<Call>* log;
  int who, stop_at = -1;
  ceres::CallbackReturnType verdict = ceres::SOLVER_CONTINUE;
  ceres::CallbackReturnType operator()(const IterationSummary& s) override {
    log->push_back({who, s, in->Values()});
    return s.iteration == stop_at ? verdict : ceres::SOLVER_CONTINUE;
  }
};

static bool TakesPart(const Spec& s, int b) {
  if (s.blocks[b].constant || s.blocks[b].tangent() == 0) return false;
  for (auto& r : s.res) for (int k : r.blocks) if (k == b) return true;
  return false;
}

static bool SameSummary(const IterationSummary& a, const IterationSummary& b) {
  return a.iteration == b.iteration && a.cost == b.cost && a.step_is_valid == b.step_is_valid && a.step_is_successful == b.step_is_successful &&
         a.step_is_nonmonotonic == b.step_is_nonmonotonic && a.gradient_norm == b.gradient_norm && a.gradient_max_norm == b.gradient_max_norm &&
         a.step_norm == b.step_norm && a.trust_region_radius == b.trust_region_radius && a.linear_solver_iterations == b.linear_solver_iterations &&
         a.cumulative_time_in_seconds == b.cumulative_time_in_seconds;
}

PBT_PROP(iteration, 110000, 3000000) {
  GenOptions g;
  g.bounds = c.chance(1, 4);
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = !g.bounds;
  Config cfg = GenConfig(c, s, co);
  if (cfg.o.preconditioner_type == ceres::CLUSTER_JACOBI || cfg.o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL) cfg.o.preconditioner_type = ceres::SCHUR_JACOBI;
  const bool upd = cfg.o.update_state_every_iteration = c.coin();
  Instance in(s);
  std::vector<Call> log;
  const int n = c.range(1, 3);
  std::vector<std::unique_ptr<Cb>> cbs;
  const int stop_at = c.chance(2, 3) ? c.range(0, c.pick({2, 6})) : -1, stopper = c.range(0, n - 1);
  const auto verdict = c.coin() ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  ceres::Solver::Options o = cfg.Make(in);
  for (int i = 0; i < n; ++i) {
    cbs.emplace_back(new Cb);
    cbs[i]->in = &in; cbs[i]->log = &log; cbs[i]->who = i;
    if (i == stopper) { cbs[i]->stop_at = stop_at; cbs[i]->verdict = verdict; }
    o.callbacks.push_back(cbs[i].get());
  }
  c.note() << s.Str() << " | " << cfg.str << " | " << n << " callbacks, number " << stopper << (verdict == ceres::SOLVER_ABORT ? " aborts" : " succeeds") << " at " << stop_at << (upd ? " upd" : "");
  ceres::Solver::Summary sum;
  ceres::Solve(o, in.problem.get(), &sum);
  const auto start = s.Start();
  const auto& it = sum.iterations;
  // -- who was called when
  const bool stopped = !log.empty() && log.back().who == stopper && log.back().s.iteration == stop_at;
  size_t k = 0;
  for (size_t i = 0; i < it.size(); ++i)
    for (int q = 0; q < n; ++q) {
      if (stopped && (int)i == stop_at && q > stopper) break;
      REQUIRE("callback_missed", k < log.size() && log[k].who == q && log[k].s.iteration == (int)i, "iteration ", i, " callback ", q, " (", k, " of ", log.size(), " calls)");
      REQUIRE("callback_summary", SameSummary(log[k].s, it[i]), "iteration ", i, " callback ", q);
      ++k;
    }
  REQUIRE("called_too_often", k == log.size(), k, " expected, ", log.size(), " calls");
  // -- what they saw
  const Spec& sp = in.spec;
  double best = std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < log.size(); ++i) {
    const Call& q = log[i];
    if (!upd) { REQUIRE("arrays_touched", SameBits(q.x, start), "iteration ", q.s.iteration); continue; }
    const double cost = (double)sp.Cost(q.x), cs = (double)sp.CostScale(q.x) + 1e-3;
    if (q.s.step_is_successful || q.s.iteration == 0) best = std::min(best, q.s.cost);
    REQUIRE("not_the_best_state", std::fabs(cost - best) <= 1e-10 * (cs + std::fabs(best)), "iteration ", q.s.iteration, ": cost of the user's arrays ", cost, ", best accepted so far ", best);
    for (size_t b = 0; b < sp.blocks.size(); ++b)
      if (!TakesPart(sp, b)) REQUIRE("constant_block_changed", SameBits({q.x[b]}, {start[b]}), "block ", b);
  }
  // -- how it ended
  if (stopped) {
    REQUIRE("went_on_after_stop", (int)it.size() == stop_at + 1, it.size());
    const auto want = verdict == ceres::SOLVER_ABORT ? ceres::USER_FAILURE : ceres::USER_SUCCESS;
    REQUIRE("termination", sum.termination_type == want, sum.termination_type, " ", sum.message);
    REQUIRE("usable", sum.IsSolutionUsable() == (verdict != ceres::SOLVER_ABORT), "");
    if (verdict == ceres::SOLVER_ABORT) REQUIRE("abort_moved", SameBits(in.Values(), start), "");
    else {
      double m = it[0].cost;
      for (auto& q : it) if (q.step_is_successful) m = std::min(m, q.cost);
      const double cost = (double)sp.Cost(in.Values()), cs = (double)sp.CostScale(in.Values()) + 1e-3;
      REQUIRE("success_not_best", std::fabs(cost - m) <= 1e-10 * (cs + std::fabs(m)), "cost left behind ", cost, ", best accepted ", m);
      REQUIRE("success_final_cost", std::fabs(sum.final_cost - m) <= 1e-13 * (cs + std::fabs(m)), sum.final_cost, " ", m);
      if (upd) REQUIRE("success_last_state", SameBits(in.Values(), log.back().x), "");
    }
  } else {
    REQUIRE("user_termination_without_stop", sum.termination_type != ceres::USER_SUCCESS && sum.termination_type != ceres::USER_FAILURE, "");
    REQUIRE("stop_ignored", stop_at < 0 || (int)it.size() <= stop_at, "stop at ", stop_at, " of ", it.size());
    // Watching changes nothing.
    if (o.num_threads == 1 && c.chance(1, 3)) {
      const auto end = in.Values();
      in.Set(start);
      ceres::Solver::Options o2 = cfg.Make(in);
      o2.update_state_every_iteration = !upd;
      ceres::Solver::Summary sum2;
      ceres::Solve(o2, in.problem.get(), &sum2);
      REQUIRE("watching_changed_result", SameBits(end, in.Values()) && sum2.final_cost == sum.final_cost && sum2.iterations.size() == it.size() && sum2.termination_type == sum.termination_type,
              sum.message, " | ", sum2.message);
      c.label("compared with an unwatched solve");
    }
  }
  if (stopped) c.label(verdict == ceres::SOLVER_ABORT ? "aborted" : "stopped successfully");
  c.nontrivial(it.size() >= 2);
}

// ---- evaluation callback -----------------------------------------------------
struct EvalCb : ceres::EvaluationCallback {
  Instance* in = nullptr;
  std::vector<std::unique_ptr<double[]>>* x = nullptr;
  std::string error;
  bool prepared = false, jac = false;
  std::vector<Vec> at;
  int64_t calls = 0, calls_jac = 0, reuse = 0, evals_since = 0, jac_since = 0, same_new = 0;
  bool only_jac_once = false;
  void PrepareForEvaluation(bool j, bool new_point) override {
    std::lock_guard<std::mutex> l(in->rec.mu);
    ++calls;
    const auto v = in->Values();
    if (!new_point) {
      ++reuse;
      if (!prepared) error = "the first point is not new";
      else if (!SameBits(v, at)) error = "announced as unchanged, but the point differs from the last one";
    } else if (prepared && SameBits(v, at)) ++same_new;
    if (j) ++calls_jac;
    at = v;
    jac = j;
    prepared = true;
    evals_since = jac_since = 0;
  }
  int OnEval(const Spec& s, int r, const double* const* p, bool jacobians) {
    ++evals_since;
    if (jacobians) ++jac_since;
    if (!prepared) { error = "cost function evaluated before any notification"; return kOk; }
    if (jacobians && !jac) error = "Jacobians requested though the callback was told otherwise";
    const auto& bl = s.res[r].blocks;
    for (size_t i = 0; i < bl.size(); ++i) {
      if (std::memcmp(p[i], at[bl[i]].data(), at[bl[i]].size() * sizeof(double))) error = pbt::Str("residual ", r, " evaluated at a point the callback was not told about (block ", bl[i], ")");
      if (std::memcmp(in->x[bl[i]].get(), p[i], at[bl[i]].size() * sizeof(double))) error = pbt::Str("residual ", r, ": the user's array does not hold the evaluated point (block ", bl[i], ")");
    }
    return kOk;
  }
};

PBT_PROP(evaluation, 80000, 2500000) {
  GenOptions g;
  g.bounds = c.chance(1, 4);
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = !g.bounds;
  co.inner = false;
  EvalCb cb;
  BuildOptions bo;
  bo.evaluation_callback = &cb;
  Instance in(s, bo);
  cb.in = &in;
  in.rec.hook = [&](int r, const double* const* p, bool j) { return cb.OnEval(in.spec, r, p, j); };
  c.note() << s.Str() << " :";
  const int steps = c.range(1, 4);
  bool big = false;
  auto check = [&](const char* what) { REQUIRE("evaluation_protocol", cb.error.empty(), "during ", what, ": ", cb.error); };
  auto tweak = [&] {  // the user edits the parameters between calls
    for (size_t b = 0; b < s.blocks.size(); ++b)
      if (s.blocks[b].mani.linear() && c.chance(1, 3)) in.x[b][c.range(0, s.blocks[b].size - 1)] += 0.25;
  };
  for (int k = 0; k < steps; ++k) {
    const auto before = in.Values();
    switch (c.range(0, 4)) {
      case 0: case 1: {
        Config cfg = GenConfig(c, s, co);
        c.note() << " solve(" << cfg.str << ")";
        if (g.bounds) in.Set(s.Start());
        ceres::Solver::Options o = cfg.Make(in);
        const int64_t cj = cb.calls_jac, re = cb.reuse, calls = cb.calls;
        ceres::Solver::Summary sum;
        ceres::Solve(o, in.problem.get(), &sum);
        check("a solve");
        if (o.minimizer_type == ceres::TRUST_REGION && sum.iterations.size() > 1) {
          // Residuals of an accepted point were just computed: its Jacobian evaluation is announced as reuse.
          int acc = 0;
          for (size_t i = 1; i < sum.iterations.size(); ++i) acc += sum.iterations[i].step_is_successful;
          // (The projected line search of constrained problems may evaluate gradients too.)
          if (!sum.is_constrained) {
            REQUIRE("reuse_announced", cb.reuse - re >= acc, cb.reuse - re, " for ", acc, " accepted steps");
            REQUIRE("jacobian_notifications", cb.calls_jac - cj == 1 + acc || (!sum.IsSolutionUsable() && cb.calls_jac - cj == 2 + acc), cb.calls_jac - cj, " for ", acc, " accepted steps");
          }
          big = true;
        }
        if (sum.iterations.size() > 0) REQUIRE("not_notified", cb.calls > calls, "");
        if (sum.IsSolutionUsable()) {
          REQUIRE("final_cost_with_callback", std::fabs((double)s.Cost(in.Values()) - sum.final_cost) <= 1e-10 * ((double)s.CostScale(in.Values()) + 1e-3), "");
        } else REQUIRE("restored_with_callback", SameBits(before, in.Values()) || g.bounds, "");
        break;
      }
      case 2: {
        tweak();
        const auto v = in.Values();
        double cost; std::vector<double> r, gr; ceres::CRSMatrix j;
        ceres::Problem::EvaluateOptions o;
        o.num_threads = c.pick({1, 2, 4});
        o.apply_loss_function = c.coin();
        const int what = c.range(1, 15);
        c.note() << " evaluate(" << what << ")";
        const int64_t calls = cb.calls;
        in.problem->Evaluate(o, what & 1 ? &cost : nullptr, what & 2 ? &r : nullptr, what & 4 ? &gr : nullptr, what & 8 ? &j : nullptr);
        check("Problem::Evaluate");
        REQUIRE("evaluate_notifications", cb.calls == calls + 1, cb.calls - calls);
        int cols = 0;
        for (auto& b : s.blocks) cols += b.tangent();
        if (cols > 0) REQUIRE("evaluate_flag", cb.jac == ((what & 12) != 0), "");
        REQUIRE("evaluate_moved", SameBits(v, in.Values()), "");
        break;
      }
      case 3: {
        tweak();
        const int r = c.range(0, (int)s.res.size() - 1);
        const bool same = cb.prepared && SameBits(in.Values(), cb.at) && c.coin();
        const bool jac = c.coin();
        double cost;
        Vec res(s.res[r].rows);
        std::vector<Vec> jb;
        std::vector<double*> jp;
        for (int b : s.res[r].blocks) { jb.emplace_back(s.res[r].rows * s.blocks[b].size); }
        for (auto& v : jb) jp.push_back(v.data());
        c.note() << " residual(" << r << (same ? ",unchanged" : "") << (jac ? ",jacobians)" : ")");
        const int64_t calls = cb.calls, re = cb.reuse;
        if (same) in.problem->EvaluateResidualBlockAssumingParametersUnchanged(in.ids[r], c.coin(), &cost, res.data(), jac ? jp.data() : nullptr);
        else in.problem->EvaluateResidualBlock(in.ids[r], c.coin(), &cost, res.data(), jac ? jp.data() : nullptr);
        check("EvaluateResidualBlock");
        REQUIRE("residual_notifications", cb.calls == calls + 1 && cb.jac == jac && cb.reuse - re == (same ? 1 : 0), "");
        break;
      }
      case 4: {
        Config cfg = GenConfig(c, s, co);
        if (cfg.o.minimizer_type != ceres::TRUST_REGION) break;
        c.note() << " inner";
        ceres::Solver::Options o = cfg.Make(in);
        o.use_inner_iterations = true;
        ceres::Solver::Summary sum;
        ceres::Solve(o, in.problem.get(), &sum);
        check("a solve with inner iterations");
        // (Without free blocks there is nothing to do, and nothing to reject.)
        if (sum.num_effective_parameters_reduced > 0) REQUIRE("inner_with_callback", sum.termination_type == ceres::FAILURE && !sum.message.empty(), sum.message);
        REQUIRE("inner_moved", SameBits(before, in.Values()), "");
        break;
      }
    }
  }
  if (cb.reuse) c.label("points reused");
  c.nontrivial(big || cb.calls > 1);
}

// The callback being there does not change what is computed.
PBT_PROP(evaluation_neutral, 20000, 500000) {
  Spec s = Gen(c);
  ConfigOptions co;
  co.inner = false;
  co.threads = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.linear_solver_type = ceres::DENSE_QR;  // keeps the program's order
  cfg.o.preconditioner_type = ceres::JACOBI;
  cfg.o.dynamic_sparsity = cfg.o.use_mixed_precision_solves = cfg.o.use_explicit_schur_complement = cfg.o.use_spse_initialization = false;
  cfg.group.clear();
  cfg.subset.clear();
  c.note() << s.Str() << " | " << cfg.str << " (DENSE_QR)";
  EvalCb cb;
  BuildOptions bo;
  bo.evaluation_callback = &cb;
  Instance a(s), b(s, bo);
  cb.in = &b;
  ceres::Solver::Summary sa, sb;
  ceres::Solve(cfg.Make(a), a.problem.get(), &sa);
  ceres::Solve(cfg.Make(b), b.problem.get(), &sb);
  REQUIRE("termination_differs", sa.termination_type == sb.termination_type, sa.message, " | ", sb.message);
  REQUIRE("result_differs", SameBits(a.Values(), b.Values()), StrX(a.Values()), StrX(b.Values()));
  REQUIRE("cost_differs", sa.final_cost == sb.final_cost && sa.iterations.size() == sb.iterations.size(), "");
  c.nontrivial(sa.iterations.size() > 1);
}

PBT_MAIN("C28", "the solve logged at least two iterations (evaluation: at least two notifications)")
