// C05: the iteration log is a truthful history and convergence claims are earned.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;
using ceres::IterationSummary;

struct Snap {
  IterationSummary s;
  std::vector<Vec> x;
};
struct Log : ceres::IterationCallback {
  Instance* in;
  std::vector<Snap> v;
  ceres::CallbackReturnType operator()(const IterationSummary& s) override {
    v.push_back({s, in->Values()});
    return ceres::SOLVER_CONTINUE;
  }
};

static bool TakesPart(const Spec& s, int b) {
  if (s.blocks[b].constant || s.blocks[b].tangent() == 0) return false;
  for (auto& r : s.res) for (int k : r.blocks) if (k == b) return true;
  return false;
}

// The spec with the blocks that are not optimised made constant.
static Spec Effective(Spec s) {
  for (size_t b = 0; b < s.blocks.size(); ++b) if (!TakesPart(s, b)) s.blocks[b].constant = true;
  return s;
}

static double GradScale(const Spec& s, const std::vector<Vec>& x) {
  double sc; s.AmbientGradient(x, &sc);
  double k = 1;
  for (auto& v : x) for (double t : v) k = std::max(k, std::fabs(t));
  return sc + k;
}

static double StepNorm(const Spec& s, const std::vector<Vec>& a, const std::vector<Vec>& b) {
  double t = 0;
  for (size_t i = 0; i < a.size(); ++i)
    if (!s.blocks[i].constant) for (size_t k = 0; k < a[i].size(); ++k) t += (a[i][k] - b[i][k]) * (a[i][k] - b[i][k]);
  return std::sqrt(t);
}
static double Norm(const Spec& s, const std::vector<Vec>& a) {
  double t = 0;
  for (size_t i = 0; i < a.size(); ++i) if (!s.blocks[i].constant) for (double d : a[i]) t += d * d;
  return std::sqrt(t);
}

struct Checked {
  ceres::Solver::Summary sum;
  std::vector<Snap> log;
};

// Solves with state updates on and checks everything the log says.
static Checked Solve(pbt::Case& c, Instance& in, const Config& cfg) {
  const Spec es = Effective(in.spec);
  ceres::Solver::Options o = cfg.Make(in);
  o.update_state_every_iteration = true;
  Log log;
  log.in = &in;
  o.callbacks.push_back(&log);
  Checked r;
  ceres::Solve(o, in.problem.get(), &r.sum);
  r.log = log.v;
  const auto& sum = r.sum;
  const auto& it = sum.iterations;
  const bool tr = o.minimizer_type == ceres::TRUST_REGION;
  const bool exact_best = o.num_threads == 1;  // (thread sums differ in the last bits between evaluations)
  // -- structure
  if (it.empty()) {
    REQUIRE("no_log", sum.termination_type == ceres::FAILURE || sum.message.find("Gradient tolerance") != std::string::npos ||
            sum.num_effective_parameters_reduced == 0, sum.message);
    return r;
  }
  REQUIRE("log_vs_callbacks", log.v.size() == it.size(), log.v.size(), " ", it.size());
  int ok = 0, bad = 0;
  for (size_t i = 0; i < it.size(); ++i) {
    REQUIRE("iteration_number", it[i].iteration == (int)i, i, " ", it[i].iteration);
    REQUIRE("callback_summary", log.v[i].s.iteration == it[i].iteration && log.v[i].s.cost == it[i].cost &&
            log.v[i].s.step_is_successful == it[i].step_is_successful, i);
    if (it[i].step_is_successful) REQUIRE("successful_but_invalid", it[i].step_is_valid, i);
    if (tr || i > 0) it[i].step_is_successful ? ++ok : ++bad;
    REQUIRE("times", it[i].iteration_time_in_seconds >= 0 && it[i].cumulative_time_in_seconds >= (i ? it[i - 1].cumulative_time_in_seconds : 0), i);
  }
  REQUIRE("too_many_iterations", it.back().iteration <= std::max(0, o.max_num_iterations), it.back().iteration, " > ", o.max_num_iterations);
  REQUIRE("successful_count", sum.num_successful_steps == ok, sum.num_successful_steps, " log ", ok);
  REQUIRE("unsuccessful_count", sum.num_unsuccessful_steps == bad, sum.num_unsuccessful_steps, " log ", bad);
  REQUIRE("initial_cost", it[0].cost == sum.initial_cost, it[0].cost, " ", sum.initial_cost);
  const double fixed = sum.fixed_cost;
  // -- costs, gradients, steps
  double prev_cost = it[0].cost;
  const std::vector<Vec>* prev_x = &log.v[0].x;
  bool prev_known = true, accepted_any = false;
  for (size_t i = 0; i < it.size(); ++i) {
    const IterationSummary& s = it[i];
    const std::vector<Vec>& x = log.v[i].x;
    const double cs = (double)in.spec.CostScale(x) + std::fabs(prev_cost) + std::fabs(s.cost) + 1e-3;
    const bool accepted = s.step_is_successful || i == 0;
    // A rejected step may end at a point that cannot be evaluated: it has the largest cost there is.
    if (s.cost < 1e300 && std::fabs(s.cost_change) < 1e300 && i > 0)
      if (tr ? s.step_is_valid : true)
        REQUIRE("cost_change", std::fabs(s.cost_change - (prev_cost - s.cost)) <= 1e-12 * cs, "iteration ", i, ": cost ", s.cost, " previous ", prev_cost, " change ", s.cost_change);
    if (i > 0 && accepted && !o.use_nonmonotonic_steps)
      REQUIRE("cost_increased", s.cost <= prev_cost + (exact_best ? 0 : 1e-13 * cs), "iteration ", i, ": ", prev_cost, " -> ", s.cost);
    const bool at_iterate = accepted && !s.step_is_nonmonotonic;
    if (accepted && !o.use_nonmonotonic_steps && exact_best) REQUIRE("nonmonotonic_flag", !s.step_is_nonmonotonic, i);
    if (at_iterate) {
      const double cost = (double)in.spec.Cost(x);
      REQUIRE("logged_cost", std::fabs(cost - s.cost) <= 1e-10 * cs, "iteration ", i, ": logged ", s.cost, " recomputed ", cost);
      double gm, gn;
      es.ProjectedGradientNorms(x, &gm, &gn);
      if (!tr && false) continue;
      const double gs = GradScale(es, x);
      if (gs < 1e6) {
        REQUIRE("gradient_max_norm", std::fabs(gm - s.gradient_max_norm) <= 1e-9 * gs, "iteration ", i, ": logged ", s.gradient_max_norm, " recomputed ", gm);
        REQUIRE("gradient_norm", std::fabs(gn - s.gradient_norm) <= 1e-9 * gs * std::sqrt(1.0 + in.spec.num_params()), "iteration ", i, ": logged ", s.gradient_norm, " recomputed ", gn);
      }
      if (i > 0 && prev_known) {
        const double sn = StepNorm(es, *prev_x, x);
        REQUIRE("step_norm", std::fabs(sn - s.step_norm) <= 1e-10 * (Norm(es, x) + 1), "iteration ", i, ": logged ", s.step_norm, " recomputed ", sn);
      }
    } else if (i > 0 && !accepted) {
      REQUIRE("gradient_carried_over", s.gradient_max_norm == it[i - 1].gradient_max_norm && s.gradient_norm == it[i - 1].gradient_norm, i);
      REQUIRE("rejected_but_moved", SameBits(x, log.v[i - 1].x), i);
    }
    if (tr) {
      REQUIRE("radius", s.trust_region_radius > 0 && s.trust_region_radius <= o.max_trust_region_radius * (1 + 1e-15), i, " ", s.trust_region_radius);
      if (i == 0) REQUIRE("initial_radius", s.trust_region_radius == o.initial_trust_region_radius, s.trust_region_radius);
      else if (!s.step_is_successful)
        REQUIRE("radius_after_rejection", s.trust_region_radius <= it[i - 1].trust_region_radius, i, ": ", it[i - 1].trust_region_radius, " -> ", s.trust_region_radius);
      if (i > 0 && s.step_is_valid && !o.use_inner_iterations) {
        if (s.step_is_successful) REQUIRE("accepted_bad_step", s.relative_decrease > o.min_relative_decrease, i, " ", s.relative_decrease);
        else REQUIRE("rejected_good_step", !(s.relative_decrease > o.min_relative_decrease), i, " ", s.relative_decrease);
      }
    }
    if (accepted) {
      if (i > 0) accepted_any = true;
      prev_cost = s.cost;
      prev_x = &x;
      prev_known = at_iterate;
    }
    // The solver does not go on after it met its own criteria.
    if (i + 1 < it.size()) {
      if (accepted && (tr || i > 0)) REQUIRE("missed_gradient_tolerance", s.gradient_max_norm > o.gradient_tolerance, i, ": ", s.gradient_max_norm, " <= ", o.gradient_tolerance);
      if (tr) REQUIRE("missed_min_radius", s.trust_region_radius > o.min_trust_region_radius, i, " ", s.trust_region_radius);
      if (tr && i > 0 && s.step_is_valid)
        REQUIRE("missed_function_tolerance", std::fabs(s.cost_change) >= o.function_tolerance * std::fabs(s.cost + s.cost_change - fixed) * (1 - 1e-9) - 1e-14 * cs,
                i, ": change ", s.cost_change, " cost ", s.cost);
    }
  }
  (void)accepted_any;
  // -- the final report
  if (sum.IsSolutionUsable()) {
    double best = it[0].cost;
    for (size_t i = 0; i < it.size(); ++i) if (it[i].step_is_successful) best = std::min(best, it[i].cost);
    REQUIRE("final_cost", std::fabs(sum.final_cost - best) <= 1e-13 * (1 + std::fabs(best)), sum.final_cost, " best accepted ", best);
    REQUIRE("final_state", SameBits(in.Values(), log.v.back().x), "");
  }
  if (sum.message.find("Maximum number of iterations") != std::string::npos)
    REQUIRE("limit_message", it.back().iteration >= o.max_num_iterations && sum.termination_type == ceres::NO_CONVERGENCE, "");
  if (sum.message.find("radius reached") != std::string::npos)
    REQUIRE("radius_message", it.back().trust_region_radius <= o.min_trust_region_radius && sum.termination_type == ceres::CONVERGENCE, "");
  return r;
}

static void Classify(pbt::Case& c, const Checked& r) {
  c.label(r.sum.message.substr(0, 18));
  bool rejected = false;
  int ok = 0;
  for (auto& s : r.sum.iterations) { rejected |= !s.step_is_successful && s.iteration > 0; ok += s.step_is_successful && s.iteration > 0; }
  if (rejected) c.label("has rejected steps");
  c.nontrivial(ok >= 2);
}

PBT_PROP(history, 60000, 2000000) {
  GenOptions g;
  g.bounds = c.chance(1, 4);
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = !g.bounds;
  Config cfg = GenConfig(c, s, co);
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  Classify(c, Solve(c, in, cfg));
}

// Few, strongly nonlinear blocks: many rejected steps.
PBT_PROP(rough_history, 60000, 2000000) {
  GenOptions g;
  g.max_blocks = 3;
  g.max_res = 4;
  g.scale = 8.0;
  g.priors = false;
  Spec s = Gen(c, g);
  ConfigOptions co;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = c.range(1, 30);
  if (c.coin()) cfg.o.min_relative_decrease = c.pick({0.5, 0.9, 0.1});
  cfg.o.initial_trust_region_radius = std::min(cfg.o.max_trust_region_radius, c.pick({1e4, 1e12, 1.0}));
  if (c.chance(1, 3)) cfg.o.function_tolerance = cfg.o.parameter_tolerance = 0;
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  Classify(c, Solve(c, in, cfg));
}

// A convergence report is backed by the criterion it names, recomputed from
// the iterates and the last point the solver evaluated.
PBT_PROP(convergence, 80000, 2000000) {
  GenOptions g;
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.threads = false;
  co.inner = false;
  co.nonmonotonic = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = c.pick({100, 30});
  if (c.coin()) cfg.o.function_tolerance = c.pick({1e-2, 1e-4, 1e-1});
  else { cfg.o.function_tolerance = 0; if (c.coin()) cfg.o.parameter_tolerance = c.pick({1e-2, 1e-4, 1e-1}); }
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  std::vector<Vec> cand = in.Values();
  in.rec.hook = [&](int r, const double* const* p, bool) {
    for (size_t i = 0; i < s.res[r].blocks.size(); ++i) {
      Vec& v = cand[s.res[r].blocks[i]];
      std::copy(p[i], p[i] + v.size(), v.begin());
    }
    return (int)kOk;
  };
  Checked r = Solve(c, in, cfg);
  Classify(c, r);
  const auto& sum = r.sum;
  const Spec es = Effective(s);
  if (sum.termination_type != ceres::CONVERGENCE || sum.num_effective_parameters_reduced == 0) {
    if (sum.termination_type == ceres::NO_CONVERGENCE)
      REQUIRE("unexplained_stop", sum.message.find("Maximum number of iterations") != std::string::npos, sum.message);
    return;
  }
  const std::vector<Vec> x = in.Values();
  const double cost = (double)s.Cost(x) - sum.fixed_cost, cs = (double)s.CostScale(x) + 1e-3;
  const bool tr = cfg.o.minimizer_type == ceres::TRUST_REGION;
  if (sum.message.find("Gradient tolerance") != std::string::npos) {
    double gm, gn;
    es.ProjectedGradientNorms(x, &gm, &gn);
    REQUIRE("gradient_claim", gm <= cfg.o.gradient_tolerance + 1e-10 * GradScale(es, x), gm, " > ", cfg.o.gradient_tolerance);
  } else if (sum.message.find("Function tolerance") != std::string::npos) {
    double change;
    if (tr) change = (double)(s.Cost(x) - s.Cost(cand));
    else change = sum.iterations.back().cost_change;
    const double base = tr ? cost : cost + change;
    REQUIRE("function_claim", std::fabs(change) <= cfg.o.function_tolerance * base * (1 + 1e-9) + 1e-11 * cs, "change ", change, " cost ", base, " tolerance ", cfg.o.function_tolerance);
  } else if (sum.message.find("Parameter tolerance") != std::string::npos) {
    double step, xn;
    if (tr) { step = StepNorm(es, x, cand); xn = Norm(es, x); }
    else { step = sum.iterations.back().step_norm; xn = Norm(es, r.log[r.log.size() - 2].x); }
    REQUIRE("parameter_claim", step <= cfg.o.parameter_tolerance * (xn + cfg.o.parameter_tolerance) * (1 + 1e-9) + 1e-15, "step ", step, " |x| ", xn, " tolerance ", cfg.o.parameter_tolerance);
  } else {
    REQUIRE("unexplained_convergence", sum.message.find("trust region radius") != std::string::npos, sum.message);
  }
}

// The iteration limit only cuts the history short.
PBT_PROP(prefix, 30000, 800000) {
  Spec s = Gen(c);
  ConfigOptions co;
  co.threads = false;
  Config cfg = GenConfig(c, s, co);
  // (The cluster preconditioners break ties by hash table order, which varies.)
  if (cfg.o.preconditioner_type == ceres::CLUSTER_JACOBI || cfg.o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL) cfg.o.preconditioner_type = ceres::SCHUR_JACOBI;
  const int n = c.range(0, 6), m = n + c.range(1, 10);
  c.note() << s.Str() << " | " << cfg.str << " limits " << n << " and " << m;
  // (One problem twice: automatic orderings may depend on addresses.)
  Instance a(s);
  cfg.o.max_num_iterations = n;
  Checked ra = Solve(c, a, cfg);
  const auto xa = a.Values();
  a.Set(s.Start());
  cfg.o.max_num_iterations = m;
  Checked rb = Solve(c, a, cfg);
  const auto &ia = ra.sum.iterations, &ib = rb.sum.iterations;
  if (ra.sum.termination_type == ceres::FAILURE && ra.sum.iterations.empty()) return;
  REQUIRE("shorter_log", ib.size() >= ia.size(), ia.size(), " ", ib.size());
  for (size_t i = 0; i < ia.size(); ++i) {
    REQUIRE("prefix_cost", ia[i].cost == ib[i].cost && ia[i].gradient_norm == ib[i].gradient_norm && ia[i].step_is_successful == ib[i].step_is_successful, "iteration ", i, ": ", ia[i].cost, " ", ib[i].cost);
    REQUIRE("prefix_state", SameBits(ra.log[i].x, rb.log[i].x), "iteration ", i);
  }
  if (ra.sum.IsSolutionUsable() && rb.sum.IsSolutionUsable())
    REQUIRE("longer_is_worse", rb.sum.final_cost <= ra.sum.final_cost, "limit ", n, ": ", ra.sum.final_cost, "; limit ", m, ": ", rb.sum.final_cost);
  if (n == 0 && cfg.o.minimizer_type == ceres::TRUST_REGION) {
    REQUIRE("moved_without_iterations", SameBits(xa, s.Start()), StrX(xa));
    REQUIRE("cost_without_iterations", ra.sum.final_cost == ra.sum.initial_cost, "");
  }
  c.nontrivial(ib.size() > ia.size() && ia.size() > 1);
}

// No time: no steps.
PBT_PROP(no_time, 5000, 50000) {
  Spec s = Gen(c);
  Config cfg = GenConfig(c, s);
  cfg.o.max_solver_time_in_seconds = 0;
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  const auto before = in.Values();
  Checked r = Solve(c, in, cfg);
  REQUIRE("stepped", r.sum.iterations.size() <= 1, r.sum.iterations.size());
  REQUIRE("moved", SameBits(before, in.Values()), "");
  if (r.sum.iterations.size() == 1 && r.sum.num_effective_parameters_reduced > 0) {
    REQUIRE("termination", r.sum.termination_type == ceres::NO_CONVERGENCE, r.sum.message);
    c.nontrivial(true);
  }
}

PBT_MAIN("C05", "the solve took at least two accepted steps (prefix: the longer history continues the shorter one)")
