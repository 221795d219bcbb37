// C04: bound constraints hold at every visible point and at the optimum.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;

static bool Inside(const BlockSpec& b, const double* x) {
  for (int k = 0; k < b.size; ++k) if (!(x[k] >= b.lo[k] && x[k] <= b.up[k])) return false;
  return true;
}

// Blocks without residuals and blocks without freedom are not optimised.
static bool TakesPart(const Spec& s, int b) {
  if (s.blocks[b].constant || s.blocks[b].tangent() == 0) return false;
  for (auto& r : s.res) for (int k : r.blocks) if (k == b) return true;
  return false;
}

struct Watch : ceres::IterationCallback {
  pbt::Case* c;
  Instance* in;
  std::string bad;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override {
    for (size_t b = 0; b < in->spec.blocks.size(); ++b)
      if (in->spec.blocks[b].has_bounds() && TakesPart(in->spec, b) && !Inside(in->spec.blocks[b], in->x[b].get()) && bad.empty() && s.iteration > 0)
        bad = pbt::Str("block ", b, " at iteration ", s.iteration);
    return ceres::SOLVER_CONTINUE;
  }
};

PBT_PROP(feasible, 60000, 2000000) {
  GenOptions g;
  g.bounds = true;
  Spec s = Gen(c, g);
  bool any = false;
  for (auto& b : s.blocks) any |= b.has_bounds() && !b.constant;
  if (!any) c.discard();
  if (c.chance(1, 3))
    for (auto& b : s.blocks)
      if (b.has_bounds() && !b.constant)
        for (double& x : b.x0) if (c.coin()) x += c.pick({-4.0, 4.0, 1e3});
  ConfigOptions co;
  co.line_search = false;
  Config cfg = GenConfig(c, s, co);
  if (c.chance(1, 4)) cfg.o.max_num_line_search_step_size_iterations = c.pick({0, 1, 5});
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  // Every point at which the user's code is evaluated is feasible.
  std::string bad;
  in.rec.hook = [&](int r, const double* const* p, bool) {
    for (size_t i = 0; i < s.res[r].blocks.size(); ++i) {
      const BlockSpec& b = s.blocks[s.res[r].blocks[i]];
      if (b.has_bounds() && TakesPart(s, s.res[r].blocks[i]) && !Inside(b, p[i]) && bad.empty())
        bad = pbt::Str("residual ", r, " evaluated at an infeasible value of block ", s.res[r].blocks[i]);
    }
    return (int)kOk;
  };
  Watch w;
  w.c = &c; w.in = &in;
  ceres::Solver::Options o = cfg.Make(in);
  o.update_state_every_iteration = true;
  o.callbacks.push_back(&w);
  ceres::Solver::Summary sum;
  ceres::Solve(o, in.problem.get(), &sum);
  REQUIRE("infeasible_evaluation", bad.empty(), bad);
  REQUIRE("infeasible_callback_state", w.bad.empty(), w.bad);
  if (sum.IsSolutionUsable()) {
    bool active = false, free_bounded = false;
    for (size_t b = 0; b < s.blocks.size(); ++b)
      if (s.blocks[b].has_bounds() && !s.blocks[b].constant) {
        if (!TakesPart(s, b)) continue;
        free_bounded = true;
        REQUIRE("infeasible_result", Inside(s.blocks[b], in.x[b].get()), "block ", b, " ", StrX(in.Values()));
        for (int k = 0; k < s.blocks[b].size; ++k)
          active |= in.x[b].get()[k] == s.blocks[b].lo[k] || in.x[b].get()[k] == s.blocks[b].up[k];
      }
    if (active) c.label("active bound at the end");
    c.nontrivial(free_bounded && sum.iterations.size() > 1);
    REQUIRE("is_constrained", sum.is_constrained == free_bounded || !free_bounded, "");
  }
}

static Spec GenBoxed(pbt::Case& c, bool separable) {
  GenOptions g;
  g.bounds = true;
  g.nonlinear = false;
  g.losses = false;
  g.manifolds = c.coin();
  g.curved = false;
  g.full_rank = true;
  Spec s = Gen(c, g);
  for (auto& b : s.blocks) if (b.mani.kind == kLinear) b.mani = ManiSpec();
  if (separable) {
    // Every residual looks at one coordinate of one block.
    for (auto& r : s.res) {
      if (r.blocks.size() == 1 && r.rows == r.inputs && r.a.isDiagonal()) continue;
      for (int i = 0; i < r.rows; ++i) {
        const int k = c.range(0, r.inputs - 1);
        for (int j = 0; j < r.inputs; ++j) if (j != k) r.a(i, j) = 0;
      }
    }
  }
  return s;
}

static Config KktConfig(pbt::Case& c, const Spec& s) {
  ConfigOptions co;
  co.line_search = false;
  co.tight = true;
  co.exact_only = true;
  co.mixed = false;
  co.inner = false;
  co.nonmonotonic = false;  // (a nonmonotonic solve returns its cheapest point, not its last)
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = 300;
  cfg.o.max_trust_region_radius = 1e16;
  cfg.o.gradient_tolerance = 1e-7;
  // The trust region model ignores the bounds, so the usual acceptance ratio
  // rejects good projected steps.
  cfg.o.min_relative_decrease = 0;
  return cfg;
}

static bool Active(const Spec& s, const std::vector<Vec>& x) {
  for (size_t b = 0; b < s.blocks.size(); ++b)
    if (s.blocks[b].has_bounds() && !s.blocks[b].constant)
      for (int k = 0; k < s.blocks[b].size; ++k) if (x[b][k] == s.blocks[b].lo[k] || x[b][k] == s.blocks[b].up[k]) return true;
  return false;
}

// Convex, coordinates independent: the projection of the Newton step is the
// solution, so the solver has to get there.
PBT_PROP(kkt_separable, 60000, 1500000) {
  Spec s = GenBoxed(c, true);
  Config cfg = KktConfig(c, s);
  cfg.o.initial_trust_region_radius = 1e8;
  cfg.o.trust_region_strategy_type = ceres::LEVENBERG_MARQUARDT;
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  double gm, gn;
  const auto x = in.Values();
  s.ProjectedGradientNorms(x, &gm, &gn);
  // The recorded finding (`stall`) also shows here: at a bound, the slope that the projected line search is given
  // counts the coordinate that cannot move, and the search shortens steps that are right for the others.
  bool at_bound = false;
  for (auto& b : s.blocks)
    if (b.has_bounds() && !b.constant)
      for (int k = 0; k < b.size; ++k) at_bound |= std::fabs(b.x0[k] - b.lo[k]) < 1e-3 || std::fabs(b.x0[k] - b.up[k]) < 1e-3;
  if (at_bound && sum.num_line_search_steps > 0) { c.label("line search at a bound"); return; }
  REQUIRE("kkt", gm <= 1e-5, "projected gradient ", gm, " after ", sum.iterations.size(), " iterations: ", sum.message, " x ", StrX(x));
  c.label(Active(s, x) ? "active" : "inactive");
  c.nontrivial(Active(s, x) && sum.iterations.size() > 1);
}

// Convex, coupled: convergence by gradient means the KKT conditions hold, and
// a solution in the interior is the unconstrained minimiser.
PBT_PROP(kkt_coupled, 40000, 1000000) {
  Spec s = GenBoxed(c, false);
  Config cfg = KktConfig(c, s);
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  double gm, gn;
  const auto x = in.Values();
  s.ProjectedGradientNorms(x, &gm, &gn);
  const bool claims = sum.message.find("Gradient tolerance reached") != std::string::npos;
  c.label(claims ? "gradient convergence" : sum.message.substr(0, 20));
  // With several threads the cost of one point varies in its last bits between
  // evaluations, so the cheapest point need not be the last one.
  const double tol = cfg.o.num_threads > 1 ? 1e-5 : 1e-7 * 1.001 + 1e-12;
  if (claims) REQUIRE("kkt", gm <= tol, "projected gradient ", gm, " after ", sum.iterations.size(), " iterations: ", sum.message, " x ", StrX(x));
  c.nontrivial(claims && Active(s, x) && sum.iterations.size() > 1);
}

// A specific two-variable problem on which the solver stalls and claims
// convergence away from the constrained minimiser (see known_findings.txt).
PBT_PROP(stall, 1, 1) {
  c.draw(1);
  Spec s;
  BlockSpec b;
  b.size = 2;
  b.x0 = {0, 0};
  b.lo = {-std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
  b.up = {0, std::numeric_limits<double>::infinity()};
  s.blocks.push_back(b);
  ResSpec r;
  r.blocks = {0};
  r.rows = r.inputs = 2;
  r.a.resize(2, 2);
  r.a << 1, -1, 0, 0.1;
  r.target = {1, 0.2};
  s.res.push_back(r);
  c.note() << "min ((x-y-1)^2 + (0.1y-0.2)^2)/2, x <= 0";
  Instance in(s);
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.linear_solver_type = ceres::DENSE_QR;
  o.max_num_iterations = 1000;
  o.function_tolerance = o.parameter_tolerance = 0;
  ceres::Solver::Summary sum;
  ceres::Solve(o, in.problem.get(), &sum);
  double gm, gn;
  s.ProjectedGradientNorms(in.Values(), &gm, &gn);
  c.nontrivial(true);
  REQUIRE("false_convergence", sum.termination_type != ceres::CONVERGENCE || gm < 1e-3, "projected gradient ", gm, " at ", StrX(in.Values()), " ", sum.message);
}

// Infeasible problems are reported, and the parameters stay untouched.
PBT_PROP(infeasible, 20000, 400000) {
  GenOptions g;
  g.bounds = true;
  g.unused_blocks = false;
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = false;
  Config cfg = GenConfig(c, s, co);
  const int b = c.range(0, (int)s.blocks.size() - 1), k = c.range(0, s.blocks[b].size - 1);
  if (!s.blocks[b].mani.box_ok()) s.blocks[b].mani = ManiSpec();
  s.blocks[b].constant = false;
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  in.problem->SetParameterBlockVariable(in.x[b].get());
  const bool empty = c.coin();
  const double v = in.x[b].get()[k];
  if (empty) {  // empty interval
    in.problem->SetParameterLowerBound(in.x[b].get(), k, v + 1);
    in.problem->SetParameterUpperBound(in.x[b].get(), k, v - c.pick({0.5, 1e-9, -0.5}));
  } else {      // constant block outside its box
    if (c.coin()) in.problem->SetParameterLowerBound(in.x[b].get(), k, v + c.pick({0.5, 1e-9}));
    else in.problem->SetParameterUpperBound(in.x[b].get(), k, v - c.pick({0.5, 1e-9}));
    in.problem->SetParameterBlockConstant(in.x[b].get());
  }
  const auto before = in.Values();
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  REQUIRE("accepted", sum.termination_type == ceres::FAILURE && !sum.IsSolutionUsable(), ceres::TerminationTypeToString(sum.termination_type), " ", sum.message);
  REQUIRE("no_message", !sum.message.empty() && sum.message != "ceres::Solve was not called.", sum.message);
  REQUIRE("moved", SameBits(before, in.Values()), "");
  c.label(empty ? "empty interval" : "infeasible constant");
  c.nontrivial(true);
}

PBT_MAIN("C04", "a bounded free block took part in at least one iteration (feasible), a bound was active at the optimum (kkt)")
