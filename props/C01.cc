// C01: a solve never returns a worse point, and tells the truth about it.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;

static void CheckFixedParts(pbt::Case& c, const Instance& in, const std::vector<Vec>& before) {
  for (size_t b = 0; b < in.spec.blocks.size(); ++b) {
    const BlockSpec& s = in.spec.blocks[b];
    if (s.constant)
      REQUIRE("constant_block_changed", !std::memcmp(before[b].data(), in.x[b].get(), s.size * sizeof(double)), "block ", b);
    if (s.mani.kind == kSubset)
      for (int k : s.mani.fixed)
        // (a fixed coordinate that starts outside its bounds is projected)
        if (!s.has_bounds() || (before[b][k] >= s.lo[k] && before[b][k] <= s.up[k]))
          REQUIRE("fixed_coordinate_changed", !std::memcmp(&before[b][k], in.x[b].get() + k, sizeof(double)), "block ", b, " coordinate ", k);
  }
}

// Everything C01 promises about one call to Solve.
static void CheckSolve(pbt::Case& c, Instance& in, const ceres::Solver::Options& o, ceres::Solver::Summary* s) {
  const std::vector<Vec> before = in.Values();
  ceres::Solve(o, in.problem.get(), s);
  const std::vector<Vec> after = in.Values();
  if (getenv("PG_TRACE"))
    for (auto& i : s->iterations)
      fprintf(stderr, "it %d cost %.17g change %g ok %d valid %d reldec %g radius %g step %g g %g\n", i.iteration, i.cost, i.cost_change, i.step_is_successful,
              i.step_is_valid, i.relative_decrease, i.trust_region_radius, i.step_norm, i.gradient_max_norm);
  c.label(pbt::Str("termination ", ceres::TerminationTypeToString(s->termination_type)));
  CheckFixedParts(c, in, before);
  if (!s->IsSolutionUsable()) {
    REQUIRE("unusable_but_moved", SameBits(before, after), s->message, " before ", StrX(before), " after ", StrX(after));
    return;
  }
  for (auto& v : after) for (double t : v) REQUIRE("non_finite_solution", std::isfinite(t), s->message);
  std::vector<Vec> start = before;  // documented: a start outside the bounds is projected onto them
  bool projected = false;
  for (size_t b = 0; b < start.size(); ++b)
    if (in.spec.blocks[b].has_bounds() && !in.spec.blocks[b].constant)
      for (size_t k = 0; k < start[b].size(); ++k) {
        const double t = std::min(std::max(start[b][k], in.spec.blocks[b].lo[k]), in.spec.blocks[b].up[k]);
        projected |= t != start[b][k];
        start[b][k] = t;
      }
  const LD c0 = in.spec.Cost(start), c1 = in.spec.Cost(after);
  const double tol0 = 1e-10 * (double)in.spec.CostScale(start) + 1e-14, tol1 = 1e-10 * (double)in.spec.CostScale(after) + 1e-14;
  REQUIRE("initial_cost", std::fabs((double)(s->initial_cost - c0)) <= tol0, s->initial_cost, " recomputed ", (double)c0, " ", s->message);
  REQUIRE("final_cost", std::fabs((double)(s->final_cost - c1)) <= tol1, "reported ", s->final_cost, " recomputed at the returned point ", (double)c1,
          " initial ", s->initial_cost, " iterations ", s->iterations.size(), " ", s->message);
  REQUIRE("cost_increased", s->final_cost <= s->initial_cost, s->initial_cost, " -> ", s->final_cost);
  REQUIRE("point_got_worse", (double)c1 <= (double)c0 + tol0 + tol1, (double)c0, " -> ", (double)c1, " ", s->message);
  // The cost the summary attributes to removed blocks is the cost of residuals that depend on constant blocks only.
  LD fixed = 0;
  bool any_free = false;
  for (auto& r : in.spec.res) {
    bool all_const = true;
    for (int b : r.blocks) all_const = all_const && (in.spec.blocks[b].constant || in.spec.blocks[b].tangent() == 0);
    if (all_const) fixed += in.spec.ResCost(r, before);
    any_free |= !all_const;
  }
  REQUIRE("fixed_cost", std::fabs((double)(s->fixed_cost - fixed)) <= tol0, s->fixed_cost, " recomputed ", (double)fixed);
  if (!any_free) REQUIRE("nothing_free", s->termination_type == ceres::CONVERGENCE, s->message);
  if (projected) c.label("projected start");
  c.nontrivial(s->num_successful_steps > 1 || (!s->iterations.empty() && s->iterations.back().iteration > 0 && c1 < c0));
}

static void Describe(pbt::Case& c, const Spec& s, const Config& cfg) { c.note() << s.Str() << " | " << cfg.str; }

PBT_PROP(truthful_solve, 120000, 3000000) {
  GenOptions g;
  Spec s = Gen(c, g);
  Config cfg = GenConfig(c, s);
  Describe(c, s, cfg);
  Instance in(s);
  ceres::Solver::Summary sum;
  CheckSolve(c, in, cfg.Make(in), &sum);
}

PBT_PROP(bounded_solve, 60000, 1500000) {
  GenOptions g;
  g.bounds = true;
  Spec s = Gen(c, g);
  if (c.chance(1, 3))  // start outside the box
    for (auto& b : s.blocks) if (b.has_bounds() && !b.constant) for (double& x : b.x0) if (c.coin()) x += c.pick({-4.0, 4.0});
  ConfigOptions co;
  co.line_search = false;
  Config cfg = GenConfig(c, s, co);
  Describe(c, s, cfg);
  Instance in(s);
  ceres::Solver::Summary sum;
  CheckSolve(c, in, cfg.Make(in), &sum);
}

// Harder landscapes: far starts, strong nonlinearity, few iterations.
PBT_PROP(rough_solve, 80000, 2000000) {
  GenOptions g;
  g.max_blocks = 3;
  g.max_res = 4;
  g.scale = 8.0;
  g.priors = false;
  Spec s = Gen(c, g);
  ConfigOptions co;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = c.range(1, 12);
  if (c.coin()) cfg.o.min_relative_decrease = c.pick({0.5, 0.9, 0.1});
  if (c.chance(1, 4)) cfg.o.max_num_consecutive_invalid_steps = c.range(0, 2);
  cfg.o.initial_trust_region_radius = std::min(cfg.o.max_trust_region_radius, c.pick({1e4, 1e12, 1.0}));
  Describe(c, s, cfg);
  Instance in(s);
  ceres::Solver::Summary sum;
  CheckSolve(c, in, cfg.Make(in), &sum);
}

// A second solve from where the first ended still keeps every promise.
PBT_PROP(chained_solves, 20000, 500000) {
  Spec s = Gen(c);
  Instance in(s);
  for (int k = 0; k < 3; ++k) {
    ConfigOptions co;
    Config cfg = GenConfig(c, s, co);
    cfg.o.max_num_iterations = c.range(0, 6);
    Describe(c, s, cfg);
    ceres::Solver::Summary sum;
    CheckSolve(c, in, cfg.Make(in), &sum);
  }
}

PBT_MAIN("C01", "the solve took at least one accepted step")
