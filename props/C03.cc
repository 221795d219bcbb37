// C03: equivalent formulations of a problem follow the same iterates.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;

struct Run {
  std::vector<ceres::IterationSummary> it;
  std::vector<Vec> x;
  ceres::Solver::Summary sum;
};

static Run Go(Instance& in, const Config& cfg) {
  Run r;
  ceres::Solve(cfg.Make(in), in.problem.get(), &r.sum);
  r.it = r.sum.iterations;
  r.x = in.Values();
  return r;
}

static void CompareLogs(pbt::Case& c, const Run& a, const Run& b, double scale, const char* what) {
  const size_t n = std::min<size_t>({4, a.it.size(), b.it.size()});
  REQUIRE("usable", a.sum.IsSolutionUsable() == b.sum.IsSolutionUsable(), what, ": ", a.sum.message, " vs ", b.sum.message);
  REQUIRE("initial_cost", pbt::Close(a.sum.initial_cost, b.sum.initial_cost, 1e-12, scale), what, ": ", a.sum.initial_cost, " vs ", b.sum.initial_cost);
  for (size_t i = 0; i < n; ++i) {
    // Borderline step decisions and stalled steps may legitimately differ.
    if (std::fabs(a.it[i].cost_change) < 1e-7 * scale && i > 0) return;
    const double rd = a.it[i].relative_decrease;
    REQUIRE("cost", pbt::Close(a.it[i].cost, b.it[i].cost, 1e-6, 1e-2 * scale), what, ": iteration ", i, " cost ", a.it[i].cost, " vs ", b.it[i].cost);
    if (std::fabs(rd - 1e-3) < 1e-6) return;
    REQUIRE("decision", a.it[i].step_is_successful == b.it[i].step_is_successful, what, ": iteration ", i);
    REQUIRE("gradient", pbt::Close(a.it[i].gradient_max_norm, b.it[i].gradient_max_norm, 1e-5, std::sqrt(scale)), what, ": iteration ", i, " gradient ",
            a.it[i].gradient_max_norm, " vs ", b.it[i].gradient_max_norm);
    REQUIRE("step_norm", pbt::Close(a.it[i].step_norm, b.it[i].step_norm, 1e-5, 1.0), what, ": iteration ", i, " step ", a.it[i].step_norm, " vs ",
            b.it[i].step_norm);
    REQUIRE("radius", pbt::Close(a.it[i].trust_region_radius, b.it[i].trust_region_radius, 1e-4, 0), what, ": iteration ", i, " radius ",
            a.it[i].trust_region_radius, " vs ", b.it[i].trust_region_radius);
  }
}

static GenOptions Opts() {
  GenOptions g;
  g.full_rank = true;  // keeps the linear systems well conditioned
  g.max_blocks = 6;
  g.max_res = 9;
  return g;
}

static Config BaseConfig(pbt::Case& c, const Spec& s) {
  ConfigOptions co;
  co.line_search = false;
  co.exact_only = true;
  co.inner = false;
  co.nonmonotonic = false;
  co.threads = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = 4;
  cfg.o.min_relative_decrease = 1e-3;
  cfg.o.dogleg_type = ceres::TRADITIONAL_DOGLEG;
  cfg.o.function_tolerance = cfg.o.gradient_tolerance = cfg.o.parameter_tolerance = 0;
  return cfg;
}

PBT_PROP(formulations, 180000, 5000000) {
  Spec s = Gen(c, Opts());
  Config cfg = BaseConfig(c, s);
  Instance a(s);
  const double scale = std::max(1e-3, (double)s.CostScale(s.Start()));
  std::string what;
  Spec s2 = s;
  Config cfg2 = cfg;
  BuildOptions bo;
  bool nothing = true;
  if (c.coin()) { bo.block_order = c.permutation(s.blocks.size()); what += " block order"; nothing = false; }
  if (c.coin()) { bo.res_order = c.permutation(s.res.size()); what += " residual order"; nothing = false; }
  if (c.chance(1, 4) && bo.block_order.empty()) {
    bool all_used = true;
    for (size_t b = 0; b < s.blocks.size(); ++b) { bool u = false; for (auto& r : s.res) for (int k : r.blocks) u |= k == (int)b; all_used &= u; }
    if (all_used) { bo.implicit_blocks = true; what += " implicit blocks"; nothing = false; }
  }
  if (c.chance(1, 3)) {
    ConfigOptions co;
    co.exact_only = true;
    Config t = cfg;
    t.group.clear(); t.str.clear(); t.o.dynamic_sparsity = false;
    GenLinearSolver(c, s, co, &t);
    cfg2 = t;
    what += " linear solver" + t.str;
    nothing = false;
  }
  if (c.chance(1, 3)) { cfg2.o.num_threads = c.range(2, 4); what += " threads"; nothing = false; }
  if (c.chance(1, 3)) {  // split residual blocks row by row (only without a loss)
    std::vector<ResSpec> out;
    for (auto& r : s2.res) {
      if (r.rows > 1 && (r.loss.kind == kNoLoss || r.loss.kind == kTrivial) && c.chance(1, 2)) {
        for (int i = 0; i < r.rows; ++i) {
          ResSpec q = r;
          q.rows = 1;
          if (q.a.size()) q.a = Mat(r.a.row(i));
          q.target = {r.target[i]};
          if (q.use_expr) q.prog.outputs = {r.prog.outputs[i]};
          out.push_back(q);
        }
        nothing = false;
      } else out.push_back(r);
    }
    s2.res = out;
    bo.res_order.clear();
    what += " split";
  }
  if (nothing) { bo.fast_removal = true; what = " fast removal"; }
  c.note() << s.Str() << " | " << cfg.str << " |" << what;
  Instance b(s2, bo);
  if (c.chance(1, 4) && s2.res.size() == b.ids.size()) {  // remove and re-add some residual blocks and blocks
    for (size_t i = 0; i < b.ids.size(); ++i)
      if (c.chance(1, 3)) { b.problem->RemoveResidualBlock(b.ids[i]); b.AddRes(i); }
    if (c.coin()) {
      const int k = c.range(0, (int)s.blocks.size() - 1);
      std::vector<int> again;
      for (size_t i = 0; i < s2.res.size(); ++i) for (int q : s2.res[i].blocks) if (q == k) again.push_back(i);
      b.problem->RemoveParameterBlock(b.x[k].get());
      b.AddBlock(k);
      b.Configure(k);
      for (int i : again) b.AddRes(i);
    }
    what += " re-added";
  }
  Run ra = Go(a, cfg), rb = Go(b, cfg2);
  CompareLogs(c, ra, rb, scale, what.c_str());
  c.nontrivial(ra.it.size() > 2);
}

// One thread, same data: bit for bit.
PBT_PROP(deterministic, 60000, 1500000) {
  GenOptions g;
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.threads = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = c.range(1, 10);
  c.note() << s.Str() << " | " << cfg.str;
  Instance a(s);
  Run r1 = Go(a, cfg);
  a.Set(s.Start());
  Run r2 = Go(a, cfg);
  REQUIRE("log_length", r1.it.size() == r2.it.size(), r1.it.size(), " vs ", r2.it.size());
  REQUIRE("message", r1.sum.message == r2.sum.message || r1.sum.termination_type == r2.sum.termination_type, r1.sum.message, " vs ", r2.sum.message);
  for (size_t i = 0; i < r1.it.size(); ++i)
    REQUIRE("not_reproducible", !std::memcmp(&r1.it[i].cost, &r2.it[i].cost, 8) && !std::memcmp(&r1.it[i].gradient_norm, &r2.it[i].gradient_norm, 8) &&
                                    !std::memcmp(&r1.it[i].trust_region_radius, &r2.it[i].trust_region_radius, 8),
            "iteration ", i, " cost ", r1.it[i].cost, " vs ", r2.it[i].cost);
  REQUIRE("result_not_reproducible", SameBits(r1.x, r2.x), StrX(r1.x), " vs ", StrX(r2.x));
  c.nontrivial(r1.it.size() > 2);
}

PBT_MAIN("C03", "the solve ran at least two iterations")
