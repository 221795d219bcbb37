// C38: inner iterations only ever help.
// pbt-build: flavor=rel
#include <algorithm>

#include "ceres/context_impl.h"
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/minimizer.h"
#include "ceres/parameter_block.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/residual_block.h"
#include "problem_gen.h"

using namespace pg;
namespace ci = ceres::internal;

static bool Conflict(const Spec& s, int a, int b) {
  for (auto& r : s.res) {
    bool ha = false, hb = false;
    for (int k : r.blocks) { ha |= k == a; hb |= k == b; }
    if (ha && hb) return true;
  }
  return false;
}
static bool Active(const Spec& s, int b) {
  if (s.blocks[b].constant || s.blocks[b].tangent() == 0) return false;
  for (auto& r : s.res) for (int k : r.blocks) if (k == b) return true;
  return false;
}
static bool Feasible(const Spec& s, const std::vector<Vec>& x) {
  for (size_t b = 0; b < x.size(); ++b)
    if (s.blocks[b].has_bounds())
      for (size_t k = 0; k < x[b].size(); ++k) if (x[b][k] < s.blocks[b].lo[k] || x[b][k] > s.blocks[b].up[k]) return false;
  return true;
}
// Each block in one group or (when partial) possibly none.
static std::vector<int> InnerGroups(pbt::Case& c, const Spec& s, bool partial) {
  std::vector<int> g = GenIndependentGroups(c, s, true);
  if (partial) for (int& k : g) if (c.chance(1, 3)) k = -1;
  const int stretch = c.pick({1, 3});  // group numbers need not be contiguous
  for (int& k : g) if (k >= 0) k = k * stretch + 2 * (stretch - 1);
  return g;
}

// The coordinate descent sweep on its own.
PBT_PROP(sweep, 60000, 600000) {
  GenOptions g;
  const bool linear = c.chance(1, 3);
  if (linear) {
    g.nonlinear = g.losses = g.curved = false;
    g.full_rank = true;
  } else {
    g.bounds = c.chance(1, 4);
  }
  const Spec s = Gen(c, g);
  const int nb = s.blocks.size();
  std::vector<std::unique_ptr<double[]>> x;
  Recorder rec;
  ci::ProblemImpl problem;
  for (auto& b : s.blocks) {
    x.emplace_back(new double[b.size]);
    std::copy(b.x0.begin(), b.x0.end(), x.back().get());
    problem.AddParameterBlock(x.back().get(), b.size);
  }
  for (size_t i = 0; i < s.res.size(); ++i) {
    std::vector<int> sizes;
    std::vector<double*> ptrs;
    for (int b : s.res[i].blocks) { sizes.push_back(s.blocks[b].size); ptrs.push_back(x[b].get()); }
    problem.AddResidualBlock(new CeresCost(&s.res[i], sizes, i, &rec), s.res[i].loss.Make(), ptrs.data(), ptrs.size());
  }
  for (int i = 0; i < nb; ++i) {
    const BlockSpec& b = s.blocks[i];
    if (b.mani.kind != kNone) problem.SetManifold(x[i].get(), b.mani.Make());
    if (b.constant) problem.SetParameterBlockConstant(x[i].get());
    if (b.has_bounds())
      for (int k = 0; k < b.size; ++k) {
        if (std::isfinite(b.lo[k])) problem.SetParameterLowerBound(x[i].get(), k, b.lo[k]);
        if (std::isfinite(b.up[k])) problem.SetParameterUpperBound(x[i].get(), k, b.up[k]);
      }
  }
  std::vector<double*> removed;
  double fixed = 0;
  std::string error;
  std::unique_ptr<ci::Program> program = problem.mutable_program()->CreateReducedProgram(&removed, &fixed, &error);
  REQUIRE("reduced", program != nullptr, error);
  if (program->NumParameterBlocks() == 0) c.discard();
  const std::vector<ci::ParameterBlock*> blocks = program->parameter_blocks();
  const bool automatic = c.chance(1, 3);
  std::vector<int> group(nb, -1);
  std::shared_ptr<ceres::ParameterBlockOrdering> ordering;
  auto index_of = [&](const double* p) { for (int b = 0; b < nb; ++b) if (x[b].get() == p) return b; return -1; };
  if (automatic) {
    ordering = ci::CoordinateDescentMinimizer::CreateOrdering(*program);
    REQUIRE("automatic-complete", ordering->NumElements() == (int)blocks.size(), ordering->NumElements(), " of ", blocks.size());
  } else {
    ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    const std::vector<int> gr = InnerGroups(c, s, true);
    for (int b = 0; b < nb; ++b) if (gr[b] >= 0 && Active(s, b)) ordering->AddElementToGroup(x[b].get(), gr[b]);
    if (ordering->NumElements() == 0) c.discard();
  }
  for (auto& e : ordering->element_to_group()) {
    const int b = index_of(e.first);
    REQUIRE("automatic-member", b >= 0 && Active(s, b), "");
    group[b] = e.second;
  }
  for (int a = 0; a < nb; ++a)
    for (int b = 0; b < a; ++b)
      REQUIRE("automatic-independent", group[a] < 0 || group[a] != group[b] || !Conflict(s, a, b), "blocks ", a, " and ", b, " share group ", group[a]);
  std::string msg;
  REQUIRE("valid", ci::CoordinateDescentMinimizer::IsOrderingValid(*program, *ordering, &msg), msg);
  const int threads = c.pick({1, 1, 4, 3});
  problem.context()->EnsureMinimumThreads(threads);
  c.note() << s.Str() << (automatic ? " automatic" : " given") << " groups";
  for (int b = 0; b < nb; ++b) c.note() << " " << group[b];
  c.note() << " threads " << threads;

  ci::CoordinateDescentMinimizer minimizer(problem.context());
  REQUIRE("init", minimizer.Init(*program, problem.parameter_map(), *ordering, &error), error);
  Vec state(program->NumParameters() + 1, 77.0);
  program->ParameterBlocksToStateVector(state.data());
  struct Book { int index, state, delta; bool constant, fixed; const double* st; };
  std::vector<Book> book;
  for (auto* p : blocks) book.push_back({p->index(), p->state_offset(), p->delta_offset(), p->IsConstant(), false, p->state()});
  std::vector<Vec> cur = s.Start();
  ci::Minimizer::Options mo;
  mo.num_threads = threads;
  const int sweeps = c.range(1, 2);
  for (int w = 0; w < sweeps; ++w) {
    const Vec before = state;
    const std::vector<Vec> from = cur;
    ceres::Solver::Summary sum;
    minimizer.Minimize(mo, state.data(), &sum);
    REQUIRE("overrun", state.back() == 77.0, "wrote past the parameters");
    for (size_t i = 0; i < blocks.size(); ++i) {
      auto* p = blocks[i];
      REQUIRE("bookkeeping", p->index() == book[i].index && p->state_offset() == book[i].state && p->delta_offset() == book[i].delta &&
                                 p->IsConstant() == book[i].constant,
              "block ", i, ": index ", p->index(), " offsets ", p->state_offset(), " ", p->delta_offset(), " constant ", p->IsConstant());
      const int b = index_of(p->user_state());
      cur[b].assign(state.begin() + book[i].state, state.begin() + book[i].state + p->Size());
      if (group[b] < 0) REQUIRE("outside-ordering", SameBits({cur[b]}, {from[b]}), "block ", b, " is not in the ordering but moved");
    }
    for (int b = 0; b < nb; ++b) REQUIRE("user-arrays", std::equal(s.blocks[b].x0.begin(), s.blocks[b].x0.end(), x[b].get()), "block ", b);
    const double c0 = (double)s.Cost(from), c1 = (double)s.Cost(cur), cs = (double)std::max(s.CostScale(from), s.CostScale(cur));
    REQUIRE("monotone", c1 <= c0 + 1e-12 * cs + 1e-14, "cost ", c0, " -> ", c1);
    REQUIRE("bounds", Feasible(s, cur), StrX(cur));
    if (c1 < c0 * (1 - 1e-9)) c.nontrivial();
    if (linear) {
      // Reference: exact block minimisation, group after group.  A block solve
      // may stop when its relative progress is below 1e-6, that is, at a distance
      // of about 1e-3 of its minimiser.
      std::vector<Vec> ref = from;
      for (auto& gr : ordering->group_to_elements())
        for (double* p : gr.second) {
          const int b = index_of(p);
          const int n = s.blocks[b].tangent();
          Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
          VecX gt = VecX::Zero(n);
          Mat P = Mat::Identity(s.blocks[b].size, s.blocks[b].size);
          if (s.blocks[b].mani.kind != kNone) {
            std::unique_ptr<ceres::Manifold> m(s.blocks[b].mani.Make());
            P.resize(s.blocks[b].size, n);
            m->PlusJacobian(ref[b].data(), P.data());
          }
          for (auto& r : s.res) {
            int col = 0;
            for (int k : r.blocks) {
              if (k == b) {
                const Vec in = s.Gather(r, ref);
                Vec out(r.rows);
                r.Value(in.data(), out.data());
                const Eigen::MatrixXd J = r.a.block(0, col, r.rows, s.blocks[b].size) * P;
                H += J.transpose() * J;
                gt += J.transpose() * Eigen::Map<VecX>(out.data(), r.rows);
              }
              col += s.blocks[k].size;
            }
          }
          const VecX step = P * -H.ldlt().solve(gt);
          for (int k = 0; k < s.blocks[b].size; ++k) ref[b][k] += step[k];
        }
      const double cr = (double)s.Cost(ref);
      REQUIRE("sweep-value", std::fabs(cr - c1) <= 1e-2 * c0 + 1e-9, "cost ", c0, " -> ", c1, ", exact sweep: ", cr);
      c.label("compared with the exact sweep");
    }
  }
  c.label(pbt::Str(automatic ? "automatic" : "given", threads > 1 ? ",threads" : ""));
}

// The first outer iteration with and without inner iterations.
PBT_PROP(dominates, 60000, 900000) {
  GenOptions g;
  g.bounds = c.chance(1, 3);
  const Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = false;
  co.inner = co.nonmonotonic = co.mixed = false;
  co.exact_only = true;
  co.threads = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.function_tolerance = cfg.o.parameter_tolerance = cfg.o.gradient_tolerance = 0;
  cfg.o.max_num_iterations = 1;
  cfg.o.min_trust_region_radius = 1e-32;
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  ceres::Solver::Summary s0, s1;
  ceres::Solver::Options o = cfg.Make(in);
  ceres::Solve(o, in.problem.get(), &s0);
  const std::vector<Vec> x0 = in.Values();
  in.Set(s.Start());
  const bool given = c.coin();
  std::vector<int> gr;
  if (given) {
    gr = InnerGroups(c, s, true);
    o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t b = 0; b < gr.size(); ++b) if (gr[b] >= 0) o.inner_iteration_ordering->AddElementToGroup(in.x[b].get(), gr[b]);
  }
  o.use_inner_iterations = true;
  o.inner_iteration_tolerance = c.pick({1e-3, 0.0});
  ceres::Solve(o, in.problem.get(), &s1);
  if (s0.termination_type == ceres::FAILURE || s1.termination_type == ceres::FAILURE) {
    // Only because of numerical trouble common to both.
    REQUIRE("same-failure", s0.termination_type == s1.termination_type || s0.message.find("umerical") != std::string::npos || s0.iterations.size() > 1 || s1.iterations.size() > 1,
            s0.message, " | with inner iterations: ", s1.message);
    c.label("failure");
    return;
  }
  const double scale = (double)s.CostScale(s.Start()) + 1e-3;
  REQUIRE("initial", std::fabs(s0.initial_cost - s1.initial_cost) <= 1e-13 * scale, "");
  REQUIRE("dominates", s1.final_cost <= s0.final_cost + 1e-9 * scale, "trust region step alone ", s0.final_cost, " with inner iterations ", s1.final_cost,
          " from ", s0.initial_cost);
  REQUIRE("bounds", Feasible(s, in.Values()), "");
  for (size_t b = 0; b < s.blocks.size(); ++b)
    if (!Active(s, b)) REQUIRE("constant", SameBits({in.Values()[b]}, {s.blocks[b].x0}), "block ", b);
  int active = 0;
  for (size_t b = 0; b < s.blocks.size(); ++b) active += Active(s, b);
  bool any_in = !given;
  for (size_t b = 0; b < gr.size(); ++b) any_in |= gr[b] >= 0 && Active(s, b);
  REQUIRE("used", s1.inner_iterations_given && s1.inner_iterations_used == (active > 1 && any_in) || s1.iterations.empty(),
          "inner_iterations_used ", s1.inner_iterations_used, " with ", active, " active blocks");
  const bool helped = s1.final_cost < s0.final_cost - 1e-9 * scale;
  c.label(helped ? "lower cost than the step alone" : "no further decrease");
  c.nontrivial(s1.num_inner_iteration_steps > 0 && s1.final_cost < s1.initial_cost);
}

// Full solves with inner iterations stay monotone, feasible and truthful.
PBT_PROP(solves, 40000, 600000) {
  GenOptions g;
  g.bounds = c.chance(1, 3);
  const Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = false;
  co.inner = false;
  Config cfg = GenConfig(c, s, co);
  cfg.o.use_inner_iterations = true;
  cfg.o.inner_iteration_tolerance = c.pick({1e-3, 0.0, 0.5});
  if (c.coin()) cfg.inner_group = InnerGroups(c, s, true);
  cfg.o.max_num_iterations = std::min(cfg.o.max_num_iterations, 12);
  c.note() << s.Str() << " | " << cfg.str;
  Instance in(s);
  ceres::Solver::Summary sum;
  ceres::Solve(cfg.Make(in), in.problem.get(), &sum);
  REQUIRE("bounds", Feasible(s, in.Values()), "");
  for (size_t b = 0; b < s.blocks.size(); ++b)
    if (!Active(s, b)) REQUIRE("constant", SameBits({in.Values()[b]}, {s.blocks[b].x0}), "block ", b);
  const double a = (double)s.Cost(s.Start()), e = (double)s.Cost(in.Values());
  const double cs = (double)std::max(s.CostScale(s.Start()), s.CostScale(in.Values())) + 1e-3;
  REQUIRE("never-worse", e <= a + 1e-10 * cs, a, " -> ", e);
  if (sum.termination_type != ceres::FAILURE) REQUIRE("final-cost", std::fabs(sum.final_cost - e) <= 1e-9 * cs, sum.final_cost, " at the values: ", e);
  if (!cfg.o.use_nonmonotonic_steps) {
    double last = std::numeric_limits<double>::infinity();
    for (auto& it : sum.iterations) {
      if (!it.step_is_successful) continue;
      REQUIRE("iteration-monotone", it.cost <= last + 1e-10 * cs, "iteration ", it.iteration, " cost ", last, " -> ", it.cost);
      last = it.cost;
    }
  }
  c.nontrivial(sum.num_inner_iteration_steps > 0);
  c.label(pbt::Str("inner steps ", std::min(sum.num_inner_iteration_steps, 4)));
}

// Orderings that cannot be used are refused with an explanation.
PBT_PROP(invalid, 20000, 200000) {
  GenOptions g;
  const Spec s = Gen(c, g);
  const int nb = s.blocks.size();
  std::vector<int> active;
  for (int b = 0; b < nb; ++b) if (Active(s, b)) active.push_back(b);
  if (active.size() < 2) c.discard();
  ConfigOptions co;
  co.line_search = co.inner = false;
  Config cfg = GenConfig(c, s, co);
  struct Nothing : ceres::EvaluationCallback { void PrepareForEvaluation(bool, bool) override {} } cb;
  const int kind = c.range(0, 2);
  BuildOptions bo;
  if (kind == 2) bo.evaluation_callback = &cb;
  Instance in(s, bo);
  cfg.o.use_inner_iterations = true;
  ceres::Solver::Options o = cfg.Make(in);
  double stray[4] = {1, 2, 3, 4};
  std::vector<int> gr = GenIndependentGroups(c, s, true);
  c.note() << s.Str() << " | " << cfg.str << " kind " << kind;
  if (kind == 0) {
    // two dependent blocks in one group
    int a = -1, b = -1;
    for (int i : active) for (int j : active) if (i < j && Conflict(s, i, j) && a < 0) { a = i; b = j; }
    if (a < 0) c.discard();
    gr[a] = gr[b] = c.range(0, 3);
    c.note() << " blocks " << a << " and " << b << " in group " << gr[a];
  }
  if (kind != 2 || c.coin()) {
    o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (int b = 0; b < nb; ++b) if (gr[b] >= 0) o.inner_iteration_ordering->AddElementToGroup(in.x[b].get(), gr[b]);
    if (kind == 1) o.inner_iteration_ordering->AddElementToGroup(stray, c.range(0, 3));
  }
  ceres::Solver::Summary sum;
  ceres::Solve(o, in.problem.get(), &sum);
  REQUIRE("rejected", sum.termination_type == ceres::FAILURE, "accepted: ", sum.message);
  REQUIRE("explained", sum.message.find(kind == 0 ? "independent" : kind == 1 ? "not associated" : "EvaluationCallback") != std::string::npos ||
                           sum.message.find("ndependent set") != std::string::npos,
          sum.message);
  REQUIRE("untouched", SameBits(in.Values(), s.Start()), "");
  REQUIRE("stray-untouched", stray[0] == 1 && stray[3] == 4, "");
  c.label(pbt::Str("kind ", kind));
  c.nontrivial();
}

PBT_MAIN("C38", "inner iterations ran and the cost decreased (sweep, first iteration), at least one inner step (solves), an invalid ordering was presented (invalid)")
