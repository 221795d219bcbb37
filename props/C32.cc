// C32: solver options are validated, and valid options always work.
// pbt-build: flavor=rel
#include "problem_gen.h"

using namespace pg;
using namespace ceres;

static const double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();

// Changes one option, to a value that may or may not be acceptable.
static std::string Mutate(pbt::Case& c, Solver::Options* o) {
  auto d = [&](const char* n, double* v, std::initializer_list<double> vals) { *v = c.pick(vals); return pbt::Str(n, "=", *v); };
  auto i = [&](const char* n, int* v, std::initializer_list<int> vals) { *v = c.pick(vals); return pbt::Str(n, "=", *v); };
  switch (c.range(0, 52)) {
    case 0: return i("max_num_iterations", &o->max_num_iterations, {0, 1, 7, -1, -100});
    case 1: return d("max_solver_time_in_seconds", &o->max_solver_time_in_seconds, {0, 1e9, kInf, 1e-9, -1e-9, -1, kNan});
    case 2: return d("function_tolerance", &o->function_tolerance, {0, 1e-300, 1, 1e300, kInf, -1e-300, -1, kNan, -kInf});
    case 3: return d("gradient_tolerance", &o->gradient_tolerance, {0, 1e-300, 1, 1e300, kInf, -1e-300, -1, kNan});
    case 4: return d("parameter_tolerance", &o->parameter_tolerance, {0, 1e-300, 1, 1e300, kInf, -1e-300, -1, kNan});
    case 5: return i("num_threads", &o->num_threads, {1, 3, 7, 0, -1});
    case 6: o->check_gradients = c.coin(); return pbt::Str("check_gradients=", o->check_gradients);
    case 7: return d("gradient_check_relative_precision", &o->gradient_check_relative_precision, {1e-8, 1, 0, -1, kNan, kInf});
    case 8: return d("gradient_check_numeric_derivative_relative_step_size", &o->gradient_check_numeric_derivative_relative_step_size, {1e-6, 1e-3, 0, -1e-6, kNan});
    case 9: return d("initial_trust_region_radius", &o->initial_trust_region_radius, {1e4, 1e-3, 1e16, 1e17, 1e-32, 1e-33, 0, -1, kNan, kInf});
    case 10: return d("min_trust_region_radius", &o->min_trust_region_radius, {1e-32, 1, 1e4, 1e5, 0, -1, kNan, 1e-300});
    case 11: return d("max_trust_region_radius", &o->max_trust_region_radius, {1e16, 1e4, 1, 1e-33, 1e300, kInf, 0, -1, kNan});
    case 12: return d("min_relative_decrease", &o->min_relative_decrease, {1e-3, 0, 0.9, 10, kInf, -1e-9, kNan});
    case 13: return d("min_lm_diagonal", &o->min_lm_diagonal, {1e-6, 0, 1, 1e32, 1e33, -1e-9, kNan});
    case 14: return d("max_lm_diagonal", &o->max_lm_diagonal, {1e32, 1, 1e-6, 1e-7, 0, kInf, -1, kNan});
    case 15: return i("max_num_consecutive_invalid_steps", &o->max_num_consecutive_invalid_steps, {5, 0, 1, -1});
    case 16: return d("eta", &o->eta, {0.1, 1, 100, 1e-300, 0, -0.1, kNan, kInf});
    case 17: return i("min_linear_solver_iterations", &o->min_linear_solver_iterations, {0, 1, 500, 501, -1});
    case 18: return i("max_linear_solver_iterations", &o->max_linear_solver_iterations, {500, 1, 0, -1});
    case 19: o->use_inner_iterations = c.coin(); return pbt::Str("inner=", o->use_inner_iterations);
    case 20: return d("inner_iteration_tolerance", &o->inner_iteration_tolerance, {1e-3, 0, 1, kInf, -1e-3, kNan});
    case 21: o->use_nonmonotonic_steps = c.coin(); return pbt::Str("nonmonotonic=", o->use_nonmonotonic_steps);
    case 22: return i("max_consecutive_nonmonotonic_steps", &o->max_consecutive_nonmonotonic_steps, {5, 1, 1000000, 0, -1});
    case 23: o->trust_region_strategy_type = c.pick({LEVENBERG_MARQUARDT, DOGLEG}); return pbt::Str("strategy=", TrustRegionStrategyTypeToString(o->trust_region_strategy_type));
    case 24: o->dogleg_type = c.pick({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG}); return pbt::Str("dogleg=", DoglegTypeToString(o->dogleg_type));
    case 25: case 26: case 27: case 28:
      o->linear_solver_type = c.pick({DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR});
      return pbt::Str("solver=", LinearSolverTypeToString(o->linear_solver_type));
    case 29: case 30: case 31:
      o->preconditioner_type = c.pick({JACOBI, IDENTITY, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL, SUBSET});
      return pbt::Str("preconditioner=", PreconditionerTypeToString(o->preconditioner_type));
    case 32: o->use_explicit_schur_complement = c.coin(); return pbt::Str("explicit=", o->use_explicit_schur_complement);
    case 33: o->use_spse_initialization = c.coin(); return pbt::Str("spse_init=", o->use_spse_initialization);
    case 34: return i("max_num_spse_iterations", &o->max_num_spse_iterations, {5, 1, 0, -1});
    case 35: return d("spse_tolerance", &o->spse_tolerance, {0.1, 0, 10, -0.1, kNan});
    case 36: o->use_mixed_precision_solves = c.coin(); return pbt::Str("mixed=", o->use_mixed_precision_solves);
    case 37: o->dynamic_sparsity = c.coin(); return pbt::Str("dynamic=", o->dynamic_sparsity);
    case 38: o->dense_linear_algebra_library_type = c.pick({EIGEN, LAPACK, CUDA}); return pbt::Str("dense=", DenseLinearAlgebraLibraryTypeToString(o->dense_linear_algebra_library_type));
    case 39:
      o->sparse_linear_algebra_library_type = c.pick({EIGEN_SPARSE, SUITE_SPARSE, ACCELERATE_SPARSE, CUDA_SPARSE, NO_SPARSE});
      return pbt::Str("sparse=", SparseLinearAlgebraLibraryTypeToString(o->sparse_linear_algebra_library_type));
    case 40: o->linear_solver_ordering_type = c.pick({AMD, NESDIS}); return pbt::Str("ordering=", LinearSolverOrderingTypeToString(o->linear_solver_ordering_type));
    case 41:
      // (TEXTFILE only without a directory, where it is refused.)
      o->trust_region_minimizer_iterations_to_dump = c.coin() ? std::vector<int>{0, 2} : std::vector<int>();
      o->trust_region_problem_dump_format_type = c.coin() ? TEXTFILE : CONSOLE;
      o->trust_region_problem_dump_directory = "";
      return pbt::Str("dump ", o->trust_region_minimizer_iterations_to_dump.size(), " ", DumpFormatTypeToString(o->trust_region_problem_dump_format_type));
    case 42: return i("max_lbfgs_rank", &o->max_lbfgs_rank, {20, 1, 0, -1});
    case 43: return d("min_line_search_step_size", &o->min_line_search_step_size, {1e-9, 1e-3, 1e3, 0, -1, kNan});
    case 44: return d("max_line_search_step_contraction", &o->max_line_search_step_contraction, {1e-3, 0.5, 0.6, 0.99, 1, 0, -1, kNan});
    case 45: return d("min_line_search_step_contraction", &o->min_line_search_step_contraction, {0.6, 1, 1e-3, 1.1, 0.5, 0, kNan});
    case 46: return i("max_num_line_search_step_size_iterations", &o->max_num_line_search_step_size_iterations, {20, 1, 0, -1});
    case 47: return d("line_search_sufficient_function_decrease", &o->line_search_sufficient_function_decrease, {1e-4, 0.5, 0.9, 1, 0, -1, kNan});
    case 48: return d("line_search_sufficient_curvature_decrease", &o->line_search_sufficient_curvature_decrease, {0.9, 0.1, 1e-4, 1, 0, kNan});
    case 49: return d("max_line_search_step_expansion", &o->max_line_search_step_expansion, {10, 1.001, 1, 0.5, 1e6, kNan});
    case 50: o->line_search_direction_type = c.pick({LBFGS, BFGS, STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT}); return pbt::Str("direction=", LineSearchDirectionTypeToString(o->line_search_direction_type));
    case 51: o->line_search_type = c.pick({WOLFE, ARMIJO}); return pbt::Str("search=", LineSearchTypeToString(o->line_search_type));
    default: o->minimizer_type = c.pick({TRUST_REGION, LINE_SEARCH}); return pbt::Str("minimizer=", MinimizerTypeToString(o->minimizer_type));
  }
}

static bool SparseCholeskyOk(const Solver::Options& o) {
  // The harness is built with EIGEN_SPARSE only, which has no nested dissection.
  return o.sparse_linear_algebra_library_type == EIGEN_SPARSE && o.linear_solver_ordering_type == AMD;
}

// The constraints stated in solver.h and the documentation.
static bool LinearSolverOk(const Solver::Options& o, bool subset) {
  switch (o.linear_solver_type) {
    case DENSE_NORMAL_CHOLESKY: return o.dense_linear_algebra_library_type == EIGEN;
    case DENSE_QR: return o.dense_linear_algebra_library_type == EIGEN && !o.use_mixed_precision_solves;
    case SPARSE_NORMAL_CHOLESKY: return SparseCholeskyOk(o);
    case DENSE_SCHUR: return o.dense_linear_algebra_library_type == EIGEN && !o.dynamic_sparsity;
    case SPARSE_SCHUR: return SparseCholeskyOk(o) && !o.dynamic_sparsity;
    case ITERATIVE_SCHUR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves || o.preconditioner_type == SUBSET) return false;
      if (o.use_explicit_schur_complement && (o.preconditioner_type != SCHUR_JACOBI || o.use_spse_initialization)) return false;
      if ((o.use_spse_initialization || o.preconditioner_type == SCHUR_POWER_SERIES_EXPANSION) && !(o.max_num_spse_iterations >= 1 && o.spse_tolerance >= 0)) return false;
      if (o.preconditioner_type == CLUSTER_JACOBI || o.preconditioner_type == CLUSTER_TRIDIAGONAL) return SparseCholeskyOk(o);
      return true;
    case CGNR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves) return false;
      if (o.preconditioner_type != IDENTITY && o.preconditioner_type != JACOBI && o.preconditioner_type != SUBSET) return false;
      if (o.preconditioner_type == SUBSET) return SparseCholeskyOk(o) && subset;
      return o.sparse_linear_algebra_library_type != CUDA_SPARSE;
    default: return false;
  }
}
static bool LineSearchOk(const Solver::Options& o) {
  return o.max_lbfgs_rank > 0 && o.min_line_search_step_size > 0 && o.max_line_search_step_contraction > 0 && o.max_line_search_step_contraction < 1 &&
         o.max_line_search_step_contraction < o.min_line_search_step_contraction && o.min_line_search_step_contraction <= 1 &&
         o.max_num_line_search_step_size_iterations >= (o.minimizer_type == TRUST_REGION ? 0 : 1) && o.line_search_sufficient_function_decrease > 0 &&
         o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease && o.line_search_sufficient_curvature_decrease < 1 &&
         o.max_line_search_step_expansion > 1 &&
         !((o.line_search_direction_type == BFGS || o.line_search_direction_type == LBFGS) && o.line_search_type != WOLFE);
}
static bool Acceptable(const Solver::Options& o, bool subset) {
  if (!(o.max_num_iterations >= 0 && o.max_solver_time_in_seconds >= 0 && o.function_tolerance >= 0 && o.gradient_tolerance >= 0 && o.parameter_tolerance >= 0 && o.num_threads > 0)) return false;
  if (o.check_gradients && !(o.gradient_check_relative_precision > 0 && o.gradient_check_numeric_derivative_relative_step_size > 0)) return false;
  if (o.minimizer_type == TRUST_REGION) {
    if (!(o.min_trust_region_radius > 0 && o.min_trust_region_radius <= o.initial_trust_region_radius && o.initial_trust_region_radius <= o.max_trust_region_radius)) return false;
    if (!(o.min_relative_decrease >= 0 && o.min_lm_diagonal > 0 && o.min_lm_diagonal <= o.max_lm_diagonal && o.max_num_consecutive_invalid_steps >= 0 && o.eta > 0)) return false;
    if (!(o.min_linear_solver_iterations >= 0 && o.min_linear_solver_iterations <= o.max_linear_solver_iterations)) return false;
    if (o.use_inner_iterations && !(o.inner_iteration_tolerance >= 0)) return false;
    if (o.use_nonmonotonic_steps && !(o.max_consecutive_nonmonotonic_steps > 0)) return false;
    if (o.trust_region_strategy_type == DOGLEG && (o.linear_solver_type == CGNR || o.linear_solver_type == ITERATIVE_SCHUR)) return false;
    if (!LinearSolverOk(o, subset)) return false;
    if (!o.trust_region_minimizer_iterations_to_dump.empty() && o.trust_region_problem_dump_format_type != CONSOLE && o.trust_region_problem_dump_directory.empty()) return false;
  }
  return LineSearchOk(o);
}

// ---- validation -----------------------------------------------------------------
PBT_PROP(validation, 600000, 30000000) {
  Solver::Options o;
  o.linear_solver_type = c.pick({DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR});
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  if (c.chance(1, 4)) o.minimizer_type = LINE_SEARCH;
  bool subset = c.coin();
  if (subset) o.residual_blocks_for_subset_preconditioner.insert(reinterpret_cast<ResidualBlockId>(&o));
  const int n = c.range(0, 4);
  for (int k = 0; k < n; ++k) c.note() << Mutate(c, &o) << " ";
  const bool expect = Acceptable(o, subset);
  std::string error;
  const bool got = o.IsValid(&error);
  REQUIRE("verdict", got == expect, "IsValid says ", got, ": ", error);
  if (!got) REQUIRE("no_explanation", error.size() > 5, error);
  c.label(got ? "accepted" : "rejected");
  c.nontrivial(n > 0);
}

// ---- solves -----------------------------------------------------------------------
static std::vector<int> Groups(const std::shared_ptr<ParameterBlockOrdering>& o) {
  std::vector<int> r;
  if (o) for (auto& g : o->group_to_elements()) r.push_back(g.second.size());
  return r;
}

PBT_PROP(solve, 160000, 5000000) {
  GenOptions g;
  g.bounds = c.chance(1, 4);
  Spec s = Gen(c, g);
  ConfigOptions co;
  co.line_search = !g.bounds;
  Config cfg = GenConfig(c, s, co);
  cfg.o.max_num_iterations = std::min(cfg.o.max_num_iterations, 20);
  const int n = c.range(0, 3);
  std::string what;
  for (int k = 0; k < n; ++k) what += " " + Mutate(c, &cfg.o);
  if (cfg.o.trust_region_problem_dump_format_type == CONSOLE) cfg.o.trust_region_minimizer_iterations_to_dump.clear();  // (prints a lot)
  Instance in(s);
  Solver::Options o = cfg.Make(in);
  const bool subset = !o.residual_blocks_for_subset_preconditioner.empty();
  const bool ok = Acceptable(o, subset);
  c.note() << s.Str() << " | " << cfg.str << what;
  if (o.minimizer_type == LINE_SEARCH && g.bounds) c.discard();  // (refused by the preprocessor; see C04)
  const auto start = in.Values();
  const auto given = Groups(o.linear_solver_ordering);
  const auto inner_given = Groups(o.inner_iteration_ordering);
  std::string error;
  REQUIRE("verdict", o.IsValid(&error) == ok, error);
  Solver::Summary sum;
  sum.final_cost = 7;
  sum.iterations.resize(3);
  ceres::Solve(o, in.problem.get(), &sum);
  const auto end = in.Values();
  REQUIRE("report", sum.BriefReport().find(TerminationTypeToString(sum.termination_type)) != std::string::npos, sum.BriefReport());
  const std::string full = sum.FullReport();
  REQUIRE("full_report", full.find("Solver Summary") != std::string::npos && full.find(TerminationTypeToString(sum.termination_type)) != std::string::npos, full);
  if (!ok) {
    REQUIRE("invalid_not_failure", sum.termination_type == FAILURE && !sum.IsSolutionUsable(), sum.message);
    REQUIRE("message", sum.message == error && !error.empty(), sum.message, " vs ", error);
    REQUIRE("parameters_touched", SameBits(start, end), StrX(end));
    REQUIRE("evaluated", in.rec.evals == 0, in.rec.evals.load());
    REQUIRE("stale_summary", sum.iterations.empty(), sum.iterations.size());
    c.label("rejected");
    c.nontrivial();
    return;
  }
  c.label("accepted");
  c.nontrivial(n > 0);
  for (auto& v : end) for (double d : v) REQUIRE("nonfinite", std::isfinite(d), StrX(end));
  if (sum.termination_type == FAILURE && !o.check_gradients) {
    // Valid options never make the setup of a well-formed problem fail, except for
    // inner iterations over orderings, which are checked against the problem.
    REQUIRE("explained", !sum.message.empty(), "");
    bool dependent = false;  // (two blocks of one group in one residual)
    auto dep = [&](const std::vector<int>& g) {
      for (auto& r : s.res) for (int a : r.blocks) for (int b : r.blocks) if (a != b && g[a] >= 0 && g[a] == g[b]) dependent = true;
    };
    if (!cfg.group.empty()) dep(cfg.group);
    if (!cfg.inner_group.empty()) dep(cfg.inner_group);
    REQUIRE("never_started", !sum.iterations.empty() || dependent, sum.message);
  }
  if (sum.IsSolutionUsable()) REQUIRE("worse", sum.final_cost <= sum.initial_cost, sum.initial_cost, " ", sum.final_cost);
  // The summary reports the options given.
  const bool tr = o.minimizer_type == TRUST_REGION;
  REQUIRE("minimizer_type", sum.minimizer_type == o.minimizer_type, sum.minimizer_type);
  REQUIRE("linear_solver_given", sum.linear_solver_type_given == o.linear_solver_type, sum.linear_solver_type_given);
  REQUIRE("preconditioner_given", sum.preconditioner_type_given == o.preconditioner_type, sum.preconditioner_type_given);
  REQUIRE("threads_given", sum.num_threads_given == o.num_threads, sum.num_threads_given);
  REQUIRE("threads_used", sum.num_threads_used >= 1 && sum.num_threads_used <= o.num_threads, sum.num_threads_used);
  REQUIRE("strategy", sum.trust_region_strategy_type == o.trust_region_strategy_type && sum.dogleg_type == o.dogleg_type, "");
  REQUIRE("line_search_options", sum.line_search_type == o.line_search_type && sum.line_search_direction_type == o.line_search_direction_type &&
          sum.line_search_interpolation_type == o.line_search_interpolation_type && sum.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && sum.max_lbfgs_rank == o.max_lbfgs_rank, "");
  REQUIRE("libraries", sum.dense_linear_algebra_library_type == o.dense_linear_algebra_library_type && sum.sparse_linear_algebra_library_type == o.sparse_linear_algebra_library_type &&
          sum.linear_solver_ordering_type == o.linear_solver_ordering_type && sum.visibility_clustering_type == o.visibility_clustering_type, "");
  REQUIRE("inner_given", sum.inner_iterations_given == o.use_inner_iterations, "");
  REQUIRE("ordering_given", sum.linear_solver_ordering_given == given && sum.inner_iteration_ordering_given == inner_given, "");
  // Sizes, before and after the constant parts were removed.
  int blocks = 0, params = 0, eff = 0, rb = 0, rs = 0;
  std::vector<bool> used(s.blocks.size(), false);
  for (auto& r : s.res) {
    bool f = false;
    for (int b : r.blocks) f |= !s.blocks[b].constant && s.blocks[b].tangent() > 0;
    if (f) { ++rb; rs += r.rows; for (int b : r.blocks) used[b] = true; }
  }
  int all_eff = 0, all_rows = 0;
  for (auto& r : s.res) all_rows += r.rows;
  for (size_t b = 0; b < s.blocks.size(); ++b) {
    all_eff += s.blocks[b].tangent();
    if (used[b] && !s.blocks[b].constant && s.blocks[b].tangent() > 0) { ++blocks; params += s.blocks[b].size; eff += s.blocks[b].tangent(); }
  }
  REQUIRE("sizes", sum.num_parameter_blocks == (int)s.blocks.size() && sum.num_parameters == s.num_params() && sum.num_effective_parameters == all_eff &&
          sum.num_residual_blocks == (int)s.res.size() && sum.num_residuals == all_rows, sum.num_parameters, " ", sum.num_effective_parameters);
  REQUIRE("reduced_sizes", sum.num_parameter_blocks_reduced == blocks && sum.num_parameters_reduced == params && sum.num_effective_parameters_reduced == eff &&
          sum.num_residual_blocks_reduced == rb && sum.num_residuals_reduced == rs, sum.num_parameter_blocks_reduced, " ", sum.num_parameters_reduced, " ", sum.num_effective_parameters_reduced,
          " ", sum.num_residual_blocks_reduced, " ", sum.num_residuals_reduced, " expected ", blocks, " ", params, " ", eff, " ", rb, " ", rs);
  if (sum.iterations.empty() && sum.termination_type == FAILURE) return;
  if (tr && blocks > 0) {
    // What was used: the given solver, or its stand-in when nothing is left to eliminate.
    LinearSolverType alt = o.linear_solver_type == SPARSE_SCHUR ? SPARSE_NORMAL_CHOLESKY : o.linear_solver_type == DENSE_SCHUR ? DENSE_QR : o.linear_solver_type == ITERATIVE_SCHUR ? CGNR : o.linear_solver_type;
    REQUIRE("linear_solver_used", sum.linear_solver_type_used == o.linear_solver_type || (!given.empty() && sum.linear_solver_type_used == alt), LinearSolverTypeToString(sum.linear_solver_type_used));
    if (sum.linear_solver_type_used == o.linear_solver_type) REQUIRE("preconditioner_used", sum.preconditioner_type_used == o.preconditioner_type, sum.preconditioner_type_used);
    REQUIRE("names_in_report", full.find(LinearSolverTypeToString(o.linear_solver_type)) != std::string::npos && full.find(LinearSolverTypeToString(sum.linear_solver_type_used)) != std::string::npos &&
            full.find(TrustRegionStrategyTypeToString(o.trust_region_strategy_type)) != std::string::npos, full);
    REQUIRE("mixed_used", sum.mixed_precision_solves_used == o.use_mixed_precision_solves, "");
    int total = 0;
    for (int k : sum.linear_solver_ordering_used) total += k;
    REQUIRE("ordering_used", total == blocks, total, " of ", blocks);
    if (!o.use_inner_iterations) REQUIRE("inner_used", !sum.inner_iterations_used, "");
  } else if (!tr) {
    REQUIRE("names_in_report", full.find(LineSearchDirectionTypeToString(o.line_search_direction_type)) != std::string::npos || o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT || o.line_search_direction_type == LBFGS, full);
  }
  REQUIRE("evaluation_counts", sum.iterations.empty() || sum.num_residual_evaluations + sum.num_jacobian_evaluations > 0, "");
  REQUIRE("times", sum.total_time_in_seconds >= 0 && sum.preprocessor_time_in_seconds >= 0 && sum.minimizer_time_in_seconds >= -1 && sum.postprocessor_time_in_seconds >= 0, "");
  REQUIRE("iteration_limit", sum.iterations.empty() || sum.iterations.back().iteration <= o.max_num_iterations, sum.iterations.size());
  if (o.minimizer_type == LINE_SEARCH || sum.num_parameter_blocks_reduced == 0) return;
  if (o.max_num_iterations == 0) REQUIRE("moved_without_iterations", SameBits(start, end) || g.bounds, StrX(end));
}

// ---- gradient problem solver ------------------------------------------------------------
struct Bowl : FirstOrderFunction {
  int n; mutable int calls = 0;
  explicit Bowl(int n) : n(n) {}
  bool Evaluate(const double* x, double* cost, double* g) const override {
    ++calls;
    *cost = 0;
    for (int i = 0; i < n; ++i) { *cost += (i + 1) * (x[i] - 1) * (x[i] - 1) + 0.1 * x[i] * x[i] * x[i] * x[i]; if (g) g[i] = 2 * (i + 1) * (x[i] - 1) + 0.4 * x[i] * x[i] * x[i]; }
    return true;
  }
  int NumParameters() const override { return n; }
};

PBT_PROP(gradient_solver, 120000, 4000000) {
  Solver::Options o;
  o.minimizer_type = LINE_SEARCH;
  const int n = c.range(0, 3);
  std::string what;
  for (int k = 0; k < n; ++k) what += " " + Mutate(c, &o);
  o.minimizer_type = LINE_SEARCH;
  o.num_threads = 1;
  o.check_gradients = false;
  GradientProblemSolver::Options g;
  g.logging_type = SILENT;
  g.line_search_direction_type = o.line_search_direction_type;
  g.line_search_type = o.line_search_type;
  g.max_lbfgs_rank = o.max_lbfgs_rank;
  g.min_line_search_step_size = o.min_line_search_step_size;
  g.line_search_sufficient_function_decrease = o.line_search_sufficient_function_decrease;
  g.max_line_search_step_contraction = o.max_line_search_step_contraction;
  g.min_line_search_step_contraction = o.min_line_search_step_contraction;
  g.max_num_line_search_step_size_iterations = o.max_num_line_search_step_size_iterations;
  g.line_search_sufficient_curvature_decrease = o.line_search_sufficient_curvature_decrease;
  g.max_line_search_step_expansion = o.max_line_search_step_expansion;
  g.max_num_iterations = std::min(o.max_num_iterations, 30);
  g.max_solver_time_in_seconds = o.max_solver_time_in_seconds;
  g.parameter_tolerance = o.parameter_tolerance;
  g.function_tolerance = o.function_tolerance;
  g.gradient_tolerance = o.gradient_tolerance;
  c.note() << what;
  const bool ok = Acceptable(o, true);
  std::string error;
  REQUIRE("verdict", g.IsValid(&error) == ok, error);
  const int dim = c.range(1, 3);
  auto* f = new Bowl(dim);
  GradientProblem p{std::unique_ptr<FirstOrderFunction>(f)};
  Vec x(dim);
  for (double& d : x) d = c.sym(3.0);
  const Vec x0 = x;
  GradientProblemSolver::Summary sum;
  ceres::Solve(g, p, x.data(), &sum);
  REQUIRE("reports", !sum.BriefReport().empty() && !sum.FullReport().empty(), "");
  REQUIRE("given", sum.line_search_type == g.line_search_type && sum.line_search_direction_type == g.line_search_direction_type && sum.max_lbfgs_rank == g.max_lbfgs_rank && sum.num_parameters == dim, "");
  if (!ok) {
    REQUIRE("invalid_not_failure", sum.termination_type == FAILURE && sum.message == error && !error.empty(), sum.message);
    REQUIRE("parameters_touched", x == x0 && f->calls == 0, f->calls);
  } else {
    for (double d : x) REQUIRE("nonfinite", std::isfinite(d), d);
    double a, b;
    f->Evaluate(x0.data(), &a, nullptr);
    f->Evaluate(x.data(), &b, nullptr);
    REQUIRE("worse", b <= a * (1 + 1e-12) + 1e-12, a, " ", b);
  }
  c.label(ok ? "accepted" : "rejected");
  c.nontrivial(n > 0);
}

// ---- names ------------------------------------------------------------------------------
template <typename E>
static void RoundTrip(pbt::Case& c, const char* what, std::initializer_list<E> all, const char* (*to)(E), bool (*from)(std::string, E*)) {
  std::set<std::string> seen;
  for (E e : all) {
    std::string s = to(e);
    REQUIRE("no_name", !s.empty() && s != "UNKNOWN", what, " ", (int)e);
    REQUIRE("ambiguous_name", seen.insert(s).second, what, " ", s);
    // Names are not case sensitive.
    for (char& k : s) if (c.coin()) k = std::tolower(k);
    for (E other : all) {
      E r = other;
      const bool ok = from(s, &r);
      REQUIRE("roundtrip", ok && r == e, what, " ", s, " gives ", (int)r);
    }
    std::string bad = s;
    const int how = c.range(0, 2);
    if (how == 0) bad += "X"; else if (how == 1) bad.erase(bad.begin()); else bad[c.range(0, (int)bad.size() - 1)] = '?';
    E r = e;
    bool clash = false;
    for (E other : all) { std::string t = to(other), u = bad; for (char& k : u) k = std::toupper(k); clash |= t == u; }
    if (!clash) REQUIRE("accepts_nonsense", !from(bad, &r) && r == e, what, " ", bad);
  }
}

PBT_PROP(names, 3000, 30000) {
  switch (c.range(0, 17)) {
    case 0: RoundTrip<LinearSolverType>(c, "solver", {DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR}, LinearSolverTypeToString, StringToLinearSolverType); break;
    case 1: RoundTrip<PreconditionerType>(c, "preconditioner", {IDENTITY, JACOBI, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL, SUBSET}, PreconditionerTypeToString, StringToPreconditionerType); break;
    case 2: RoundTrip<VisibilityClusteringType>(c, "clustering", {CANONICAL_VIEWS, SINGLE_LINKAGE}, VisibilityClusteringTypeToString, StringToVisibilityClusteringType); break;
    case 3: RoundTrip<SparseLinearAlgebraLibraryType>(c, "sparse", {SUITE_SPARSE, EIGEN_SPARSE, ACCELERATE_SPARSE, CUDA_SPARSE, NO_SPARSE}, SparseLinearAlgebraLibraryTypeToString, StringToSparseLinearAlgebraLibraryType); break;
    case 4: RoundTrip<LinearSolverOrderingType>(c, "ordering", {AMD, NESDIS}, LinearSolverOrderingTypeToString, StringToLinearSolverOrderingType); break;
    case 5: RoundTrip<DenseLinearAlgebraLibraryType>(c, "dense", {EIGEN, LAPACK, CUDA}, DenseLinearAlgebraLibraryTypeToString, StringToDenseLinearAlgebraLibraryType); break;
    case 6: RoundTrip<TrustRegionStrategyType>(c, "strategy", {LEVENBERG_MARQUARDT, DOGLEG}, TrustRegionStrategyTypeToString, StringToTrustRegionStrategyType); break;
    case 7: RoundTrip<DoglegType>(c, "dogleg", {TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG}, DoglegTypeToString, StringToDoglegType); break;
    case 8: RoundTrip<MinimizerType>(c, "minimizer", {LINE_SEARCH, TRUST_REGION}, MinimizerTypeToString, StringToMinimizerType); break;
    case 9: RoundTrip<LineSearchDirectionType>(c, "direction", {STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS}, LineSearchDirectionTypeToString, StringToLineSearchDirectionType); break;
    case 10: RoundTrip<LineSearchType>(c, "search", {ARMIJO, WOLFE}, LineSearchTypeToString, StringToLineSearchType); break;
    case 11: RoundTrip<NonlinearConjugateGradientType>(c, "cg", {FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL}, NonlinearConjugateGradientTypeToString, StringToNonlinearConjugateGradientType); break;
    case 12: RoundTrip<LineSearchInterpolationType>(c, "interpolation", {BISECTION, QUADRATIC, CUBIC}, LineSearchInterpolationTypeToString, StringToLineSearchInterpolationType); break;
    case 13: RoundTrip<CovarianceAlgorithmType>(c, "covariance", {DENSE_SVD, SPARSE_QR}, CovarianceAlgorithmTypeToString, StringToCovarianceAlgorithmType); break;
    case 14: RoundTrip<NumericDiffMethodType>(c, "diff", {CENTRAL, FORWARD, RIDDERS}, NumericDiffMethodTypeToString, StringToNumericDiffMethodType); break;
    case 15: RoundTrip<LoggingType>(c, "logging", {SILENT, PER_MINIMIZER_ITERATION}, LoggingTypeToString, StringToLoggingType); break;
    case 16: RoundTrip<DumpFormatType>(c, "dump", {CONSOLE, TEXTFILE}, DumpFormatTypeToString, StringToDumpFormatType); break;
    default: {
      std::set<std::string> s;
      for (TerminationType t : {CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE}) REQUIRE("termination_name", s.insert(TerminationTypeToString(t)).second && std::string(TerminationTypeToString(t)) != "UNKNOWN", t);
      Solver::Summary d;
      REQUIRE("default_report", !d.BriefReport().empty() && !d.FullReport().empty() && !d.IsSolutionUsable(), "");
      GradientProblemSolver::Summary e;
      REQUIRE("default_report", !e.BriefReport().empty() && !e.FullReport().empty() && !e.IsSolutionUsable(), "");
    }
  }
  c.nontrivial();
}

PBT_MAIN("C32", "at least one option was changed from a valid configuration")
