// C23: general unconstrained minimisation is monotone and truthful.
// pbt-build: flavor=rel
#include <algorithm>
#include <cmath>

#include "ceres/autodiff_first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/internal/eigen.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/low_rank_inverse_hessian.h"
#include "problem_gen.h"

using namespace ceres;
using LD = long double;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VecL;
typedef Eigen::VectorXd VecD;
typedef Eigen::MatrixXd MatD;

// ---- generated smooth functions ----------------------------------------------
// f(x) = 1/2 (x-m)'Q(x-m) + sum_k w_k phi_k(a_k'x - b_k)
struct Ridge { int kind; VecD a; double b, w; };
struct Func : FirstOrderFunction {
  int n = 0;
  MatD q;
  VecD m;
  double shift = 0;
  std::vector<Ridge> ridges;
  mutable std::vector<VecD> points;
  mutable std::vector<double> values;
  mutable int64_t num_values = 0, num_gradients = 0;
  mutable double scale = 0;  // magnitude of the terms at the last evaluation

  double Value(const VecD& x, VecD* g) const {
    const VecD d = x - m, qd = q * d;
    double v = shift + 0.5 * d.dot(qd);
    scale = std::fabs(shift) + std::fabs(d.dot(qd));
    if (g) *g = qd;
    for (auto& r : ridges) {
      const double u = r.a.dot(x) - r.b;
      double p = 0, dp = 0;
      switch (r.kind) {
        case 0: p = u * u; dp = 2 * u; break;
        case 1: p = std::cos(u); dp = -std::sin(u); break;
        case 2: p = u * u * u * u; dp = 4 * u * u * u; break;
        case 3: p = std::log1p(u * u); dp = 2 * u / (1 + u * u); break;
        case 4: p = std::sqrt(1 + u * u); dp = u / p; break;
        case 5: p = -std::exp(-u * u); dp = 2 * u * std::exp(-u * u); break;
        case 6: p = u > 0 ? u + std::log1p(std::exp(-u)) : std::log1p(std::exp(u)); dp = 1 / (1 + std::exp(-u)); break;
        case 7: p = u; dp = 1; break;
      }
      v += r.w * p;
      scale += std::fabs(r.w * p) + std::fabs(r.w * dp) * (std::fabs(r.a.dot(x)) + std::fabs(r.b));
      if (g) *g += r.w * dp * r.a;
    }
    return v;
  }
  bool Evaluate(const double* x, double* cost, double* gradient) const override {
    const VecD xv = Eigen::Map<const VecD>(x, n);
    VecD g;
    *cost = Value(xv, gradient ? &g : nullptr);
    if (gradient) { Eigen::Map<VecD>(gradient, n) = g; ++num_gradients; }
    else ++num_values;
    points.push_back(xv);
    values.push_back(*cost);
    return true;
  }
  int NumParameters() const override { return n; }
  std::string Str() const {
    static const char* names[] = {"sq", "cos", "quart", "log1p", "hypot", "well", "softplus", "lin"};
    std::string s = pbt::Str("n=", n, q.norm() > 0 ? " quadratic" : "");
    for (auto& r : ridges) s += pbt::Str(" ", r.w, "*", names[r.kind]);
    return s;
  }
};

static MatD GenSpd(pbt::Case& c, int n, double max_cond, double scale) {
  MatD a(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = c.sym(1.0) + (i == j ? 1.5 : 0);
  MatD u = Eigen::HouseholderQR<MatD>(a).householderQ();
  VecD e(n);
  for (int i = 0; i < n; ++i) e[i] = scale * c.logreal(1.0, max_cond);
  return u * e.asDiagonal() * u.transpose();
}

static Func* GenFunc(pbt::Case& c, int n) {
  auto* f = new Func;
  f->n = n;
  f->m = VecD::Zero(n);
  f->q = MatD::Zero(n, n);
  for (int i = 0; i < n; ++i) f->m[i] = c.sym(2.0);
  if (!c.chance(1, 5)) f->q = GenSpd(c, n, c.pick({10.0, 2.0, 1e3}), c.pick({1.0, 0.1, 1e-3, 10.0}));
  for (int k = c.range(f->q.norm() > 0 ? 0 : 1, 4); k > 0; --k) {
    Ridge r;
    r.kind = c.pick({0, 1, 3, 4, 5, 6, 2, 4, 6, 7});
    if (r.kind == 7 && f->q.norm() == 0) r.kind = 6;
    r.a = VecD(n);
    for (int i = 0; i < n; ++i) r.a[i] = c.chance(1, 4) ? 0.0 : c.sym(2.0);
    r.b = c.sym(3.0);
    r.w = c.pick({1.0, 0.5, 3.0, 0.1});
    f->ridges.push_back(r);
  }
  if (c.chance(1, 4)) f->shift = c.pick({10.0, -5.0, 100.0});
  return f;
}

static GradientProblemSolver::Options GenSolverOptions(pbt::Case& c, bool defaults_only) {
  GradientProblemSolver::Options o;
  o.logging_type = SILENT;
  o.line_search_direction_type = c.pick({LBFGS, BFGS, NONLINEAR_CONJUGATE_GRADIENT, STEEPEST_DESCENT});
  const bool quasi = o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS;
  o.line_search_type = quasi || c.coin() ? WOLFE : ARMIJO;
  o.nonlinear_conjugate_gradient_type = c.pick({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  o.max_lbfgs_rank = c.pick({20, 1, 2, 3, 5});
  o.use_approximate_eigenvalue_bfgs_scaling = c.coin();
  o.line_search_interpolation_type = c.pick({CUBIC, QUADRATIC, BISECTION});
  if (defaults_only) return o;
  o.max_num_iterations = c.pick({50, 5, 1, 0, 200});
  if (c.chance(1, 3)) o.line_search_sufficient_function_decrease = c.pick({1e-3, 1e-2, 0.1});
  if (c.chance(1, 3)) o.line_search_sufficient_curvature_decrease = c.pick({0.5, 0.2, 0.99});
  if (c.chance(1, 4)) o.max_num_line_search_step_size_iterations = c.pick({5, 3, 2, 1, 50});
  if (c.chance(1, 4)) o.max_line_search_step_expansion = c.pick({2.0, 100.0, 1.5});
  if (c.chance(1, 4)) o.min_line_search_step_size = c.pick({1e-4, 1e-15, 0.1});
  if (c.chance(1, 4)) o.max_num_line_search_direction_restarts = c.pick({0, 1});
  if (c.chance(1, 3)) o.function_tolerance = c.pick({1e-12, 0.0, 1e-2});
  if (c.chance(1, 3)) o.gradient_tolerance = c.pick({1e-4, 1e-14, 1e-2, 0.0});
  if (c.chance(1, 3)) o.parameter_tolerance = c.pick({1e-12, 0.0, 1e-3});
  o.update_state_every_iteration = c.coin();
  return o;
}
static std::string StrOptions(const GradientProblemSolver::Options& o) {
  return pbt::Str(" ", LineSearchDirectionTypeToString(o.line_search_direction_type), " ", NonlinearConjugateGradientTypeToString(o.nonlinear_conjugate_gradient_type), " ",
                  LineSearchTypeToString(o.line_search_type), " ", LineSearchInterpolationTypeToString(o.line_search_interpolation_type), " rank ", o.max_lbfgs_rank,
                  o.use_approximate_eigenvalue_bfgs_scaling ? " scaled" : "", " it ", o.max_num_iterations, "/", o.max_num_line_search_step_size_iterations, " tol ",
                  o.function_tolerance, "/", o.gradient_tolerance, "/", o.parameter_tolerance, o.update_state_every_iteration ? " update" : "");
}

struct StateRecorder : IterationCallback {
  const double* x; int n;
  std::vector<VecD> states;
  std::vector<IterationSummary> summaries;
  int stop_at = -1;
  CallbackReturnType stop_with = SOLVER_TERMINATE_SUCCESSFULLY;
  CallbackReturnType operator()(const IterationSummary& s) override {
    states.push_back(Eigen::Map<const VecD>(x, n));
    summaries.push_back(s);
    return s.iteration == stop_at ? stop_with : SOLVER_CONTINUE;
  }
};

// Tangent gradient and the projected gradient x - Plus(x, -g).
static void GradientAt(const Func& f, const pg::BlockSpec& b, const VecD& x, VecD* tangent, VecD* projected) {
  VecD g;
  f.Value(x, &g);
  if (b.mani.kind == pg::kNone) { *tangent = g; *projected = x - (x - g); return; }
  std::unique_ptr<Manifold> m(b.mani.Make());
  pg::Mat pj(b.size, b.tangent());
  if (b.tangent() > 0) m->PlusJacobian(x.data(), pj.data());
  *tangent = pj.transpose() * g;
  VecD y = x, neg = -*tangent;
  double dummy;
  m->Plus(x.data(), neg.size() ? neg.data() : &dummy, y.data());
  *projected = x - y;
}

PBT_PROP(minimise, 200000, 6000000) {
  const int n = c.size(1, 7);
  auto* f = GenFunc(c, n);
  pg::BlockSpec b;
  b.size = n;
  for (int i = 0; i < n; ++i) b.x0.push_back(c.sym(c.pick({2.0, 10.0})));
  if (c.coin()) pg::GenMani(c, &b, true);
  if (b.tangent() == 0) b.mani = pg::ManiSpec();
  std::unique_ptr<GradientProblem> problem;
  if (b.mani.kind == pg::kNone) problem.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f)));
  else problem.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(b.mani.Make())));
  GradientProblemSolver::Options o = GenSolverOptions(c, false);
  std::vector<double> x = b.x0;
  StateRecorder rec;
  rec.x = x.data();
  rec.n = n;
  if (c.chance(1, 8)) { rec.stop_at = c.range(0, 4); rec.stop_with = c.coin() ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY; }
  o.callbacks.push_back(&rec);
  c.note() << f->Str() << " manifold " << b.mani.Str() << StrOptions(o);
  REQUIRE("sizes", problem->NumParameters() == n && problem->NumTangentParameters() == b.tangent(), problem->NumTangentParameters());
  GradientProblemSolver::Summary s;
  const VecD start = Eigen::Map<const VecD>(b.x0.data(), n);
  ceres::Solve(o, *problem, x.data(), &s);
  const VecD end = Eigen::Map<const VecD>(x.data(), n);
  c.note() << " -> " << s.iterations.size() << " iterations, " << s.message;

  REQUIRE("options_rejected", s.initial_cost != -1.0 || f->points.size() > 0, s.message);
  REQUIRE("evaluation_counts", s.num_cost_evaluations == f->num_values && s.num_gradient_evaluations == f->num_gradients,
          s.num_cost_evaluations, " ", f->num_values, " ", s.num_gradient_evaluations, " ", f->num_gradients);
  const double f0 = f->Value(start, nullptr), sc0 = f->scale;
  REQUIRE_CLOSE("initial_cost", s.initial_cost, f0, 1e-14, sc0, "");
  REQUIRE("finite", end.allFinite(), end.transpose());
  const double f1 = f->Value(end, nullptr), sc = std::max(sc0, f->scale);
  REQUIRE("worse", f1 <= f0 + 1e-13 * sc, f0, " -> ", f1);
  auto evaluated = [&](const VecD& p) {
    for (auto& q : f->points) if (q == p) return true;
    return false;
  };
  REQUIRE("never_evaluated", evaluated(end), end.transpose());
  if (s.IsSolutionUsable()) REQUIRE_CLOSE("final_cost", s.final_cost, f1, 1e-14, sc, "");
  else if (!o.update_state_every_iteration) REQUIRE("modified_without_solution", end == start, end.transpose());
  REQUIRE("usable", s.IsSolutionUsable() == (s.termination_type == CONVERGENCE || s.termination_type == NO_CONVERGENCE || s.termination_type == USER_SUCCESS), "");

  // The history.
  const int k = (int)s.iterations.size();
  REQUIRE("too_many_iterations", k <= o.max_num_iterations + 1, k);
  REQUIRE("callback_count", (int)rec.summaries.size() == k, rec.summaries.size(), " ", k);
  if (rec.stop_at >= 0 && k > rec.stop_at)
    REQUIRE("callback_ignored", k == rec.stop_at + 1 && s.termination_type == (rec.stop_with == SOLVER_ABORT ? USER_FAILURE : USER_SUCCESS), k, " ", s.message);
  std::vector<VecD> it;  // states, known when update_state_every_iteration
  double last = s.initial_cost;
  for (int i = 0; i < k; ++i) {
    const IterationSummary& is = s.iterations[i];
    REQUIRE("iteration_number", is.iteration == i, i, " ", is.iteration);
    REQUIRE("not_monotone", is.cost <= last + 1e-13 * sc, i, ": ", last, " -> ", is.cost);
    if (i > 0) {
      REQUIRE_CLOSE("cost_change", is.cost_change, last - is.cost, 1e-12, sc, i);
      REQUIRE("step_flags", is.step_is_successful && is.step_is_valid, i);
      REQUIRE("step_size", is.step_size >= 0, is.step_size);
    } else {
      REQUIRE_CLOSE("first_cost", is.cost, s.initial_cost, 1e-15, sc0, "");
    }
    last = is.cost;
    if (o.update_state_every_iteration) {
      const VecD& p = rec.states[i];
      REQUIRE_CLOSE("state_cost", is.cost, f->Value(p, nullptr), 1e-14, sc, i);
      VecD t, pr;
      GradientAt(*f, b, p, &t, &pr);
      const double tol = 1e-10 * (1 + t.norm() + p.norm());
      REQUIRE("gradient_max_norm", std::fabs(is.gradient_max_norm - pr.lpNorm<Eigen::Infinity>()) <= tol, i, ": ", is.gradient_max_norm, " ", pr.lpNorm<Eigen::Infinity>());
      REQUIRE("gradient_norm", std::fabs(is.gradient_norm - pr.norm()) <= tol, i, ": ", is.gradient_norm, " ", pr.norm());
      if (i > 0) REQUIRE_CLOSE("step_norm", is.step_norm, (p - rec.states[i - 1]).norm(), 1e-12, p.norm(), i);
    }
  }
  if (k > 0 && s.IsSolutionUsable()) REQUIRE_CLOSE("last_cost", s.iterations[k - 1].cost, s.final_cost, 1e-14, sc, "");
  if (k > 1 && o.update_state_every_iteration && s.IsSolutionUsable()) REQUIRE("last_state", rec.states[k - 1] == end, end.transpose());
  if (o.update_state_every_iteration && !s.IsSolutionUsable() && k > 0) REQUIRE("last_state", rec.states[k - 1] == end, end.transpose());

  // Convergence claims, and their absence.
  VecD t, pr;
  GradientAt(*f, b, end, &t, &pr);
  const double gmax = pr.size() ? pr.lpNorm<Eigen::Infinity>() : 0, gslack = 1e-11 * (1 + t.norm() + end.norm());
  if (s.termination_type == CONVERGENCE) {
    bool ok = gmax <= o.gradient_tolerance + gslack;
    const char* why = ok ? "gradient" : "none";
    if (k > 1) {
      const IterationSummary& a = s.iterations[k - 1];
      const double prev = s.iterations[k - 2].cost;
      if (std::fabs(prev - a.cost) <= o.function_tolerance * std::fabs(prev) + 1e-13 * sc) { ok = true; why = "function"; }
      // |x_prev| is within step_norm of |x|.
      if (a.step_norm <= o.parameter_tolerance * (end.norm() + a.step_norm + o.parameter_tolerance) * (1 + 1e-9)) { ok = true; why = "parameter"; }
    }
    REQUIRE("false_convergence", ok, s.message, " gradient ", gmax);
    c.label(std::string("converged: ") + why);
    if (s.message.find("Gradient tolerance") == 0) REQUIRE("false_gradient_claim", gmax <= o.gradient_tolerance + gslack, gmax);
  }
  for (int i = 1; i + 1 < k; ++i) {  // iterations after which the minimiser continued
    const IterationSummary& a = s.iterations[i];
    REQUIRE("missed_gradient_convergence", a.gradient_max_norm > o.gradient_tolerance, i);
    REQUIRE("missed_function_convergence", std::fabs(a.cost_change) > o.function_tolerance * std::fabs(s.iterations[i - 1].cost) - 1e-13 * sc, i);
  }
  if (s.termination_type == NO_CONVERGENCE) REQUIRE("stopped_early", k == o.max_num_iterations + 1, k, " ", s.message);
  c.label(TerminationTypeToString(s.termination_type));
  c.label(LineSearchDirectionTypeToString(o.line_search_direction_type));
  if (b.mani.kind) c.label("manifold");
  c.nontrivial(k > 2);
}

// ---- convex quadratics ---------------------------------------------------------
PBT_PROP(quadratic, 60000, 2000000) {
  const int n = c.size(1, 8);
  auto* f = new Func;
  f->n = n;
  f->m = VecD(n);
  for (int i = 0; i < n; ++i) f->m[i] = c.sym(2.0);
  const double scale = c.pick({1.0, 0.1, 10.0, 0.01});
  f->q = GenSpd(c, n, c.pick({1.0, 5.0, 30.0}), scale);
  f->shift = c.pick({0.0, 1.0, -1.0});
  pg::BlockSpec b;
  b.size = n;
  for (int i = 0; i < n; ++i) b.x0.push_back(c.sym(c.pick({2.0, 10.0})));
  if (c.coin()) pg::GenMani(c, &b, false);
  if (b.tangent() == 0) b.mani = pg::ManiSpec();
  std::unique_ptr<GradientProblem> problem;
  if (b.mani.kind == pg::kNone) problem.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f)));
  else problem.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(b.mani.Make())));
  GradientProblemSolver::Options o = GenSolverOptions(c, true);
  // An Armijo search never lengthens its steps, and can stall after a short one.
  o.line_search_type = WOLFE;
  // Conjugate directions can need steps too short for 20 bisections.
  if (o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT) o.line_search_interpolation_type = CUBIC;
  o.min_line_search_step_size = 1e-15;
  o.max_num_iterations = 2000;
  o.function_tolerance = 1e-15;
  o.parameter_tolerance = 1e-13;
  o.gradient_tolerance = 1e-7 * scale;
  std::vector<double> x = b.x0;
  c.note() << f->Str() << " scale " << scale << " manifold " << b.mani.Str() << StrOptions(o);
  // The minimiser over x0 + range(S).
  const VecD start = Eigen::Map<const VecD>(b.x0.data(), n);
  MatD s = MatD::Identity(n, n);
  if (b.mani.kind == pg::kLinear) s = b.mani.s;
  if (b.mani.kind == pg::kSubset) {
    s = MatD::Zero(n, b.tangent());
    int k = 0;
    for (int i = 0; i < n; ++i) if (std::find(b.mani.fixed.begin(), b.mani.fixed.end(), i) == b.mani.fixed.end()) s(i, k++) = 1;
  }
  const VecD best = start + s * (s.transpose() * f->q * s).ldlt().solve(s.transpose() * f->q * (f->m - start));
  GradientProblemSolver::Summary sum;
  ceres::Solve(o, *problem, x.data(), &sum);
  c.note() << " -> " << sum.iterations.size() << " iterations, " << sum.message;
  const VecD end = Eigen::Map<const VecD>(x.data(), n);
  const double f0 = f->Value(start, nullptr), f1 = f->Value(end, nullptr), fb = f->Value(best, nullptr);
  const double size = std::fabs(f0) + std::fabs(fb) + 1e-3 * scale;
  // Conjugate gradients may take a step that decreases the function by less than
  // the tolerance long before the minimum, along a poor direction.
  const double gap = o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT ? 1e-3 : 1e-7;
  REQUIRE("not_minimised", f1 - fb <= gap * size, f1, " vs ", fb, " start ", f0, " ", sum.message);
  REQUIRE("below_minimum", f1 >= fb - 1e-12 * size, f1, " vs ", fb);
  REQUIRE("left_manifold", ((end - start) - s * (s.transpose() * s).ldlt().solve(s.transpose() * (end - start))).norm() <= 1e-10 * (1 + start.norm() + end.norm()), end.transpose());
  REQUIRE("too_slow", sum.termination_type == CONVERGENCE || sum.termination_type == FAILURE, sum.message);
  c.label(LineSearchDirectionTypeToString(o.line_search_direction_type));
  c.label(sum.termination_type == CONVERGENCE ? "converged" : "stopped at rounding errors");
  c.nontrivial(n > 1 && sum.iterations.size() > 2);
}

// ---- the directions taken by the minimiser, against the textbook ----------------
struct Textbook {
  GradientProblemSolver::Options o;
  int n;
  std::vector<VecL> s, y;  // accepted corrections
  MatL h;                  // BFGS
  bool started = false;
  void Reset() { s.clear(); y.clear(); started = false; h = MatL::Identity(n, n); }
  static void Apply(MatL* h, const VecL& s, const VecL& y) {
    const LD rho = 1 / s.dot(y);
    const MatL v = MatL::Identity(s.size(), s.size()) - rho * y * s.transpose();
    *h = (v.transpose() * *h * v + rho * s * s.transpose()).eval();
  }
  MatL LbfgsMatrix() const {
    MatL m = MatL::Identity(n, n);
    const size_t first = s.size() > (size_t)o.max_lbfgs_rank ? s.size() - o.max_lbfgs_rank : 0;
    if (o.use_approximate_eigenvalue_bfgs_scaling && !s.empty()) m *= s.back().dot(y.back()) / y.back().squaredNorm();
    for (size_t i = first; i < s.size(); ++i) Apply(&m, s[i], y[i]);
    return m;
  }
  // The direction at a point with gradient g, after having moved by ds along pd
  // from a point with gradient pg. *ambiguous: a threshold is too close to call.
  VecL Next(const VecL& pg, const VecL& pd, const VecL& ds, const VecL& g, bool* ambiguous) {
    *ambiguous = false;
    const VecL dg = g - pg;
    switch (o.line_search_direction_type) {
      case STEEPEST_DESCENT: return -g;
      case NONLINEAR_CONJUGATE_GRADIENT: {
        LD beta = 0, den = 1;
        if (o.nonlinear_conjugate_gradient_type == FLETCHER_REEVES) { beta = g.squaredNorm() / pg.squaredNorm(); }
        if (o.nonlinear_conjugate_gradient_type == POLAK_RIBIERE) { beta = g.dot(dg) / pg.squaredNorm(); }
        if (o.nonlinear_conjugate_gradient_type == HESTENES_STIEFEL) {
          den = pd.dot(dg);
          if (fabsl(den) < 1e-6L * pd.norm() * dg.norm()) *ambiguous = true;
          beta = g.dot(dg) / den;
        }
        if (dg.norm() < 1e-6L * g.norm()) *ambiguous = true;
        VecL d = -g + beta * pd;
        const LD slope = d.dot(g), sc = g.squaredNorm() + fabsl(beta * pd.dot(g));
        if (fabsl(slope) < 1e-5L * (sc + g.norm() * (g.norm() + fabsl(beta) * pd.norm()))) *ambiguous = true;
        if (!(slope < 0)) d = -g;
        return d;
      }
      case BFGS: case LBFGS: {
        const LD sy = ds.dot(dg);
        if (sy < 1e-12L || sy < 1e-5L * ds.norm() * dg.norm()) *ambiguous = true;
        if (sy > 1e-14L) {
          s.push_back(ds); y.push_back(dg);
          if (o.line_search_direction_type == BFGS) {
            if (!started && o.use_approximate_eigenvalue_bfgs_scaling) h *= sy / dg.squaredNorm();
            started = true;
            Apply(&h, ds, dg);
          }
        }
        return -((o.line_search_direction_type == BFGS ? h : LbfgsMatrix()) * g).eval();
      }
    }
    return g;
  }
};

PBT_PROP(directions_taken, 100000, 3000000) {
  const int n = c.size(1, 6);
  auto* f = GenFunc(c, n);
  GradientProblem problem{std::unique_ptr<FirstOrderFunction>(f)};
  GradientProblemSolver::Options o = GenSolverOptions(c, true);
  o.max_num_iterations = c.pick({6, 12, 25});
  o.update_state_every_iteration = true;
  o.function_tolerance = 1e-9;
  if (c.chance(1, 3)) o.line_search_sufficient_curvature_decrease = c.pick({0.5, 0.2});
  std::vector<double> x(n);
  for (double& t : x) t = c.sym(c.pick({2.0, 10.0}));
  StateRecorder rec;
  rec.x = x.data();
  rec.n = n;
  o.callbacks.push_back(&rec);
  c.note() << f->Str() << StrOptions(o);
  GradientProblemSolver::Summary sum;
  ceres::Solve(o, problem, x.data(), &sum);
  Textbook tb;
  tb.o = o;
  tb.n = n;
  tb.Reset();
  VecL pg, pd;
  int checked = 0;
  for (size_t k = 0; k + 1 < rec.states.size(); ++k) {
    const VecD &a = rec.states[k], &b = rec.states[k + 1];
    const double step = rec.summaries[k + 1].step_size;
    const VecL ds = (b - a).cast<LD>();
    if (step <= 0 || ds.norm() < 1e-5L * (1 + a.norm())) break;
    VecD g;
    f->Value(a, &g);
    const VecL gl = g.cast<LD>();
    bool ambiguous = false;
    VecL want;
    if (k == 0) want = -gl;
    else want = tb.Next(pg, pd, (a - rec.states[k - 1]).cast<LD>(), gl, &ambiguous);
    if (ambiguous || k > 10) break;
    // Growth of the relative errors of the corrections.
    LD growth = 1;
    for (size_t i = 0; i < tb.s.size(); ++i) growth *= powl(tb.s[i].norm() * tb.y[i].norm() / tb.s[i].dot(tb.y[i]), 2);
    if (growth > 1e6L) break;
    const VecL got = ds / step;
    REQUIRE("not_descent", got.dot(gl) < 1e-9L * got.norm() * gl.norm(), "iteration ", k);
    // The direction implied by the rounded states.
    LD tol = 1e-5L * want.norm() + 1e-14L * (1 + a.norm()) / step;
    for (auto& y : tb.y) if (y.norm() < 1e-7L * (1 + gl.norm())) tol = HUGE_VALL;
    REQUIRE("direction", (got - want).norm() <= tol, "iteration ", k, ": ", got.transpose(), " expected ", want.transpose());
    if (want.dot(gl) > -1e-6L * want.norm() * gl.norm()) break;
    pg = gl;
    pd = want;
    ++checked;
  }
  c.label(pbt::Str(LineSearchDirectionTypeToString(o.line_search_direction_type), checked > 3 ? " >3 iterations" : ""));
  c.nontrivial(checked > 1);
}

// ---- update formulas, on arbitrary histories -------------------------------------
struct Correction { VecD s, y; int kind; };
static Correction GenCorrection(pbt::Case& c, const MatD& b, double noise) {
  const int n = b.rows();
  Correction k;
  k.kind = c.pick({0, 0, 0, 0, 1, 2});
  k.s = VecD(n);
  for (int i = 0; i < n; ++i) k.s[i] = c.sym(1.0);
  if (k.s.norm() < 0.1) k.s[0] += 1;
  k.y = b * k.s;
  for (int i = 0; i < n; ++i) k.y[i] += noise * c.sym(1.0) * k.y.norm() / n;
  if (k.kind == 1) k.y = -k.y;                      // negative curvature
  if (k.kind == 2) { k.s *= 1e-9; k.y *= 1e-9; }    // too short
  if (k.kind == 0) { const double z = c.pick({1.0, 1e-3, 100.0, 1e-5}); k.s *= z; k.y *= z; }
  return k;
}

PBT_PROP(low_rank_product, 250000, 8000000) {
  using namespace ceres::internal;
  const int n = c.size(1, 8), rank = c.pick({1, 2, 3, 5, 8, 20});
  const bool scaling = c.coin();
  MatD b = GenSpd(c, n, c.pick({1.0, 3.0, 10.0}), c.pick({1.0, 0.01, 100.0}));
  const double noise = c.pick({0.0, 0.1, 0.3});
  LowRankInverseHessian h(n, rank, scaling);
  REQUIRE("size", h.num_rows() == n && h.num_cols() == n, h.num_rows(), " ", h.num_cols());
  Textbook tb;
  tb.n = n;
  tb.o.max_lbfgs_rank = rank;
  tb.o.use_approximate_eigenvalue_bfgs_scaling = scaling;
  tb.Reset();
  LD bound = 1;
  int rejected = 0;
  const int steps = c.size(0, 3 * rank + 4);
  c.note() << "n " << n << " rank " << rank << (scaling ? " scaled" : "") << " updates " << steps << " noise " << noise;
  for (int k = 0; k < steps && k < 30; ++k) {
    const Correction r = GenCorrection(c, b, noise);
    const VecL s = r.s.cast<LD>(), y = r.y.cast<LD>();
    const LD sy = s.dot(y);
    if (fabsl(sy) > 1e-15L && fabsl(sy) < 1e-13L) continue;
    const bool accepted = h.Update(r.s, r.y);
    REQUIRE("accepted", accepted == (sy > 1e-14L), k, " s'y ", (double)sy);
    if (accepted) { tb.s.push_back(s); tb.y.push_back(y); } else ++rejected;
    if (!c.chance(1, 3) && k + 1 < steps) continue;
    const MatL want = tb.LbfgsMatrix();
    bound = 0;
    {  // growth of rounding errors over the stored corrections
      LD v = 1;
      const size_t first = tb.s.size() > (size_t)rank ? tb.s.size() - rank : 0;
      for (size_t i = first; i < tb.s.size(); ++i) v = std::max(v, (LD)1) * std::max<LD>(1, powl(tb.s[i].norm() * tb.y[i].norm() / tb.s[i].dot(tb.y[i]), 2));
      bound = v;
    }
    const LD tol = 1e-13L * bound * n * (want.norm() + 1e-3L * want.norm());
    MatL got(n, n);
    for (int j = 0; j < n; ++j) {
      VecD e = VecD::Zero(n), out = VecD::Zero(n);
      e[j] = c.pick({1.0, -2.0});
      h.RightMultiplyAndAccumulate(e.data(), out.data());
      got.col(j) = out.cast<LD>() / e[j];
    }
    REQUIRE("product", (got - want).norm() <= tol, "after ", k + 1, " updates, error ", (double)(got - want).norm(), " of ", (double)want.norm());
    REQUIRE("not_symmetric", (got - got.transpose()).norm() <= 2 * tol, "");
    if (!tb.s.empty()) REQUIRE("secant", (got * tb.y.back() - tb.s.back()).norm() <= tol * tb.y.back().norm() + 1e-12L * bound * tb.s.back().norm(), "");
  }
  c.label((int)tb.s.size() > rank ? "corrections dropped" : "all corrections kept");
  c.nontrivial((int)tb.s.size() > 1);
  if (rejected) c.label("some rejected");
}

PBT_PROP(direction_updates, 250000, 8000000) {
  using namespace ceres::internal;
  const int n = c.size(1, 7);
  Textbook tb;
  tb.o = GenSolverOptions(c, true);
  tb.n = n;
  tb.Reset();
  LineSearchDirection::Options o;
  o.num_parameters = n;
  o.type = tb.o.line_search_direction_type;
  o.nonlinear_conjugate_gradient_type = tb.o.nonlinear_conjugate_gradient_type;
  o.max_lbfgs_rank = tb.o.max_lbfgs_rank;
  o.use_approximate_eigenvalue_bfgs_scaling = tb.o.use_approximate_eigenvalue_bfgs_scaling;
  auto dir = LineSearchDirection::Create(o);
  const MatD b = GenSpd(c, n, c.pick({1.0, 3.0, 10.0}), c.pick({1.0, 0.01, 100.0}));
  const double noise = c.pick({0.0, 0.1, 0.3});
  const int steps = c.size(1, 10);
  c.note() << "n " << n << StrOptions(tb.o) << " steps " << steps << " noise " << noise;
  VecD g(n);
  const double gscale = c.pick({1.0, 100.0, 1e-3, 1e-5});
  for (int i = 0; i < n; ++i) g[i] = gscale * c.sym(1.0);
  if (g.norm() < 0.01 * gscale) g[0] += gscale;
  LineSearchMinimizer::State prev(n, n), cur(n, n);
  cur.gradient = g;
  cur.gradient_squared_norm = g.squaredNorm();
  cur.gradient_max_norm = g.lpNorm<Eigen::Infinity>();
  cur.search_direction = -g;
  int compared = 0;
  bool exact = true;
  LD growth = 1;
  for (int k = 0; k < steps; ++k) {
    prev = cur;
    prev.step_size = c.pick({1.0, 0.1, 0.5}) / b.norm();
    const VecD s = prev.search_direction * prev.step_size;
    const int kind = c.pick({0, 0, 0, 1, 2});
    VecD y = b * s;
    for (int i = 0; i < n; ++i) y[i] += noise * c.sym(1.0) * y.norm() / n;
    if (kind == 1 && c.coin()) y = -y;
    if (kind == 2 && c.coin()) y.setZero();  // the function is linear along the step
    if (kind == 2 && c.chance(1, 3)) y *= 1e-12;
    cur.gradient = prev.gradient + y;
    if (cur.gradient.norm() < 1e-3 * prev.gradient.norm()) break;
    cur.gradient_squared_norm = cur.gradient.squaredNorm();
    cur.gradient_max_norm = cur.gradient.lpNorm<Eigen::Infinity>();
    const VecL gl = cur.gradient.cast<LD>(), pl = prev.gradient.cast<LD>();
    bool ambiguous = false;
    const VecL want = tb.Next(pl, prev.search_direction.cast<LD>(), s.cast<LD>(), gl, &ambiguous);
    if (y.norm() < 1e-4 * cur.gradient.norm() && y.norm() > 0) ambiguous = true;
    // BFGS skips corrections which are not positive: that decision is clear cut for these.
    const bool quasi = o.type == BFGS || o.type == LBFGS;
    if (quasi && fabsl(s.cast<LD>().dot((gl - pl)) - 1e-14L) > 1e-13L + 1e-12L * s.norm() * (double)(gl.norm() + pl.norm())) {
      const LD sy = s.cast<LD>().dot(gl - pl);
      if (sy < 1e-14L) ambiguous = false;
    }
    if (quasi && !tb.s.empty()) growth = std::max(growth, powl(tb.s.back().norm() * tb.y.back().norm() / tb.s.back().dot(tb.y.back()), 2)) * 1.5L;
    if (ambiguous) exact = false;
    VecD d = VecD::Constant(n, 7.0);
    const bool ok = dir->NextDirection(prev, cur, &d);
    const LD slope = d.cast<LD>().dot(gl);
    if (ok) {
      REQUIRE("direction_not_finite", d.allFinite(), "step ", k, ": ", d.transpose());
      REQUIRE("not_descent", slope < 0, "step ", k, " slope ", (double)slope);
    } else {
      REQUIRE("gave_up", quasi && !(slope < -1e-10L * d.norm() * gl.norm()), "step ", k, " slope ", (double)slope);
      break;
    }
    if (exact && growth < 1e6L) {
      REQUIRE("direction", (d.cast<LD>() - want).norm() <= 1e-11L * growth * n * (want.norm() + (quasi ? 0 : gl.norm())), "step ", k, ": ", d.transpose(), " expected ", want.transpose());
      ++compared;
    }
    cur.search_direction = d;
    if (d.norm() > 1e6 || d.norm() < 1e-9) break;
  }
  c.label(pbt::Str(LineSearchDirectionTypeToString(o.type), exact ? "" : " (partly compared)"));
  c.nontrivial(compared > 1);
}

// ---- the problem object -----------------------------------------------------------
PBT_PROP(problem, 100000, 2000000) {
  const int n = c.size(1, 7);
  auto* f = GenFunc(c, n);
  pg::BlockSpec b;
  b.size = n;
  for (int i = 0; i < n; ++i) b.x0.push_back(c.sym(2.0));
  if (!c.chance(1, 4)) pg::GenMani(c, &b, true);
  if (b.tangent() == 0) b.mani = pg::ManiSpec();
  std::unique_ptr<GradientProblem> p;
  if (b.mani.kind == pg::kNone) p.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f)));
  else p.reset(new GradientProblem(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(b.mani.Make())));
  c.note() << f->Str() << " manifold " << b.mani.Str();
  const int t = b.tangent();
  REQUIRE("num_parameters", p->NumParameters() == n, p->NumParameters());
  REQUIRE("num_tangent", p->NumTangentParameters() == t, p->NumTangentParameters());
  const VecD x = Eigen::Map<const VecD>(b.x0.data(), n);
  VecD g = VecD::Constant(t, 3.0), d(t), y(n), y2(n);
  double cost = -1, cost2 = -1;
  REQUIRE("evaluate", p->Evaluate(x.data(), &cost, g.data()), "");
  REQUIRE("evaluate", p->Evaluate(x.data(), &cost2, nullptr), "");
  REQUIRE("cost", cost == f->Value(x, nullptr) && cost2 == cost, cost, " ", cost2);
  VecD want, pr;
  GradientAt(*f, b, x, &want, &pr);
  REQUIRE("gradient", (g - want).norm() <= 1e-13 * (1 + f->scale + want.norm()), g.transpose(), " expected ", want.transpose());
  for (int i = 0; i < t; ++i) d[i] = c.sym(1.0);
  REQUIRE("plus", p->Plus(x.data(), d.data(), y.data()), "");
  if (b.mani.kind == pg::kNone) y2 = x + d;
  else std::unique_ptr<Manifold>(b.mani.Make())->Plus(x.data(), d.data(), y2.data());
  REQUIRE("plus_value", y == y2, y.transpose(), " ", y2.transpose());
  // The gradient is the derivative of the cost along the manifold.
  const double h = 1e-5;
  const VecD hp = d * h, hm = -d * h;
  p->Plus(x.data(), hp.data(), y.data());
  p->Plus(x.data(), hm.data(), y2.data());
  double a, e;
  p->Evaluate(y.data(), &a, nullptr);
  p->Evaluate(y2.data(), &e, nullptr);
  const double k = 1 + f->scale + f->q.norm() + want.norm();
  REQUIRE("directional_derivative", std::fabs((a - e) / (2 * h) - g.dot(d)) <= 1e-5 * k * 10, (a - e) / (2 * h), " ", g.dot(d));
  c.label(b.mani.kind ? "manifold" : "euclidean");
  c.nontrivial(n > 1);
}

PBT_MAIN("C23", "more than one step, correction or parameter was involved")
