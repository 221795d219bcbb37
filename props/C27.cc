// C27: the tiny solver minimises without the full framework.
// pbt-build: flavor=rel
#include <cmath>
#include <memory>

#include "Eigen/Dense"
#include "ceres/cost_function.h"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "expr.h"
#include "pbt.h"

using pbt::Case;
using pbt::Str;
typedef long double LD;

// Residuals given by a program (or a linear system), with exact Jacobian.
struct Model {
  expr::Program p;
  Eigen::MatrixXd A;  // used instead of p when not empty: r = A x - b
  Eigen::VectorXd b;
  int m = 0, n = 0;
  void Eval(const double* x, double* r, double* J) const {  // J column-major
    if (A.size()) {
      Eigen::Map<const Eigen::VectorXd> X(x, n);
      Eigen::Map<Eigen::VectorXd>(r, m) = A * X - b;
      if (J) Eigen::Map<Eigen::MatrixXd>(J, m, n) = A;
      return;
    }
    if (!J) {
      p.Eval(x, r);
      return;
    }
    std::vector<LD> v;
    std::vector<std::vector<LD>> D;
    p.Reference(x, &v, &D);
    p.Eval(x, r);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) J[j * m + i] = (double)D[i][j];
  }
  double Cost(const double* x) const {
    std::vector<double> r(m);
    Eval(x, r.data(), nullptr);
    LD s = 0;
    for (double v : r) s += (LD)v * v;
    return (double)(s / 2);
  }
  // Costs agree up to rounding errors of the residuals.
  bool SameCost(double a, double b, const double* x) const { return std::fabs(std::sqrt(2 * a) - std::sqrt(2 * b)) <= 1e-13 * Inner(x) * m + 1e-12 * std::sqrt(a); }
  // The size of the quantities the residuals are computed from.
  double Inner(const double* x) const {
    double inner = 1;
    if (A.size()) return std::max(inner, (A.cwiseAbs() * Eigen::Map<const Eigen::VectorXd>(x, n).cwiseAbs() + b.cwiseAbs()).maxCoeff());
    expr::Program q = p;
    q.outputs.clear();
    for (size_t i = 0; i < p.nodes.size(); ++i) q.outputs.push_back(i);
    std::vector<double> nodes(q.nodes.size());
    q.Eval(x, nodes.data());
    for (double v : nodes) inner = std::max(inner, std::fabs(v));
    return inner;
  }
  Eigen::VectorXd Gradient(const double* x, double* abs_scale) const {
    Eigen::VectorXd r(m);
    Eigen::MatrixXd J(m, n);
    Eval(x, r.data(), J.data());
    *abs_scale = ((J.cwiseAbs().transpose().array() + 1).matrix() * (r.cwiseAbs().array() + Inner(x)).matrix()).maxCoeff();
    return J.transpose() * r;
  }
};

template <int R, int N>
struct Fn {
  typedef double Scalar;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = N };
  const Model* model;
  mutable bool last_accepted = false;
  mutable double accepted = -1, before = -1, trial = -1;  // costs at the accepted points and the last trial
  bool operator()(const double* x, double* r, double* J) const {
    model->Eval(x, r, J);
    double s = 0;
    for (int i = 0; i < model->m; ++i) s += r[i] * r[i];
    last_accepted = J != nullptr;
    if (J) { before = accepted; accepted = s / 2; }
    else trial = s / 2;
    return true;
  }
  int NumResiduals() const { return model->m; }
  int NumParameters() const { return model->n; }
};
template <typename F> struct Logs { static const bool value = false; };
template <int R, int N> struct Logs<Fn<R, N>> { static const bool value = true; };
struct AutoFn {
  const Model* model;
  int NumResiduals() const { return model->m; }
  template <typename T> bool operator()(const T* x, T* r) const {
    if (model->A.size()) {
      for (int i = 0; i < model->m; ++i) {
        r[i] = T(-model->b(i));
        for (int j = 0; j < model->n; ++j) r[i] += model->A(i, j) * x[j];
      }
    } else {
      model->p.Eval(x, r);
    }
    return true;
  }
};
struct CostFn : ceres::CostFunction {
  const Model* model;
  explicit CostFn(const Model* m) : model(m) {
    set_num_residuals(m->m);
    mutable_parameter_block_sizes()->push_back(m->n);
  }
  bool Evaluate(double const* const* x, double* r, double** J) const override {
    if (!J || !J[0]) { model->Eval(x[0], r, nullptr); return true; }
    Eigen::MatrixXd D(model->m, model->n);
    model->Eval(x[0], r, D.data());
    for (int i = 0; i < model->m; ++i) for (int j = 0; j < model->n; ++j) J[0][i * model->n + j] = D(i, j);
    return true;
  }
};

static Model GenModel(Case& c, int m, int n, bool linear, bool full_rank) {
  Model M;
  M.m = m;
  M.n = n;
  if (linear) {
    M.A.resize(m, n);
    M.b.resize(m);
    for (int i = 0; i < m; ++i) {
      M.b(i) = c.sym(3);
      for (int j = 0; j < n; ++j) M.A(i, j) = c.sym(2);
    }
    if (full_rank) for (int j = 0; j < n; ++j) M.A(j, j) += M.A(j, j) < 0 ? -4.0 : 4.0;
    if (!full_rank && n > 1 && c.coin()) M.A.col(1) = M.A.col(0);
  } else {
    M.p = expr::Gen(c, n, m, c.range(1, 12));
  }
  return M;
}

static double Cond(const Eigen::MatrixXd& A) {
  const auto sv = Eigen::JacobiSVD<Eigen::MatrixXd>(A).singularValues();
  return sv(0) / sv(sv.size() - 1);
}
template <typename Solver, typename F>
static void Run(Case& c, Solver& s, const F& f, const Model& M, const std::vector<double>& x0, const std::string& who, std::vector<double>* out, bool full_rank_linear) {
  typename Solver::ParameterVector x;
  if constexpr (Solver::ParameterVector::SizeAtCompileTime == Eigen::Dynamic) x.resize(M.n);
  for (int i = 0; i < M.n; ++i) x(i) = x0[i];
  const auto o = s.options;
  const auto& sum = s.Solve(f, &x);
  REQUIRE("summary", &sum == &s.summary, who);
  REQUIRE("options-modified", o.max_num_iterations == s.options.max_num_iterations && o.initial_trust_region_radius == s.options.initial_trust_region_radius, who);
  const double c0 = M.Cost(x0.data()), c1 = M.Cost(x.data());
  REQUIRE("finite", x.allFinite(), who);
  REQUIRE("initial-cost", M.SameCost(sum.initial_cost, c0, x0.data()), who, ": ", sum.initial_cost, " recomputed ", c0);
  REQUIRE("final-cost", M.SameCost(sum.final_cost, c1, x.data()), who, ": ", sum.final_cost, " recomputed ", c1);
  REQUIRE("never-worse", c1 <= c0 || M.SameCost(c0, c1, x.data()), who, ": ", c0, " -> ", c1);
  REQUIRE("iterations", sum.iterations >= 0 && sum.iterations <= std::max(1, s.options.max_num_iterations), who, " ", sum.iterations);
  double gs;
  const Eigen::VectorXd g = M.Gradient(x.data(), &gs);
  const double gmax = g.cwiseAbs().maxCoeff();
  REQUIRE_CLOSE("gradient-norm", sum.gradient_max_norm, gmax, 1e-10, 1e-2 * gs * std::max(1.0, M.Inner(x.data())), who, " iterations ", sum.iterations);
  switch (sum.status) {
    case Solver::GRADIENT_TOO_SMALL:
      c.label("gradient");
      REQUIRE("status", gmax <= s.options.gradient_tolerance * (1 + 1e-9) + 1e-13 * gs, who, ": gradient ", gmax, " tolerance ", s.options.gradient_tolerance);
      break;
    case Solver::COST_TOO_SMALL:
      c.label("cost");
      REQUIRE("status", c1 <= s.options.cost_threshold || M.SameCost(c1, s.options.cost_threshold, x.data()), who, ": cost ", c1);
      break;
    case Solver::RELATIVE_STEP_SIZE_TOO_SMALL:
      c.label("step");
      break;
    case Solver::COST_CHANGE_TOO_SMALL:
      c.label("change");
      if constexpr (Logs<F>::value) {
        // The last trial either was accepted (its cost is then also the last accepted one) or not.
        const double old = f.last_accepted ? f.before : f.accepted;
        REQUIRE("status-change", std::fabs(f.trial - old) <= s.options.function_tolerance * old * (1 + 1e-6) + 1e-14 * old, who, ": the cost changed from ", old, " to ", f.trial,
                " with function tolerance ", s.options.function_tolerance);
      }
      break;
    case Solver::HIT_MAX_ITERATIONS:
      c.label("max iterations");
      REQUIRE("status", sum.iterations >= s.options.max_num_iterations, who, ": stopped after ", sum.iterations, " of ", s.options.max_num_iterations, " iterations");
      break;
  }
  // Accessors describe the returned point.
  {
    Eigen::VectorXd r(M.m);
    Eigen::MatrixXd J(M.m, M.n);
    M.Eval(x.data(), r.data(), J.data());
    const Eigen::VectorXd rr = s.Residuals();
    const Eigen::MatrixXd JJ = s.Jacobian();
    REQUIRE("residuals", rr.rows() == M.m && (rr - r).cwiseAbs().maxCoeff() <= 1e-12 * (M.Inner(x.data()) + r.cwiseAbs().maxCoeff()), who);
    REQUIRE("jacobian", JJ.rows() == M.m && JJ.cols() == M.n && (JJ - J).cwiseAbs().maxCoeff() <= 1e-12 * M.Inner(x.data()) * std::pow(1 + J.cwiseAbs().maxCoeff(), 2), who, " difference ", (JJ - J).cwiseAbs().maxCoeff(), " at size ", M.Inner(x.data()));
  }
  if (full_rank_linear && sum.status != Solver::HIT_MAX_ITERATIONS && s.options.cost_threshold < 1e-12 && s.options.gradient_tolerance <= 1e-10 && s.options.parameter_tolerance <= 1e-8 &&
      s.options.function_tolerance <= 1e-12 && s.options.initial_trust_region_radius >= 1 && Cond(M.A) < 1e3) {
    const Eigen::VectorXd best = M.A.colPivHouseholderQr().solve(M.b);
    const double cb = M.Cost(best.data());
    REQUIRE("linear-minimiser", c1 <= cb + 1e-9 * (1 + c0), who, ": cost ", c1, " minimum ", cb, " status ", sum.status);
    c.label("linear solved");
  }
  out->assign(x.data(), x.data() + M.n);
}

template <typename O>
static void GenOptions(Case& c, O* o) {
  if (c.coin()) {
    o->max_num_iterations = c.pick({50, 1, 2, 3, 10, 200, 1000});
    o->gradient_tolerance = c.pick({1e-10, 1e-3, 0.0, 1e-14});
    o->parameter_tolerance = c.pick({1e-8, 1e-3, 0.0, 1e-12});
    o->function_tolerance = c.pick({1e-6, 1e-3, 0.0, 1e-12});
    o->cost_threshold = c.pick({2.2e-16, 1e-3, 0.0});
    o->initial_trust_region_radius = c.pick({1e4, 1.0, 1e-3, 1e12, 1e-8});
  }
}

template <int R, int N, int MR, int MN>
static void Check(Case& c) {
  typedef Fn<R, N> F;
  typedef ceres::TinySolver<F, MR, MN> Solver;
  std::unique_ptr<Solver> s(new Solver);
  const int solves = c.range(1, 3);
  for (int k = 0; k < solves; ++k) {
    const int n = N > 0 ? N : c.range(1, MN > 0 ? MN : 5);
    const int m = R > 0 ? R : c.range(1, MR > 0 ? MR : 8);
    const bool linear = c.chance(1, 3), full = linear && m >= n && c.chance(3, 4);
    const Model M = GenModel(c, m, n, linear, full);
    std::vector<double> x0(n), x1, x2;
    for (double& v : x0) v = c.sym(3);
    if (k == 0 || c.coin()) GenOptions(c, &s->options);
    F f{&M};
    c.note() << (k ? "; " : "") << (linear ? full ? "linear" : "rank-deficient?" : "nonlinear") << " " << m << "x" << n;
    const std::string who = Str("solve ", k, " of ", solves);
    Run(c, *s, f, M, x0, who, &x1, full);
    c.nontrivial(x1 != x0);
    // A reused solver behaves like a fresh one.
    std::unique_ptr<Solver> fresh(new Solver);
    fresh->options = s->options;
    f = F{&M};
    Run(c, *fresh, f, M, x0, who + " (fresh)", &x2, full);
    REQUIRE("reuse", x1 == x2 && s->summary.status == fresh->summary.status && s->summary.iterations == fresh->summary.iterations && s->summary.final_cost == fresh->summary.final_cost, who);
    // The fully dynamic solver agrees.
    if (k == 0) {
      typedef ceres::TinySolver<Fn<Eigen::Dynamic, Eigen::Dynamic>> Dyn;
      std::unique_ptr<Dyn> d(new Dyn);
      d->options.max_num_iterations = s->options.max_num_iterations;
      d->options.gradient_tolerance = s->options.gradient_tolerance;
      d->options.parameter_tolerance = s->options.parameter_tolerance;
      d->options.function_tolerance = s->options.function_tolerance;
      d->options.cost_threshold = s->options.cost_threshold;
      d->options.initial_trust_region_radius = s->options.initial_trust_region_radius;
      Fn<Eigen::Dynamic, Eigen::Dynamic> df{&M};
      std::vector<double> xd;
      Run(c, *d, df, M, x0, who + " (dynamic)", &xd, full);
      // Cost functions and automatic derivatives through the adapters.
      CostFn cf(&M);
      typedef ceres::TinySolverCostFunctionAdapter<R, N, MR, MN> Ad;
      Ad ad(cf);
      typedef ceres::TinySolver<Ad, MR, MN> AS;
      std::unique_ptr<AS> as(new AS);
      as->options.max_num_iterations = s->options.max_num_iterations;
      as->options.gradient_tolerance = s->options.gradient_tolerance;
      as->options.parameter_tolerance = s->options.parameter_tolerance;
      as->options.function_tolerance = s->options.function_tolerance;
      as->options.cost_threshold = s->options.cost_threshold;
      as->options.initial_trust_region_radius = s->options.initial_trust_region_radius;
      std::vector<double> xa;
      Run(c, *as, ad, M, x0, who + " (cost function)", &xa, full);
      REQUIRE("adapter", as->summary.iterations == s->summary.iterations && as->summary.status == s->summary.status && xa == x1, who);
      if constexpr (N > 0) {
        AutoFn af{&M};
        typedef ceres::TinySolverAutoDiffFunction<AutoFn, R, N, double, MR> AD;
        AD adf(af);
        typedef ceres::TinySolver<AD, MR> TS;
        std::unique_ptr<TS> ts(new TS);
        ts->options.max_num_iterations = s->options.max_num_iterations;
        ts->options.gradient_tolerance = s->options.gradient_tolerance;
        ts->options.parameter_tolerance = s->options.parameter_tolerance;
        ts->options.function_tolerance = s->options.function_tolerance;
        ts->options.cost_threshold = s->options.cost_threshold;
        ts->options.initial_trust_region_radius = s->options.initial_trust_region_radius;
        std::vector<double> xt;
        Run(c, *ts, adf, M, x0, who + " (autodiff)", &xt, full);
      }
    }
  }
}

PBT_PROP(solve, 240000, 1600000) {
  constexpr int D = Eigen::Dynamic;
  switch (c.range(0, 6)) {
    case 0: Check<2, 2, 2, 2>(c); break;
    case 1: Check<D, D, D, D>(c); break;
    case 2: Check<D, 3, D, 3>(c); break;
    case 3: Check<5, D, 5, D>(c); break;
    case 4: Check<D, D, 6, 4>(c); break;
    case 5: Check<1, 1, 1, 1>(c); break;
    default: Check<6, 4, 6, 4>(c);
  }
}

PBT_MAIN("C27", "a solve moved the parameters")
