// C22: line searches return points satisfying their conditions.
// pbt-build: flavor=rel
#include <algorithm>
#include <complex>

#include "Eigen/Eigenvalues"
#include "ceres/evaluator.h"
#include "ceres/internal/eigen.h"
#include "ceres/line_search.h"
#include "ceres/polynomial.h"
#include "ceres/sparse_matrix.h"
#include "problem_gen.h"

using namespace ceres;
using namespace ceres::internal;
using LD = long double;

// ---- generated smooth functions of one variable ------------------------------
struct Term { int kind; double a, b, w; };
struct Fn1 {
  std::vector<Term> terms;
  double bad_from = HUGE_VAL;  // evaluation fails at and beyond this abscissa
  int bad_kind = 0;            // 0 returns false, 1 NaN value
  void Eval(double t, double* f, double* g) const {
    double v = 0, d = 0;
    for (const Term& k : terms) {
      const double u = k.a * (t - k.b);
      switch (k.kind) {
        case 0: v += k.w * u * u; d += k.w * 2 * u * k.a; break;
        case 1: v += k.w * std::cos(u); d -= k.w * std::sin(u) * k.a; break;
        case 2: v += k.w * u * u * u * u; d += k.w * 4 * u * u * u * k.a; break;
        case 3: v += k.w * std::log1p(u * u); d += k.w * 2 * u / (1 + u * u) * k.a; break;
        case 4: v += k.w * std::sqrt(1 + u * u); d += k.w * u / std::sqrt(1 + u * u) * k.a; break;
        case 5: v += k.w * std::exp(-std::fabs(u) < -50 ? -50.0 : std::min(u, 50.0)); d += std::fabs(u) > 50 || u > 50 ? 0 : k.w * std::exp(u) * k.a; break;
        case 6: v += k.w * u; d += k.w * k.a; break;
        case 7: v -= k.w * std::exp(-u * u); d += k.w * 2 * u * std::exp(-u * u) * k.a; break;
      }
    }
    *f = v; *g = d;
  }
  std::string Str() const {
    static const char* n[] = {"sq", "cos", "quart", "log1p", "hypot", "exp", "lin", "well"};
    std::string s;
    for (auto& t : terms) s += pbt::Str(" ", t.w, "*", n[t.kind], "(", t.a, "(t-", t.b, "))");
    if (bad_from < HUGE_VAL) s += pbt::Str(" bad", bad_kind, ">=", bad_from);
    return s;
  }
};
static Fn1 GenFn(pbt::Case& c) {
  Fn1 f;
  for (int k = c.range(1, 4); k > 0; --k) {
    static const int kinds[] = {0, 1, 2, 3, 4, 6, 7, 5};
    Term t{kinds[c.range(0, 7)], c.pick({1.0, 0.5, 2.0, 0.1, 5.0}), c.sym(3.0), c.pick({1.0, 0.5, 3.0, 0.1})};
    if (t.kind == 5) t.b = std::max(t.b, 0.0), t.a = -std::fabs(t.a);
    if (t.kind == 6 && c.coin()) t.w = -t.w;
    f.terms.push_back(t);
  }
  if (c.chance(1, 5)) { f.bad_from = c.logreal(1e-3, 20); f.bad_kind = c.range(0, 1); }
  return f;
}

struct Call { double t; bool gradient; double value, slope; bool ok; };

// A function of n variables which only varies along the first coordinate.
class FakeEvaluator : public Evaluator {
 public:
  FakeEvaluator(const Fn1& f, int n, double p0, double d0) : f_(f), n_(n), p0_(p0), d0_(d0) {}
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions&, const double* x, double* cost, double* residuals, double* gradient, SparseMatrix* jacobian) override {
    if (cost == nullptr || residuals != nullptr || jacobian != nullptr) misuse = true;
    Call k;
    k.t = x[0];
    k.gradient = gradient != nullptr;
    f_.Eval(x[0], &k.value, &k.slope);
    k.ok = !(x[0] >= f_.bad_from);
    if (!k.ok && f_.bad_kind == 0) { calls.push_back(k); return false; }
    *cost = k.ok ? k.value : NAN;
    if (gradient) for (int i = 0; i < n_; ++i) gradient[i] = i ? 0 : k.slope;
    calls.push_back(k);
    return true;
  }
  bool Plus(const double* x, const double* d, double* y) const override { for (int i = 0; i < n_; ++i) y[i] = x[i] + d[i]; return true; }
  int NumParameters() const override { return n_; }
  int NumEffectiveParameters() const override { return n_; }
  int NumResiduals() const override { return 1; }
  std::vector<Call> calls;
  bool misuse = false;
 private:
  Fn1 f_;
  int n_;
  double p0_, d0_;
};

static void Search(pbt::Case& c, LineSearchType type) {
  Fn1 f = GenFn(c);
  const int n = c.range(1, 3);
  const double p0 = c.coin() ? 0.0 : c.sym(2.0);
  double f0, g0;
  f.Eval(p0, &f0, &g0);
  if (f.bad_from < HUGE_VAL) f.bad_from += p0;
  if (!(std::fabs(g0) > 1e-6) || !std::isfinite(f0)) c.discard();
  const double d0 = (g0 > 0 ? -1 : 1) * c.pick({1.0, std::fabs(g0), 0.1, 10.0});
  if (d0 < 0 && f.bad_from < HUGE_VAL) f.bad_from = HUGE_VAL;  // bad region is on the right
  Vector p = Vector::Zero(n), d = Vector::Zero(n);
  p(0) = p0; d(0) = d0;
  for (int i = 1; i < n; ++i) { p(i) = c.sym(1.0); d(i) = c.sym(1.0) * std::fabs(d0); }
  const double slope0 = d0 * g0;
  FakeEvaluator ev(f, n, p0, d0);
  LineSearchFunction fn(&ev);
  fn.Init(p, d);
  LineSearch::Options o;
  o.interpolation_type = c.pick({CUBIC, QUADRATIC, BISECTION});
  o.sufficient_decrease = c.pick({1e-4, 1e-4, 1e-2, 0.3});
  o.sufficient_curvature_decrease = c.pick({0.9, 0.9, 0.5, 0.99});
  o.max_step_contraction = c.pick({1e-3, 0.1, 0.3});
  o.min_step_contraction = c.pick({0.9, 0.6, 0.5});
  o.min_step_size = c.pick({1e-9, 1e-9, 1e-4});
  o.max_num_iterations = c.pick({20, 20, 1, 2, 5, 60});
  o.max_step_expansion = c.pick({10.0, 2.0, 1.1});
  o.is_silent = true;
  o.function = &fn;
  const double estimate = c.coin() ? 1.0 : c.logreal(1e-4, 100);
  c.note() << f.Str() << " p0=" << p0 << " d0=" << d0 << " est=" << estimate << " interp=" << o.interpolation_type << " c1=" << o.sufficient_decrease
           << " c2=" << o.sufficient_curvature_decrease << " con=[" << o.max_step_contraction << "," << o.min_step_contraction << "] it=" << o.max_num_iterations
           << " exp=" << o.max_step_expansion << " min=" << o.min_step_size;
  std::string error;
  std::unique_ptr<LineSearch> ls = LineSearch::Create(type, o, &error);
  REQUIRE("create", ls != nullptr && error.empty(), error);
  LineSearch::Summary s;
  ls->Search(estimate, f0, slope0, &s);
  const double dn = d.lpNorm<Eigen::Infinity>();
  REQUIRE("init-kept", fn.position() == p && fn.direction() == d && fn.DirectionInfinityNorm() == dn, "");
  // Book-keeping.
  REQUIRE("misuse", !ev.misuse, "");
  int gradients = 0;
  for (auto& k : ev.calls) gradients += k.gradient;
  REQUIRE("evaluation-count", (int)ev.calls.size() == s.num_function_evaluations, ev.calls.size(), " reported ", s.num_function_evaluations);
  REQUIRE("gradient-count", gradients == s.num_gradient_evaluations, gradients, " reported ", s.num_gradient_evaluations);
  REQUIRE("iteration-limit", s.num_iterations <= o.max_num_iterations && (int)ev.calls.size() <= o.max_num_iterations + 1, s.num_iterations, " evaluations ", ev.calls.size());
  auto t_of = [&](const Call& k) { return (k.t - p0) / d0; };
  const double teps = 1e-15 * std::fabs(p0 / d0) * 4;
  REQUIRE("first-step", !ev.calls.empty() && std::fabs(t_of(ev.calls[0]) - estimate) <= 1e-15 * estimate * 4 + teps, t_of(ev.calls[0]));
  auto armijo_bound = [&](double t) { return f0 + o.sufficient_decrease * slope0 * t; };
  const double feps = 4e-16 * (std::fabs(f0) + 1e-300);
  if (type == ARMIJO) {
    REQUIRE("armijo-gradients", gradients == (o.interpolation_type == CUBIC ? (int)ev.calls.size() : 0), gradients);
    for (size_t i = 1; i < ev.calls.size(); ++i) {
      const double a = t_of(ev.calls[i - 1]), b = t_of(ev.calls[i]);
      REQUIRE("contraction", b >= a * o.max_step_contraction * (1 - 1e-12) - 2 * teps && b <= a * o.min_step_contraction * (1 + 1e-12) + 2 * teps, a, " -> ", b);
      // A new trial is only made when the last one was not acceptable.
      REQUIRE("needless-trial", !ev.calls[i - 1].ok || !(ev.calls[i - 1].value < armijo_bound(a) - 1e-12 * (std::fabs(f0) + std::fabs(slope0 * a)) - std::fabs(slope0) * teps), a);
    }
  } else {
    REQUIRE("wolfe-gradients", gradients == (int)ev.calls.size(), gradients);
    double hi = estimate;
    for (size_t i = 1; i < ev.calls.size(); ++i) {
      const double b = t_of(ev.calls[i]);
      REQUIRE("expansion", b >= -teps && b <= hi * o.max_step_expansion * (1 + 1e-12) + 2 * teps, b, " after at most ", hi);
      hi = std::max(hi, b);
    }
  }
  c.label(s.success ? (s.error.empty() ? "success" : "success with error") : "failure");
  if (!s.success) {
    REQUIRE("failure-explained", !s.error.empty(), "");
    if (type == ARMIJO) {
      for (auto& k : ev.calls) {
        const double t = t_of(k);
        REQUIRE("missed-armijo-point", !k.ok || !(k.value < armijo_bound(t) - 1e-12 * (std::fabs(f0) + std::fabs(slope0 * t)) - std::fabs(slope0) * teps), t);
      }
      // It gave up because of a limit.
      const double last = t_of(ev.calls.back());
      REQUIRE("gave-up-early", s.num_iterations >= o.max_num_iterations || last * o.max_step_contraction * dn <= o.min_step_size * (1 + 1e-9) + teps * dn,
              s.num_iterations, " last step ", last);
    }
    c.nontrivial(ev.calls.size() > 1);
    return;
  }
  const FunctionSample& q = s.optimal_point;
  REQUIRE("sample-valid", q.value_is_valid && q.vector_x_is_valid && q.vector_x.size() == n, "");
  for (int i = 0; i < n; ++i) REQUIRE("sample-position", q.vector_x(i) == p(i) + q.x * d(i), i, ": ", q.vector_x(i), " want ", p(i) + q.x * d(i));
  if (q.x == 0) {
    // Only Wolfe: nothing better was found, the start is returned.
    REQUIRE("zero-step", type == WOLFE && q.value == f0, q.value);
    c.label("zero step");
  } else {
    double fv, gv;
    f.Eval(q.vector_x(0), &fv, &gv);
    REQUIRE("sample-invalid-point", !(q.vector_x(0) >= f.bad_from), q.x);
    REQUIRE("sample-value", fv == q.value, q.value, " want ", fv);
    bool seen = false;
    for (auto& k : ev.calls) seen |= k.t == q.vector_x(0);
    REQUIRE("sample-not-evaluated", seen, q.x);
    if (q.gradient_is_valid) REQUIRE_CLOSE("sample-slope", q.gradient, d0 * gv, 1e-14, 1e-300, "");
    if (q.vector_gradient_is_valid) REQUIRE("sample-gradient", q.vector_gradient.size() == n && q.vector_gradient(0) == gv, "");
    REQUIRE("sample-has-gradient", q.gradient_is_valid == (type == WOLFE || o.interpolation_type == CUBIC) && q.vector_gradient_is_valid == q.gradient_is_valid, "");
  }
  REQUIRE("sufficient-decrease", q.value <= armijo_bound(q.x) + feps, q.value, " bound ", armijo_bound(q.x), " at ", q.x);
  if (type == WOLFE) {
    const bool curvature = q.x != 0 && std::fabs(q.gradient) <= o.sufficient_curvature_decrease * std::fabs(slope0) * (1 + 1e-14);
    if (!curvature && s.error.empty()) {
      // Silent fall back: only when the bracket became too small.
      std::vector<double> ts = {0.0};
      for (auto& k : ev.calls) ts.push_back(t_of(k));
      bool tiny = false;
      int same = 0;
      for (double a : ts) same += std::fabs(a - q.x) <= 1e-12 * q.x + teps;
      tiny = same > 1;
      for (double a : ts) if (a != q.x) tiny |= std::fabs(a - q.x) * dn < o.min_step_size * (1 + 1e-9) + teps * dn;
      REQUIRE("curvature", tiny, "slope ", q.gradient, " initial ", slope0, " at ", q.x);
      c.label("small bracket");
    }
    c.label(curvature ? "strong Wolfe" : "fell back");
  }
  c.nontrivial(ev.calls.size() > 1 || type == ARMIJO);
}

PBT_PROP(armijo, 480000, 12000000) { Search(c, ARMIJO); }
PBT_PROP(wolfe, 800000, 18000000) { Search(c, WOLFE); }

// With a generous number of iterations, a search along a descent direction of a
// smooth function that is bounded below finds a point.
PBT_PROP(finds_a_step, 240000, 6000000) {
  Fn1 f;
  const bool convex = c.coin();
  for (int k = c.range(1, 3); k > 0; --k) f.terms.push_back({c.pick({0, 2, 3, 4}), c.pick({1.0, 0.5, 2.0}), c.sym(3.0), c.pick({1.0, 0.5, 3.0})});
  if (!convex) f.terms.push_back({c.pick({1, 7}), c.pick({1.0, 3.0}), c.sym(2.0), c.pick({0.5, 2.0})});
  double f0, g0;
  const double p0 = c.sym(2.0);
  f.Eval(p0, &f0, &g0);
  if (std::fabs(g0) < 1e-2) c.discard();
  const double d0 = -g0 * c.pick({1.0, 0.1, 1 / std::fabs(g0)});
  FakeEvaluator ev(f, 1, p0, d0);
  LineSearchFunction fn(&ev);
  fn.Init(Vector::Constant(1, p0), Vector::Constant(1, d0));
  LineSearch::Options o;
  o.interpolation_type = c.pick({CUBIC, QUADRATIC, BISECTION});
  o.max_step_contraction = 1e-3;
  o.min_step_contraction = c.pick({0.9, 0.6});
  o.max_num_iterations = 200;
  o.is_silent = true;
  o.function = &fn;
  const LineSearchType type = c.coin() ? WOLFE : ARMIJO;
  const double estimate = c.logreal(1e-3, 30);
  c.note() << f.Str() << " p0=" << p0 << " d0=" << d0 << " est=" << estimate << " type=" << type << " interp=" << o.interpolation_type;
  std::string error;
  LineSearch::Summary s;
  LineSearch::Create(type, o, &error)->Search(estimate, f0, d0 * g0, &s);
  REQUIRE("found", s.success && (s.error.empty() || type == WOLFE) && s.optimal_point.x > 0, s.success, " ", s.error, " step ", s.optimal_point.x, " evaluations ", ev.calls.size());
  REQUIRE("found-decrease", s.optimal_point.value < f0, s.optimal_point.value);
  c.nontrivial(ev.calls.size() > 1);
}

// The interpolating step stays in the interval it was given.
PBT_PROP(interpolating_step, 400000, 9000000) {
  const Fn1 f = GenFn(c);
  FakeEvaluator ev(f, 1, 0, 1);
  LineSearchFunction fn(&ev);
  LineSearch::Options o;
  o.function = &fn;
  std::string error;
  auto ls = LineSearch::Create(WOLFE, o, &error);
  auto sample = [&](double t, bool grad) {
    double v, g;
    f.Eval(t, &v, &g);
    return grad ? FunctionSample(t, v, g) : FunctionSample(t, v);
  };
  const double t0 = c.coin() ? 0.0 : c.real(0, 2), t1 = t0 + c.logreal(1e-3, 5), t2 = t1 + c.logreal(1e-3, 5);
  const LineSearchInterpolationType it = c.pick({CUBIC, QUADRATIC, BISECTION});
  const bool grad = it == CUBIC;
  FunctionSample low = sample(t0, true), cur = sample(t1, grad), prev = c.coin() ? sample(t2, grad) : FunctionSample();
  if (c.chance(1, 6)) cur.value_is_valid = cur.gradient_is_valid = false;
  double lo = t1 * c.pick({1e-3, 0.1, 0.5}), hi = t1 * c.pick({0.9, 0.6});
  if (c.coin()) { lo = t1; hi = t1 * c.pick({10.0, 2.0}); }
  c.note() << f.Str() << " t=" << t0 << "," << t1 << "," << t2 << " in [" << lo << "," << hi << "] interp=" << it;
  const double r = ls->InterpolatingPolynomialMinimizingStepSize(it, low, prev, cur, lo, hi);
  REQUIRE("interval", r >= lo && r <= hi, r);
  if (it == BISECTION || !cur.value_is_valid) {
    const double want = !cur.value_is_valid || hi <= t1 ? std::min(std::max(t1 * 0.5, lo), hi) : hi;
    REQUIRE("bisection", r == want, r, " want ", want);
  } else {
    // No worse than any other point of the interval, according to the model.
    std::vector<FunctionSample> s = {low};
    if (it == QUADRATIC) { s.emplace_back(cur.x, cur.value); if (prev.value_is_valid) s.emplace_back(prev.x, prev.value); }
    else { s.push_back(cur); if (prev.value_is_valid) s.push_back(prev); }
    const Vector p = FindInterpolatingPolynomial(s);
    double mag = 0;
    for (int i = 0; i < p.size(); ++i) mag += std::fabs(p(i)) * std::pow(std::max(hi, 1.0), p.size() - 1 - i);
    const double v = EvaluatePolynomial(p, r);
    // A negligible leading coefficient costs the other roots their accuracy.
    const bool steady = p.size() <= 1 || std::fabs(p(0)) > 1e-3 * p.cwiseAbs().maxCoeff();
    for (int k = 0; steady && k <= 60; ++k) {
      const double t = lo + (hi - lo) * k / 60.0;
      REQUIRE("model-minimum", v <= EvaluatePolynomial(p, t) + 1e-8 * mag + 1e-100, "value ", v, " at ", r, " but ", EvaluatePolynomial(p, t), " at ", t);
    }
  }
  c.nontrivial();
}

// Eigen's eigenvalue iteration does not converge for a few polynomials with
// symmetric multiple roots, e.g. -3/4 (x^2 - 2)^2. Nothing can be asked of those.
static bool EigenFails(const Vector& p) {
  const int n = p.size() - 1;
  if (n < 3) return false;
  Matrix m = Matrix::Zero(n, n);
  for (int i = 0; i + 1 < n; ++i) m(i + 1, i) = 1;
  for (int i = 0; i < n; ++i) m(i, n - 1) = -p(n - i) / p(0);
  if (Eigen::EigenSolver<Matrix>(m, false).info() != Eigen::Success) return true;
  // Parlett-Reinsch balancing.
  const double corner = m(n - 1, n - 1);
  m(n - 1, n - 1) = 0;
  for (bool changed = true; changed;) {
    changed = false;
    for (int i = 0; i < n; ++i) {
      const double cn = m.col(i).lpNorm<1>(), rn = m.row(i).lpNorm<1>();
      if (cn == 0) continue;
      int e = 0;
      std::frexp(rn / cn, &e);
      e /= 2;
      if (e == 0 || !(std::ldexp(cn, e) + std::ldexp(rn, -e) < 0.9 * (cn + rn))) continue;
      changed = true;
      m.row(i) *= std::ldexp(1.0, -e);
      m.col(i) *= std::ldexp(1.0, e);
    }
  }
  m(n - 1, n - 1) = corner;
  if (Eigen::EigenSolver<Matrix>(m, false).info() != Eigen::Success) return true;
  return false;
}

// ---- polynomials ---------------------------------------------------------------
static Vector GenPoly(pbt::Case& c, int degree) {
  Vector p(degree + 1);
  for (int i = 0; i <= degree; ++i) p(i) = c.chance(1, 6) ? 0.0 : c.sym(3.0);
  return p;
}
static std::string StrV(const Vector& v) { std::string s = "["; for (int i = 0; i < v.size(); ++i) s += pbt::Str(" ", v(i)); return s + " ]"; }
static LD Magnitude(const Vector& p, LD x) { LD m = 0; for (int i = 0; i < p.size(); ++i) m = m * x + fabsl((LD)p(i)); return m; }
static std::complex<LD> Horner(const Vector& p, std::complex<LD> x) { std::complex<LD> v = 0; for (int i = 0; i < p.size(); ++i) v = v * x + (LD)p(i); return v; }

PBT_PROP(roots, 320000, 9000000) {
  const int degree = c.size(0, 7);
  Vector p;
  std::vector<std::complex<double>> known;
  bool separated = false;
  if (c.coin()) {
    p = GenPoly(c, degree);
    if (c.chance(1, 5)) for (int i = 0; i < c.range(0, degree); ++i) p(i) = 0;
    if (c.chance(1, 6)) p *= c.logreal(1e-6, 1e6);
  } else {
    // From chosen roots.
    std::vector<LD> q = {c.pick({1.0, -1.0, 2.0, 0.25, 100.0})};
    while ((int)known.size() < degree) {
      if (degree - known.size() >= 2 && c.chance(1, 3)) {
        const double re = c.sym(2.0), im = c.coin() ? 1.0 : c.real(0.3, 2);
        known.push_back({re, im});
        known.push_back({re, -im});
        std::vector<LD> n(q.size() + 2, 0);
        for (size_t i = 0; i < q.size(); ++i) { n[i] += q[i]; n[i + 1] -= 2 * (LD)re * q[i]; n[i + 2] += ((LD)re * re + (LD)im * im) * q[i]; }
        q = n;
      } else {
        const double re = c.sym(3.0);
        known.push_back({re, 0});
        std::vector<LD> n(q.size() + 1, 0);
        for (size_t i = 0; i < q.size(); ++i) { n[i] += q[i]; n[i + 1] -= (LD)re * q[i]; }
        q = n;
      }
    }
    p.resize(q.size());
    for (size_t i = 0; i < q.size(); ++i) p(i) = (double)q[i];
    separated = true;
    for (size_t i = 0; i < known.size(); ++i) for (size_t j = 0; j < i; ++j) separated &= std::abs(known[i] - known[j]) > 0.3;
  }
  c.note() << StrV(p);
  int lead = 0;
  while (lead < p.size() - 1 && p(lead) == 0) ++lead;
  const int deg = p.size() - 1 - lead;
  Vector re, im;
  const bool want_im = !c.chance(1, 4);
  const bool ok = FindPolynomialRoots(p, &re, want_im ? &im : nullptr);
  if (!ok && EigenFails(p.tail(deg + 1))) { c.label("eigenvalue iteration did not converge"); return; }
  REQUIRE("found", ok, "");
  if (deg == 0) return;
  REQUIRE("root-count", re.size() == deg && (!want_im || im.size() == deg), re.size(), " ", im.size(), " want ", deg);
  // Badly scaled leading coefficients make roots meaningless.
  double big = p.cwiseAbs().maxCoeff();
  if (std::fabs(p(lead)) < 1e-6 * big) { c.label("tiny leading coefficient"); for (int i = 0; i < deg; ++i) REQUIRE("root-nan", !std::isnan(re(i)), i); return; }
  c.nontrivial(deg >= 2);
  if (!want_im) {
    Vector re2, im2;
    FindPolynomialRoots(p, &re2, &im2);
    REQUIRE("same-without-imaginary", re == re2, "");
    return;
  }
  std::vector<std::complex<double>> got;
  double rmax = 1;
  for (int i = 0; i < deg; ++i) { got.push_back({re(i), im(i)}); rmax = std::max(rmax, std::abs(got.back())); }
  for (auto& r : got) {
    const LD v = std::abs(Horner(p, {(LD)r.real(), (LD)r.imag()})), m = Magnitude(p, std::max<LD>(std::abs(r), rmax));
    REQUIRE("root", v <= 1e-11L * m, "p(", r.real(), "+", r.imag(), "i) = ", (double)v, " magnitude ", (double)m);
  }
  // Together they are all the roots: the product reproduces the polynomial.
  std::vector<std::complex<LD>> prod = {(LD)p(lead)};
  for (auto& r : got) {
    std::vector<std::complex<LD>> n(prod.size() + 1, 0);
    for (size_t i = 0; i < prod.size(); ++i) { n[i] += prod[i]; n[i + 1] -= std::complex<LD>(r.real(), r.imag()) * prod[i]; }
    prod = n;
  }
  for (int i = 0; i <= deg; ++i) {
    // Scale by the size of the symmetric function of roots.
    LD scale = std::fabs(p(lead)) * powl(rmax, i) * 128;
    REQUIRE("product", std::abs(prod[i] - (LD)p(lead + i)) <= 1e-9L * (scale + std::fabs(p(lead + i))), "coefficient ", i, ": ", (double)prod[i].real(), " want ", p(lead + i));
  }
  if (separated && lead == 0) {
    std::vector<bool> taken(deg, false);
    for (auto& k : known) {
      int best = -1;
      for (int i = 0; i < deg; ++i) if (!taken[i] && (best < 0 || std::abs(got[i] - k) < std::abs(got[best] - k))) best = i;
      taken[best] = true;
      REQUIRE("known-root", std::abs(got[best] - k) <= 1e-6, k.real(), "+", k.imag(), "i found as ", got[best].real(), "+", got[best].imag(), "i");
    }
  }
}

PBT_PROP(calculus, 240000, 6000000) {
  const int degree = c.size(0, 7);
  const Vector p = GenPoly(c, degree);
  c.note() << StrV(p);
  const Vector d = DifferentiatePolynomial(p);
  REQUIRE("derivative-size", d.size() == std::max(1, degree), d.size());
  if (degree == 0) REQUIRE("constant-derivative", d(0) == 0, d(0));
  for (int i = 0; i < degree; ++i) REQUIRE_CLOSE("derivative", d(i), (degree - i) * p(i), 1e-15, 1e-300, i);
  const double x = c.sym(3.0);
  const LD v = Horner(p, {(LD)x, 0}).real();
  REQUIRE("evaluate", fabsl(EvaluatePolynomial(p, x) - v) <= 1e-15L * (degree + 1) * 2 * Magnitude(p, fabsl(x)), EvaluatePolynomial(p, x), " want ", (double)v);
  c.nontrivial(degree > 0);
}

static void CheckMinimum(pbt::Case& c, const Vector& p, double lo, double hi, double x, double v, double tol = 1e-9) {
  REQUIRE("minimum-outside", x >= lo && x <= hi, x, " not in [", lo, ",", hi, "]");
  REQUIRE("minimum-value", v == EvaluatePolynomial(p, x), v, " want ", EvaluatePolynomial(p, x));
  REQUIRE("minimum-ends", v <= EvaluatePolynomial(p, lo) && v <= EvaluatePolynomial(p, hi), v);
  const double m = (double)Magnitude(p, std::max(std::fabs(lo), std::fabs(hi)));
  if (p.size() > 1 && p(0) != 0 && EigenFails(DifferentiatePolynomial(p))) return;
  for (int k = 1; k < 200; ++k) {
    const double t = lo + (hi - lo) * k / 200.0;
    REQUIRE("minimum", v <= EvaluatePolynomial(p, t) + tol * m + 1e-100, "value ", v, " at ", x, " but ", EvaluatePolynomial(p, t), " at ", t);
  }
}

PBT_PROP(minimize, 240000, 6000000) {
  const int degree = c.size(0, 7);
  Vector p = GenPoly(c, degree);
  const double lo = c.sym(3.0), hi = lo + (c.chance(1, 10) ? 0.0 : c.logreal(1e-3, 5));
  c.note() << StrV(p) << " on [" << lo << "," << hi << "]";
  double x = NAN, v = NAN;
  MinimizePolynomial(p, lo, hi, &x, &v);
  CheckMinimum(c, p, lo, hi, x, v);
  c.nontrivial(degree > 1);
}

PBT_PROP(interpolate, 240000, 6000000) {
  std::vector<FunctionSample> s;
  int constraints = 0;
  const int n = c.range(1, 4);
  double x = c.coin() ? 0.0 : c.sym(2.0);
  const Fn1 f = GenFn(c);
  for (int i = 0; i < n; ++i) {
    double v, g;
    f.Eval(x, &v, &g);
    FunctionSample q = c.coin() ? FunctionSample(x, v, g) : FunctionSample(x, v);
    if (constraints + (q.gradient_is_valid ? 2 : 1) > 7) break;
    constraints += q.gradient_is_valid ? 2 : 1;
    s.push_back(q);
    x += c.real(0.25, 2);
  }
  if (c.chance(1, 8)) s.insert(s.begin() + c.range(0, (int)s.size()), FunctionSample());  // nothing valid
  c.note() << f.Str() << " " << constraints << " constraints at";
  for (auto& q : s) c.note() << " " << q.x << (q.value_is_valid ? (q.gradient_is_valid ? "g" : "") : "invalid");
  const Vector p = FindInterpolatingPolynomial(s);
  REQUIRE("degree", p.size() == constraints, p.size());
  const Vector d = DifferentiatePolynomial(p);
  // The linear system for the coefficients is solved with a residual that is
  // small compared with its largest row.
  double big = 1e-100;
  for (auto& q : s) {
    if (q.value_is_valid) big = std::max(big, (double)Magnitude(p, std::fabs(q.x)) + std::fabs(q.value));
    if (q.gradient_is_valid) big = std::max(big, (double)Magnitude(d, std::fabs(q.x)) + std::fabs(q.gradient));
  }
  for (auto& q : s) {
    if (q.value_is_valid) {
      const double tol = 1e-12 * big;
      REQUIRE("sample-value", std::fabs(EvaluatePolynomial(p, q.x) - q.value) <= tol, EvaluatePolynomial(p, q.x), " want ", q.value, " at ", q.x);
    }
    if (q.gradient_is_valid) {
      const double tol = 1e-12 * big;
      REQUIRE("sample-gradient", std::fabs(EvaluatePolynomial(d, q.x) - q.gradient) <= tol, EvaluatePolynomial(d, q.x), " want ", q.gradient, " at ", q.x);
    }
  }
  double lo = s[0].x - (c.coin() ? 0.5 : 0), hi = std::max(lo, x), ox = NAN, ov = NAN;
  if (c.coin()) { lo = c.sym(2.0); hi = lo + c.logreal(1e-2, 4); }
  for (size_t i = 0; i < s.size();) { if (!s[i].value_is_valid) s.erase(s.begin() + i); else ++i; }
  MinimizeInterpolatingPolynomial(s, lo, hi, &ox, &ov);
  // A negligible leading coefficient costs the other roots their accuracy.
  const Vector r = FindInterpolatingPolynomial(s);
  const bool steady = r.size() <= 1 || std::fabs(r(0)) > 1e-3 * r.cwiseAbs().maxCoeff();
  CheckMinimum(c, r, lo, hi, ox, ov, steady ? 1e-8 : 1e300);
  c.nontrivial(constraints > 2);
}

PBT_MAIN("C22", "the search needed more than one evaluation (or tested the decrease condition), or the polynomial had degree of at least two")
